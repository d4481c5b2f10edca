"""C12: a Java stack trace is read as it is written."""
from vlib.gen import NULL, st, thread
from vlib import textgen
MC = 'SPECIFICATION Spec\nCONSTANT MaxSize = %d\nINVARIANTS Back End Suppressed Order\n'
NAMES = ['java.lang.NullPointerException', 'E', 'a.b.C$D', 'org.x.Foo.<init>', 'Caused', 'at', 'Suppressed']
def path(r):
    return r.choice(['/usr/lib/java/foo.jar', '/home/user/lib/a.jar', '/home/u/', '/home/', '/home', '/homer/x', 'x/home/u/y', '/home/anonymized/x', '/', 'F', textgen.word(r, 8, 'ab/. -_')])
def a_frame(r):
    name = r.choice(NAMES + ['SimpleTest.main', 'f', 'a.at.b', textgen.word(r, 6)])
    src = r.choice(['Native Method', 'Unknown Source', 'Test.java', 'T.java:', path(r), '', 'Native Methods', 'Native', textgen.word(r, 6)])
    line = r.choice(['', '', ':1', ':36', ':0', ':007', ':4294967295', ':4294967296', ':99999999999999999999', ':x', ':-1', ':+1', ': 3', ':3x'])
    where = r.choice(['', '', '', ' [file:%s]', ' [http://x%s]', ' [jar:file:%s!/a/B.class]', ' [jar:http://h/%s!/a]', ' [unknown]', ' [file:%s', ' [jar:%s!/a]', ' [jar:file:%s]', '[file:%s]', ' ~[%s:1.0]', ' [%s]', ' []', ' [:]', ' [jar:]', ' [file:]', ' x [file:%s] y', ' [file:a!b]', ' [jar:file:!x]'])
    return r.choice(['\t', '\t', '    ', '', ' \t ']) + r.choice(['at ', 'at ', 'at ', 'at  ', 'at\t', 'at']) + name + (r.choice(['(%s%s)', '(%s%s)', '(%s%s)', '(%s%s']) % (src, line) if r.random() < .93 else '') + (where.replace('%s', path(r)))
def exception(r, depth=0):
    ls = []
    ls.append(r.choice(NAMES + [textgen.word(r, 6)]) + r.choice(['', '', ': message', ': ', ':', ':x', ' ', ' junk', ': a: b', ':\tx ', ': Caused by: y', ': ' + textgen.word(r)]))
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        ls.append(a_frame(r))
        if r.random() < .05: ls.append(r.choice(['', ' ', '\t']))
    if r.random() < .6: ls.append(r.choice(['\t... 5 more', '... 1 more', '\t... ', '\t...', '    ... 23 common frames omitted']))
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        if depth < 2:
            sub = exception(r, depth + 1)
            ls += ['\t' * r.choice([1, 1, 1, 1, 0]) + 'Suppressed: ' + sub[0]] + ['\t' + x for x in sub[1:]]
    if depth < 3 and r.random() < .5:
        sub = exception(r, depth + 1)
        ls += [r.choice(['', '', '', '', '\t']) + 'Caused by: ' + sub[0]] + sub[1:]
    return ls
def trace(r):
    head = r.choice(['', 'Exception in thread "main" ', 'Exception in thread "main" ', 'Exception in thread "a b"', 'Exception in thread "" ', 'Exception in thread "x ', 'Exception in thread ', 'exception in thread "x" '])
    return head + '\n'.join(exception(r)) + r.choice(['\n', '\n', '\n', ''])
FULL = 'Exception in thread "main" a.B: bad\n\tat a.B.c(/home/u/B.java:7) [jar:file:/home/u/b.jar!/a/B.class]\n\tat a.B.d(Native Method) [file:/x/y]\n\tSuppressed: c.D: x\n\t\tat c.D.e(D.java:3)\nCaused by: e.F\n\tat e.F.g(Unknown Source)\n\t... 2 more\n\tSuppressed: c.D\n\t\tat c.D.e(D.java:4)\nCaused by: h.I: z\n\tat h.I.j(I.java:1)\n'
SHORT = 'Exception in thread "m" E: x\n\tat a(B:1) [file:/x]\nCaused by: F\n\t... 1 more\n'
def expect(x):
    if x['how'] == 'bad':
        return None
    t = thread('java', frames=x['frames'], name=x['name'][0] if x['name'] else NULL)
    return st('java', threads=[t])
def run(ctx):
    r = ctx.rng
    ctx.model('MCJavaText', MC % ctx.n(2, 3), part='traces of up to %d further causes and calls' % ctx.n(2, 3))
    texts = [textgen.spoilt(r, trace(r), extra=['Caused by: x', '\tSuppressed: y', '\t... 1 more', 'Exception in thread "z" q', '\tat a(b)']) for _ in range(ctx.n(8000, 80000))]
    texts += textgen.prefixes(FULL) + textgen.without_each_line(FULL)
    near = textgen.edits(SHORT)
    texts += near
    texts += textgen.large(r, [FULL, SHORT], trace, ctx.n(500, 5000)) + ['E: x\n' + textgen.numbered('\tat a.b@@(F@@.java:@@)\n', n) for n in textgen.TIMES] + ['E: x\n\tat f(g:1)\n' + textgen.numbered('Caused by: E@@: m@@\n\tat a.b@@(F.java:@@)\n\t... @@ more\n', n) for n in textgen.TIMES] + ['E: x\n\tat f(g:1)\n' + textgen.numbered('\tSuppressed: E@@: m@@\n\t\tat a.b@@(F.java:@@)\n', n) + 'Caused by: z\n\tat f(h:1)\n' for n in textgen.TIMES]
    texts = [t for t in dict.fromkeys(texts) if '\v' not in t]
    exp = ctx.spec_eval('JavaText', 'RunJava', [{'text': t} for t in texts])
    textgen.read_texts(ctx, 'java', 'Java traces as text', texts, exp, expect)
