"""C11: a Python stack trace is read as it is written."""
from vlib.gen import NULL, st
from vlib import textgen
MC = 'SPECIFICATION Spec\nCONSTANT MaxDepth = %d\nINVARIANTS Back Around Marked\n'
HEADER = 'Traceback (most recent call last):\n'
def a_frame(r):
    w = textgen.word
    file = r.choice(['/usr/bin/x.py', '/home/user/y.py', '<string>', '<stdin>', '/home/u', '<', '>', '<>', '<a', 'a>', '</home/u/x>', w(r, 6).replace('"', ''), ''])
    func = r.choice(['f', '<module>', '<lambda>', '<', '<>', '__init__', 'a.b', '<listcomp>', w(r, 6), ''])
    line = r.choice(['1', '7', '7', '42', '007', '0', '4294967295', '4294967296', '-1', '+1', ' 1', 'x', '3x', ''] if r.random() < .3 else ['1', '42', '1000'])
    s = '  File "%s", line %s' % (file, line)
    if r.random() < .9: s += ', in ' + func
    s += '\n'
    if r.random() < .75:
        s += '    ' + r.choice(['f(x)', 'return y', '  deeper', '', ' ', '^^', 'a: b', w(r), w(r, 12)]) + '\n'
        if r.random() < .3: s += r.choice(['    ~~^~~\n', '       ^\n', '    ^^^^\n', '~\n', '\n', '  \n', '    ~~^~ x\n', '  ^~'])
    return s
def trace(r):
    head = r.choice(['', '', '\n', 'x.py:7:f:ValueError: y\n\n', 'invalid syntax (x.py, line 3)\n\n', textgen.word(r) + '\n'])
    syn = r.random() < .1
    body = ''.join(a_frame(r) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))
    exc = r.choice(['ValueError', 'KeyError: 1', 'a.b.C: x: y', ': x', '', 'SyntaxError: invalid syntax', 'E (x)', textgen.word(r), '\nE', '  [Previous line repeated 3 more times]\nE: x']) + r.choice(['\n', '\n', '', '\n\nLocal variables in innermost frame:\nx: 1\n', '\n\nDuring handling of the above exception, another exception occurred:\n\n' + HEADER + '  File "q", line 1, in f\nQ: z\n'])
    return (r.choice(['', 'x\n', 'junk']) + 'invalid syntax (x.py, line 3)\n\n' if syn else head + (HEADER if r.random() < .97 else '')) + body + exc
FULL = '\n' + HEADER + '  File "/home/u/x.py", line 42, in <module>\n    f(x)\n    ~^^^\n  File "<string>", line 7, in g\n  File "/y.py", line 3\n    a b\n      ^\nSyntaxError: invalid\n'
FULL2 = 'invalid syntax (y.py, line 3)\n\n  File "/y.py", line 3\n    a b\n      ^\nSyntaxError: invalid\n'
SHORT = 'Traceback (most recent call last):\n  File "<a>", line 1, in f\n    g\nE: x\n'
def expect(x):
    return st('python', frames=x['frames'], exception_name=x['exception_name'])
def run(ctx):
    r = ctx.rng
    ctx.model('MCPythonText', MC % 2, part='calls up to 2 deep')
    if ctx.thorough:
        ctx.model('MCPythonText', MC.replace('Back Around Marked', 'Back') % 3, part='calls up to 3 deep')
    texts = [textgen.spoilt(r, trace(r), extra=[HEADER[:-1], '  File "z", line 3, in q', '    code', '    ^', 'E: f']) for _ in range(ctx.n(8000, 80000))]
    for f in (FULL, FULL2):
        texts += textgen.prefixes(f) + textgen.without_each_line(f)
    near = textgen.edits(SHORT)
    texts += near
    texts += textgen.large(r, [FULL, FULL2, SHORT], trace, ctx.n(500, 5000)) + ['\n' + HEADER + textgen.numbered('  File "x@@.py", line @@, in f@@\n    g\n', n) + 'E: x\n' for n in textgen.TIMES]
    texts = [t for t in dict.fromkeys(texts) if '\v' not in t]
    textgen.read_texts(ctx, 'python', 'Python traces as text', texts, ctx.spec_eval('PythonText', 'RunPython', [{'text': t} for t in texts]), expect)
