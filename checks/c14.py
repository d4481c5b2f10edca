"""C14: a JavaScript stack trace is read as it is written."""
from vlib.gen import st
from vlib import textgen
MC = 'SPECIFICATION Spec\nCONSTANT MaxDepth = %d\nINVARIANTS Back End Cut\n'
def num(r):
    return r.choice(['1', '7', '42', '007', '0', '4294967295', '4294967296', '-1', '+1', ' 1', 'x', '3x', ''] if r.random() < .15 else ['1', '42', '1000', '4294967295'])
def a_frame(r):
    w = textgen.word
    file = r.choice(['/usr/bin/x.js', '/home/user/y.js', '/home/u', 'x:3', '(a)', 'a b', '[stdin]-wrapper', 'node.js', 'file:///x.js', 'a (b:1:2)', ')', '(', w(r, 6), ''])
    place = '%s:%s:%s' % (file, num(r), num(r))
    if r.random() < .08: place = r.choice(['native', '<anonymous>', file, file + ':3', ':1:2', '1:2', 'evalmachine.<anonymous>:1:2'])
    if r.random() < .1:
        i = r.randrange(max(1, len(place)))
        place = place[:i] + r.choice(textgen.FREE) + place[i + r.choice([0, 1]):]
    if r.random() < .05:
        place = r.choice(textgen.FREE).join(place.rsplit(':', r.choice([1, 2])))
    func = r.choice(['f', 'Object.<anonymous>', 'new Foo', 'Object.x [as y]', 'async g', 'Module._compile', w(r, 6), ''])
    return r.choice(['    ', '    ', '    ', '', '  ', '\t']) + r.choice(['at ', 'at ', 'at ', 'at ', 'at  ', 'at']) + (r.choice(['%s (%s)', '%s (%s)', '%s (%s)', '%s  (%s)', '%s x (%s)', '%s(%s)', '%s (%s', '%s %s)']) % (func, place) if r.random() < .6 else place) + r.choice(['', '', '', '', ' ', '   ', '\t'])
def trace(r):
    s = r.choice(['ReferenceError', 'E', 'a b', 'x.js', '', textgen.word(r, 5)]) + r.choice([': ', ': ', ': ', ': ', ': ', ': ', ':', ' ', '']) + r.choice(['msg', '', 'a: b', 'at f (x:1:2)', textgen.word(r)]) + '\n'
    return s + '\n'.join(a_frame(r) for _ in range(r.choice([0, 1, 2, 3, 4]))) + r.choice(['\n', '\n', '\n', '', '\n\n'])
FULL = 'ReferenceError: x is: not defined\n    at Object.<anonymous> (/home/u/a (b).js:1:22)\n    at new F  (x:1:3:4)  \nat  node.js:357:29 \n'
SHORT = 'E: x\n at f (a:1:2)\nat b:3:4'
def expect(x):
    return st('js', frames=x['frames'], exception_name=x['exception_name'], platform='1')
def run(ctx):
    r = ctx.rng
    ctx.model('MCJsText', MC % 2, part='calls up to 2 deep')
    texts = [textgen.spoilt(r, trace(r), extra=['    at f (x:1:2)', '    at y:3:4', 'E: f']) for _ in range(ctx.n(8000, 80000))]
    texts += textgen.prefixes(FULL) + textgen.without_each_line(FULL)
    near = textgen.edits(SHORT)
    texts += near
    texts += textgen.large(r, [FULL, SHORT], trace, ctx.n(500, 5000)) + ['E: x\n' + textgen.numbered('    at f@@ (x@@:@@:@@)\n', n) for n in textgen.TIMES]
    texts = [t for t in dict.fromkeys(texts) if '\v' not in t]
    textgen.read_texts(ctx, 'js', 'JavaScript traces as text', texts, ctx.spec_eval('JsText', 'RunJs', [{'text': t} for t in texts]), expect)
