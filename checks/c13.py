"""C13: a Ruby stack trace is read as it is written."""
from vlib.gen import st
from vlib import textgen
MC = 'SPECIFICATION Spec\nCONSTANT MaxDepth = %d\nINVARIANTS Back End More Cut\n'
def a_frame(r):
    w = textgen.word
    file = r.choice(['/usr/bin/x.rb', '/home/user/y.rb', '/home/u', 'x:3', '(eval)', 'a b', '-e', w(r, 6).replace('`', ''), ''])
    func = r.choice(['f', '<main>', '<top (required)>', '<class:A>', '<module:B>', '<=>', '<<', '<', '>', '>=', '==', '[]', 'a?', 'b!', 'c=', 'block', 'rescue', '<x', 'x>', '<x>y', w(r, 6), ''])
    line = r.choice(['1', '7', '7', '42', '007', '0', '4294967295', '4294967296', '-1', '+1', ' 1', 'x', '3x', ''] if r.random() < .2 else ['1', '42', '1000'])
    pre = 'rescue in ' * r.choice([0, 0, 0, 0, 1, 2, 3, 10]) + r.choice(['', '', '', 'block in ', 'block (2 levels) in ', 'block (4294967295 levels) in ', 'block (1 levels) in '] + (['block (4294967296 levels) in ', 'block ( levels) in ', 'block (x levels) in ', 'block (2 levels in ', 'block (0 levels) in ', 'block in block in ', 'block in rescue in ', 'ensure in '] if r.random() < .2 else []))
    return '%s:%s:in `%s%s\'' % (file, line, pre, func)
def trace(r):
    msg = r.choice(['bad', '', 'two\nlines', 'tab\there', 'a (b) c', 'x\n\tfro', "`'", 'it\'s: `x', textgen.word(r, 12), ')', '('])
    cls = r.choice(['RuntimeError', 'A::B', '', ')', '(', 'a b', textgen.word(r, 6)]) if r.random() < .4 else 'E'
    s = a_frame(r) + r.choice([': ', ': ', ': ', ': ', ': ', ':', '', ' ']) + msg + ' (' + cls + ')' + r.choice(['\n', '\n', '\n', '\n', '\n', '', 'x\n', '\nmore\n', '\n\n'])
    return s + ''.join('\tfrom ' + a_frame(r) + '\n' for _ in range(r.choice([0, 1, 2, 3, 4]))) + ('' if r.random() < .9 else r.choice(['x', '\n', '\tfrom', '\tfrom x', ' ']))
FULL = "/home/u/x.rb:13:in `rescue in block (2 levels) in f': two\nlines\tof (text) (A::B)\n\tfrom /usr/y:z.rb:1:in `<top (required)>'\n\tfrom y.rb:2:in `block in <=>'\n\tfrom -e:1:in `<main>'\n"
SHORT = "a:1:in `block in f': m (E)\n\tfrom b:2:in `<g>'\n"
def expect(x):
    return st('ruby', frames=x['frames'], exception_name=x['exception_name'])
def run(ctx):
    r = ctx.rng
    ctx.model('MCRubyText', MC % 2, part='calls up to 2 deep')
    texts = [textgen.spoilt(r, trace(r), extra=["\tfrom x:3:in `g'", 'more (X)', '(Y)']) for _ in range(ctx.n(8000, 80000))]
    texts += textgen.prefixes(FULL) + textgen.without_each_line(FULL)
    near = textgen.edits(SHORT)
    texts += near
    texts += textgen.large(r, [FULL, SHORT], trace, ctx.n(500, 5000)) + ["x:1:in `f': m (E)\n" + textgen.numbered("\tfrom x@@:@@:in `g@@'\n", n) for n in textgen.TIMES]
    texts = [t for t in dict.fromkeys(texts) if '\v' not in t]
    textgen.read_texts(ctx, 'ruby', 'Ruby traces as text', texts, ctx.spec_eval('RubyText', 'RunRuby', [{'text': t} for t in texts]), expect)
