"""C10: a kernel oops is read as it is written."""
from vlib.gen import NULL, st, TAINTS
from vlib import textgen
MC = 'SPECIFICATION Spec\nCONSTANT MaxLines = %d\nINVARIANTS Back Stamped End\n'
w = textgen.word
def addr(r):
    h = r.choice(['c01', 'ffffffff81000000', 'FFFFFFFF81000001', '0', '0000000000000001', 'ffffffffffffffff'] + (['10000000000000000', '', 'xyz'] if r.random() < .1 else []))
    return r.choice(['[<%s>]', '[<%s>]', '[<%s>]', '[%s]'] + (['[<%s]', '<%s>', '[<%s> ]', '[ <%s>]'] if r.random() < .1 else [])) % h
def func(r):
    name = r.choice(['do_it', 'f.part.8', '__schedule', '.x', 'a<b', w(r, 5)]) if r.random() < .5 else 'g'
    s = '%s+%s/%s' % (name, r.choice(['0x0', '0x5', '0xffffffffffffffff', '0xABC'] + (['', '5', '0x', '0x10000000000000000'] if r.random() < .1 else [])), r.choice(['0x10', '0x0', '0xffffffffffffffff'] + (['', 'x', '0x1 '] if r.random() < .1 else [])))
    if r.random() < .4: s += r.choice([' ', ' ', '  ', '', '\t']) + '[' + r.choice(['wl', 'a_b', 'x(O)', w(r, 4)]) + ']'
    if r.random() < .06: s = r.choice(['0xc01', 'name', '', '(0xc02)', '0x1x'])
    return s
def a_frame(r):
    b = lambda: r.choice([' ', ' ', '  ', '', '\t'])
    q = r.choice(['', '', '? '])
    x = r.random()
    if x < .5: s = addr(r) + b() + q + func(r)
    elif x < .6: s = addr(r) + b() + q + '(' + func(r) + ')'
    elif x < .7: s = addr(r) + b() + addr(r) + b() + r.choice(['.', '']) + func(r) + b() + r.choice(['', '', '(unreliable)'])
    elif x < .8: s = addr(r) + b() + q + r.choice(['(%s)', '(%s) ', '%s ']) % r.choice([func(r), 'h']) + b() + 'from' + b() + addr(r) + b() + r.choice(['(%s)', '%s']) % func(r) + r.choice(['', '', ' [m]'])
    elif x < .9: s = '(' + addr(r) + b() + q + func(r) + b() + r.choice([')', ')', '']) + b()
    elif x < .95: s = q + func(r)
    else: s = r.choice(['0xc01', '(0xc01)', addr(r)])
    return s + r.choice(['', '', '', '', ' ', '\t', ' x', ' (unreliable)', ')', ' [m]'] if r.random() < .3 else [''])
STAMP = ['', '[    1.234567] ', '[12345.678]', '  [0.1]  ', '[ 1.2 ]', '[1]', '[.1]', '[1.2]\t']
def trace(r):
    stamp = r.choice(STAMP) if r.random() < .5 else ''
    ls = [r.choice(['BUG: unable to handle', 'WARNING: at fs/x.c:1 f+0x1/0x2()', '------------[ cut here ]------------', '', w(r)])]
    for _ in range(r.randint(0, 14)):
        x = r.random()
        if x < .5: ls.append(' ' * r.randint(0, 2) + r.choice(['', '', '', '', '<IRQ> ', '<NMI>', ' <EOI> ', '<<EOE>> ', '<<EOE>> <IRQ> ', '<EOI', '<#DF>', '<EO>', '<IRQ']) * (r.random() < .5) + a_frame(r))
        elif x < .6: ls.append(r.choice([' <IRQ>', ' <EOI>', '<<EOE>>', '<NMI>  ', ' <IRQ', '<>', '<EOEI>']))
        elif x < .7: ls.append(r.choice(['RIP: 0010:' + addr(r) + '  ' + a_frame(r), 'EIP: ' + addr(r) + ' ' + r.choice(['', '? ']) + func(r) + ' SS:ESP 0068:f180', 'RIP: ' + a_frame(r), 'EIP:' + a_frame(r), 'RIP: 0010:f+0x1/0x2', 'EIP: 0060:[<c01>] EFLAGS: 1', ' RIP  [<c01>] f+0x1/0x2']))
        elif x < .8:
            m = lambda: ' '.join(r.choice(['nf_nat', 'x(O)', 'wl(PO)', 'abc', w(r, 4)]) for _ in range(r.randint(0, 4)))
            ls.append('Modules linked in:' + r.choice([' ', '', '  ']) + m() + r.choice(['', '', ' ', ' [last unloaded: q]', '[last unloaded: q]']))
            if r.random() < .4: ls += [r.choice(['', ' ', '\t']) + m() + r.choice(['', ' ']) for _ in range(r.randint(0, 2))]
            ls.append(r.choice(['Pid: 7, comm: x Tainted: G    B D      3.1', 'CPU: 1 PID: 2', 'CPU 1', 'CPU x', 'irq event stamp: 7', 'irq event stamp x', 'CR2: 00ff', 'CR2: x', '', ' Pid: 7', 'Pid:x', 'CPU', 'Call Trace:']))
        elif x < .85: ls.append('comm: x ' + r.choice(['Tainted: ', 'Tainted:', 'Not tainted ', 'tainted: ']) + ''.join(r.choice(list('PFSRMBUDAWCIOELKGXTZ') + [' '] * 12) for _ in range(r.randint(0, 14))) + r.choice(['', ' 3.17.2', 'w', '(x)']))
        elif x < .87: ls.append('Last Breaking-Event-Address:' + r.choice(['', '', ' ', ' x']))
        else: ls.append(r.choice(['Call Trace:', '', 'Code: 00 <8b> 45', 'RSP: 0018:ffff', w(r, 20), 'Stack:', ' ffff8800 c01']))
    return '\n'.join([ls[0]] + [(stamp if r.random() < .95 else r.choice(STAMP)) + l for l in ls[1:]]) + r.choice(['\n', '\n', '\n', ''])
FULL = ('BUG: unable to handle\n<4>[ 1.2] x\nModules linked in: a b_\nc d(O) [last unloaded: e]\nPid: 1, comm: f Tainted: P   F  O 3.1\nRIP: 0010:[<c01>]  [<c01>] g+0x1/0x2\n[<c00>] after+0x1/0x2 [m]\nCall Trace:\n <IRQ> [<c02>] ? h+0x3/0x4 [i]\n'
        ' [<c03>] (j+0x1/0x2) from [<c04>] (k+0x1/0x2)\n <EOI>  [<c05>] l+0x1/0x2\n[c06] [c07] .m+0x1/0x2 (unreliable)\n[<c08>] (n) from [<c09>] (o+0x1/0x2)\n ([<c10>] p+0x1/0x2)\nLast Breaking-Event-Address:\n [<c11>] q+0x1/0x2\n')
SHORT = ['x\n[<c1>] f+0x1/0x2 [m]\n', 'x\n[<c1>] (f) from [<c2>] (g+0x1/0x2)\n', 'x\n[c1] [c2] .f+0x1/0x2 (unreliable)', 'x\nModules linked in: a\nb\nCPU: 1', 'x\nRIP: 0:[<c>] [<c>] f+0x1/0x2\n[<d>] g+0x1/0x2', 'x\n[1.2] <IRQ> [<d>] g+0x1/0x2', 'Tainted: PG W', 'x\nModules linked in: a\nCR2: ff\n', '[<c1>] (0xc2)\n', '[<c1>] (f+0x1/0x2 [m])\n', 'x\nLast Breaking-Event-Address:\n [<c11>] q+0x1/0x2\n', 'x\nModules linked in: a\nirq event stamp: 7\n']
def expect(text):
    def f(x):
        return st('koops', frames=x['frames'], raw_oops=text, reason=x['reason'], modules=x['modules'][0] if x['modules'] else NULL, **{'taint_' + k: True for k in x['taints']})
    return f
def run(ctx):
    r = ctx.rng
    ctx.model('MCKoopsText', MC % ctx.n(3, 4), part='oopses of up to %d lines' % ctx.n(3, 4))
    texts = [textgen.spoilt(r, trace(r), extra=['[<c0>] z+0x1/0x2', '<IRQ>', '<EOI>', 'CPU: 1', 'Modules linked in: z']) for _ in range(ctx.n(8000, 80000))]
    texts += textgen.prefixes(FULL) + textgen.without_each_line(FULL)
    for s in SHORT:
        texts += textgen.edits(s)
    texts += textgen.large(r, [FULL] + SHORT, trace, ctx.n(500, 5000)) + ['x\n' + textgen.numbered(' [<c0@@>] f@@+0x1/0x2 [m@@]\n', n) for n in textgen.TIMES] + ['x\nModules linked in: ' + textgen.numbered('m@@ ', n) + '[last unloaded: y]\n[<c01>] f+0x1/0x2\n' for n in textgen.TIMES] + ['x\nModules linked in: ' + textgen.numbered('m@@ a\n', n) + 'Pid: 1\n[<c01>] f+0x1/0x2\n' for n in textgen.TIMES]
    texts = [t for t in dict.fromkeys(texts) if '\v' not in t]
    exp = ctx.spec_eval('KoopsText', 'RunKoops', [{'text': t} for t in texts])
    textgen.read_texts(ctx, 'koops', 'kernel oopses as text', texts, [dict(x, raw=t) for t, x in zip(texts, exp)], lambda x: expect(x['raw'])(x))
