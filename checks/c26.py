"""C26: libraries and modules: listings, what covers an address, library names, optimized threads."""
from vlib import gen
from vlib.core import diff
from vlib.gen import NULL, U32MAX
from checks.normgen import fr, pool
SON = ['/lib64/libc.so.6', '/usr/lib/libgtk-x11-2.0.so.0.1.2', 'plain', '/a/b.so', '', '/opt/x/', '/lib/foo.so.so.2', 'libz.so.1', '/lib.so/thing', '.so', '/a.so/libb.so.1', '/x.so.d/y', '/usr/lib/libc-2.1.so', 'libso.1']
ADDR = ['0x0', '0x1', '0xfff', '0x1000', '0x1001', '0x1fff', '0x2000', '0x2001', '0x2fff', '0x3000', '0xffffffff', '0x100000000', '0x100001000', '0x100001fff', '0x7fffffffffffffff', '0x8000000000000000', '0xfffffffffffffffe', '0xffffffffffffffff']
def libs(r, soname=True):
    out = []
    for _ in range(r.randint(0, 5)):
        a, b = r.choice(ADDR), r.choice(ADDR)
        if int(a, 16) > int(b, 16) and r.random() < .8:
            a, b = b, a
        out.append({'from': a, 'to': b, 'symbols': r.randint(0, 2), 'soname': r.choice(SON + ([NULL] if soname else []))})
    return out
def lib_text(r, lines=(0, 1, 2, 3, 4, 5)):
    t = r.choice(['', '', 'From here\n', 'Thread 1\n', 'From To\n', ' From  To  Syms Read Shared Object Library\n'])
    t += r.choice(['From                To                  Syms Read   Shared Object Library\n'] * 6 + ['From To Syms Read Shared Object Library\n', 'From  To  Syms Read  Shared Object Library', 'From  Syms Read  Shared Object Library\n', 'x'])
    for _ in range(r.choice(lines)):
        k = r.random()
        h = lambda: r.choice(['0x', '0x', '0x', '']) + r.choice(['%x', '%016x', '%X']) % r.choice([0, 1, 0x1000, 0x7f0012345678, 2 ** 63, 2 ** 64 - 1, r.getrandbits(64)])
        adr = r.choice(['  ', ' ', '   ']).join([h(), h()]) if k < .75 else ' ' * 20 if k < .92 else h() if k < .95 else r.choice(['???', 'zz', ''])
        sym = r.choice(['Yes (*)', 'Yes', 'No', 'Yes', 'Yes'] * 3 + ['Maybe', ''])
        t += adr + r.choice(['  ', ' ', '   ']) + sym + r.choice(['     ', ' ', '\t']) + r.choice(['/lib64/libc.so.6', '/a b/c.so', 'x', '/usr/lib64/é.so', '/l.so (deleted)']) + r.choice(['\n'] * 12 + ['', '\n\n', '\r\n'])
    return t + r.choice(['', '', '(*): Shared library is missing debugging information.\n', '$1 = 0x0\n', '\n'])
def unstrip_text(r, lines=(0, 1, 2, 3, 4, 5)):
    t = ''
    for _ in range(r.choice(lines)):
        k = r.random()
        if k < .8:
            st = r.choice([0, 0x1000, 0x2000, 0x3000, 0x400000, 2 ** 32, 2 ** 63, 2 ** 64 - 0x1000])
            t += '0x%x+0x%x' % (st, r.choice([0, 1, 0x1000, 0x2000, 2 ** 32])) + r.choice([' ', '  ', '\t'])
            t += r.choice(['ab12' * 10, 'AB', '-', '0']) + r.choice(['', '@0x1004', '@0x1004', '(x)']) + ' '
            t += r.choice(['/usr/bin/x', '-', '.', '/lib64/libc.so.6']) + ' ' + r.choice(['-', '/usr/lib/debug/x.debug', '.']) + r.choice([' ', ' ', '  ']) + r.choice(['x', 'libc.so.6', '[vdso: 3]', '[exe]', 'linux-vdso.so.1'])
        else:
            t += r.choice(['', 'garbage', '0x10', '0x10+', '+0x10 ab', '0x10-0x20 ab c d e', '10+0x20 ab c d e', '0x10+20 ab c d e', '0xg+0x1 a b c d', ' 0x10+0x10 ab c d e', '0x10+0x10', '0x10+0x10 ab', '0x10+0x10 ab c'])
        t += r.choice(['\n'] * 15 + ['', '\n\n', ' \n', ' trailing words\n'])
    return t
def run(ctx):
    r = ctx.rng
    ctx.model('MCLibs', 'SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS ReadBack First Half\n' % ctx.n(2, 3), part='all short lists of touching and overlapping ranges')
    sts = []
    for _ in range(ctx.n(900, 10000)):
        fs = lambda: [dict(pool(r, 'gdb'), address=r.choice(ADDR), library_name=r.choice([NULL, NULL, 'old'])) if r.random() < .8 else fr('gdb', r.choice(['main', NULL, 'f']), None or NULL, r.choice(ADDR)) for _ in range(r.randint(0, 6))]
        sts.append(gen.st('gdb', threads=[gen.thread('gdb', frames=fs(), number=str(i)) for i in range(r.randint(0, 2))], libs=libs(r)))
    # every pair of one range and one address
    for a in ADDR:
        for b in ADDR:
            sts.append(gen.st('gdb', threads=[gen.thread('gdb', frames=[fr('gdb', 'f', 'f.c', x) for x in ADDR])], libs=[{'from': a, 'to': b, 'symbols': 0, 'soname': '/lib/a.so.1'}]))
    for so in SON:
        sts.append(gen.st('gdb', threads=[gen.thread('gdb', frames=[fr('gdb', 'f', 'f.c', '0x1000')])], libs=[{'from': '0x1000', 'to': '0x1000', 'symbols': 0, 'soname': so}]))
    mx = [r.choice([0, 0, 1, 2, 3]) for _ in sts]
    exp = ctx.spec_eval('Normalize', 'RunLibs', [dict(st=gen.to_spec(s), addrs=ADDR, max=m) for s, m in zip(sts, mx)])
    cases = []
    for s, m in zip(sts, mx):
        ops = [dict(op='new_st', h='s', **s)] + [dict(op='find_lib', h='s', addr=a) for a in ADDR] + [dict(op='lib_count', h='s')]
        for i in range(len(s['threads'])):
            ops += [dict(op='thread_of', st='s', i=i, h='t'), dict(op='optimized', h='t', st='s', n=m)]
        ops += [dict(op='dump_st', h='s'), dict(op='set_libnames', h='s'), dict(op='dump_st', h='s')]
        cases.append({'ops': ops, 'st': s})
    def eq(e, g, c):
        k = 1 + len(ADDR)
        m = diff(e['found'], g[1:k], 'library of address') or diff(len(c['st']['libs']), g[k], 'libraries')
        if m:
            return m
        for i in range(len(c['st']['threads'])):
            m = diff(e['opt'][i], g[k + 2 + 2 * i]['frames'], 'optimized thread %d' % i)
            if m:
                return m
        return diff(c['st'], g[-3], 'input') or diff(gen.from_spec(e['named']), g[-1], 'named')
    ctx.conform('address lookup, library names, optimized threads', cases, exp, eq)
    txt = [lib_text(r) for _ in range(ctx.n(900, 10000))] + [lib_text(r, [n]) for n in (17, 40, 65, 130) for _ in range(4)]
    exp = ctx.spec_eval('Libs', 'RunParseLibs', [dict(text=t) for t in txt])
    ctx.conform('library listings', [{'ops': [dict(op='parse_libs', text=t)]} for t in txt], exp, lambda e, g, c: diff(e, g[0], 'libs'))
    txt = [unstrip_text(r) for _ in range(ctx.n(900, 10000))] + [unstrip_text(r, [n]) for n in (17, 40, 65, 130) for _ in range(4)]
    ads = ['0x0', '0x1', '0xfff', '0x1000', '0x1001', '0x1fff', '0x2000', '0x2fff', '0x3000', '0x400000', '0x100000000', '0x1000003ff', '0x8000000000000000', '0x8000000000000fff', '0xfffffffffffff000', '0xffffffffffffffff']
    exp = ctx.spec_eval('Libs', 'RunUnstrip', [dict(text=t, addrs=ads) for t in txt])
    ctx.conform('module listings', [{'ops': [dict(op='unstrip', text=t, addrs=ads)]} for t in txt], exp, lambda e, g, c: diff(e, g[0], 'modules'))
