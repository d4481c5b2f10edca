"""C27: quality ratings of gdb and Java stack traces."""
from vlib import gen
from vlib.core import diff
from vlib.gen import mk, NULL
from checks.c06 import gdb_st
from checks.c04 import full_st
MC = 'SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Share Monotone Bounds\n'
def close(q, x):
    return abs(q[0] / q[1] - float(x)) < 2e-6
def eq(e, g, c):
    s, n = c['st'], 1
    for i in range(len(s['threads'])):
        if not close(e['threads'][i], g[n + 1]):
            return 'thread %d: specified %d/%d, code gives %s' % (i, *e['threads'][i], g[n + 1])
        n += 2
    if s['type'] == 'gdb':
        for k in ('simple', 'complex'):
            if not close(e[k], g[n]):
                return '%s: specified %d/%d = %.7g, code gives %s' % (k, *e[k], e[k][0] / e[k][1], g[n])
            n += 1
    return diff(s, g[n], 'input')
def run(ctx):
    r = ctx.rng
    ctx.model('MCQuality', MC % ctx.n(4, 6), part='all short threads of understood and unknown frames')
    sts = []
    for _ in range(ctx.n(1500, 15000)):
        s = gdb_st(r)
        for th in s['threads']:
            th['frames'] += [mk('gdb', function_name=r.choice(['x%d' % k, 'y', '??', '??', NULL, NULL, '???', '?', '?x', '??x', 'x??', '']), source_file=r.choice(['a.c', 'b.c', NULL, '']), signal_handler_called=r.random() < .1, address=r.choice(['0x0', '0x7'])) for k in range(r.randint(0, 9))]
        sts.append(s)
    # every pattern of good and bad frames in one thread
    for n in range(0, 8):
        for bits in range(1 << n):
            fs = [mk('gdb', function_name='f%d' % i, source_file='a.c', address='0x7') if bits >> i & 1 else mk('gdb', function_name='??', address='0x7') for i in range(n)]
            sts.append(gen.st('gdb', threads=[gen.thread('gdb', frames=fs)]))
    for n in (NULL, '??', 'f', '', '?', '???', '?f', '??f', 'f??'):
        for src in (NULL, '', 'a.c', ' ', '??'):
            for sh in (True, False):
                for lib in (NULL, 'l'):
                    f = mk('gdb', function_name=n, source_file=src, signal_handler_called=sh, library_name=lib, address='0x7')
                    sts += [gen.st('gdb', threads=[gen.thread('gdb', frames=[f])]), gen.st('gdb', threads=[gen.thread('gdb', frames=[f, mk('gdb', function_name='z', source_file='z.c')]), gen.thread('gdb')])]
    for _ in range(ctx.n(400, 4000)):
        sts.append(full_st(r, 'java', nframes=6))
    sts += [s for t in ('gdb', 'java') for s in gen.scales(r, t)]
    for s in gen.scales(r, 'gdb')[:2]:
        for th in s['threads']:
            for f in th['frames'][::3]: f['function_name'] = '??'
        sts.append(s)
    exp = ctx.spec_eval('Normalize', 'RunQuality', [dict(st=gen.to_spec(s)) for s in sts])
    cases = []
    for s in sts:
        ops = [dict(op='new_st', h='s', **s)]
        for i in range(len(s['threads'])):
            ops += [dict(op='thread_of', st='s', i=i, h='t'), dict(op='quality', h='t', k='java' if s['type'] == 'java' else 'thread')]
        if s['type'] == 'gdb':
            ops += [dict(op='quality', h='s', k='simple'), dict(op='quality', h='s', k='complex')]
        cases.append({'ops': ops + [dict(op='dump_st', h='s')], 'st': s})
    ctx.conform('ratings', cases, exp, eq)
