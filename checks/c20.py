"""C20: comparison of frames, threads and stack traces."""
from vlib import gen
from vlib.gen import TYPES, MULTI, DEFAULTS, STR, U64, U32, BOOL, NULL
MC = '''SPECIFICATION Spec
CONSTANT Type = "%s"
INVARIANTS ZeroIffIdentity Antisymmetric Transitive SameReflexiveEnough
'''
STRV = [NULL, '', 'a', 'ab', 'b', 'A', 'é']

def variants(r, t, f, field):
    v = STRV if field in STR[t] else gen.VALS64 if field in U64[t] else gen.VALS32 if field in U32[t] else [False, True]
    out = [dict(f, **{field: x}) for x in v]
    return out if len(out) <= 7 else [dict(f, **{field: f[field]})] + r.sample(out, 7)

def run(ctx):
    r = ctx.rng
    for t in TYPES:
        if t != 'koops':
            ctx.model('MCCompare', MC % t, part='order laws on all small %s frames' % t)
    groups = []
    def rnd(t):
        return gen.frame(r, t, names=('a', 'b', '??') if r.random() < .8 else ('', '?', '???', '??x'), strs=(NULL, 'x', 'y'), u64=gen.VALS64, u32=gen.VALS32)
    for t in TYPES:
        kinds = ['frame', 'distance'] + (['number'] if t == 'gdb' else [])
        for rep in range(ctx.n(4, 40)):
            for field in DEFAULTS[t]:
                base = rnd(t) if rep else gen.named(t, 'a')
                if rep % 2 and 'signal_handler_called' in base:
                    base['signal_handler_called'] = False
                if rep % 2 and 'is_exception' in base:
                    base['is_exception'] = False
                xs = variants(r, t, base, field)
                for k in kinds:
                    groups.append(dict(kind=k, type=t, xs=xs))
        for rep in range(ctx.n(40, 500)):      # a few fields vary together
            base = rnd(t); fl = r.sample(sorted(DEFAULTS[t]), 3)
            if rep % 3:
                for b in ('signal_handler_called', 'is_exception'):
                    if b in base:
                        base[b] = False
            xs = []
            for _ in range(7):
                y = rnd(t); xs.append(dict(base, **{k: y[k] for k in fl}))
            groups.append(dict(kind=r.choice(kinds), type=t, xs=xs))
    for t in TYPES:
        for rep in range(ctx.n(100, 1000)):
            al = [rnd(t) for _ in range(3)]
            al.append(dict(al[0], **{(f := r.choice(sorted(DEFAULTS[t]))): rnd(t)[f]}))
            hdr = lambda: {} if t not in ('gdb', 'java') else {'number': r.choice(gen.VALS32[:3] + gen.VALS32[-3:]) if r.random() < .3 else '1', 'tid': r.choice(['1', '2'])} if t == 'gdb' else {'name': r.choice([NULL, 'a', 'b']) if r.random() < .3 else 'a'}
            def thr():
                fs = [dict(r.choice(al)) for _ in range(r.randint(0, 3))]
                return gen.thread(t, frames=fs, **hdr())
            base = thr(); xs = [base]
            for _ in range(5):
                x = thr()
                if r.random() < .6:
                    fs = [dict(f) for f in base['frames']]; m = r.randint(0, 2)
                    if m == 0:
                        fs.append(dict(r.choice(al)))
                    elif m == 1 and fs:
                        fs.pop()
                    elif fs:
                        fs[-1] = dict(r.choice(al))
                    x = dict(base, frames=fs)
                    if r.random() < .3:
                        x.update(hdr())
                xs.append(x)
            groups.append(dict(kind='thread', type=t, xs=xs))
            if t == 'java':
                groups.append(dict(kind='st', type=t, xs=[gen.st(t, threads=r.sample(xs, r.randint(0, 3))) for _ in range(5)]))
        # long threads that differ late or not at all, and long texts that differ in the last character
        big = gen.scales(r, t)[0]; big = big['threads'][0]['frames'] if t in gen.MULTI else big['frames']
        hdr = {'number': '1', 'tid': '1'} if t == 'gdb' else {'name': 'a'} if t == 'java' else {}
        late = dict(big[-1], **{gen.NAMEFIELD.get(t, 'function_name'): 'other'})
        groups.append(dict(kind='thread', type=t, xs=[gen.thread(t, frames=f, **hdr) for f in (big, big[:-1], big[:-1] + [late], big[:-2] + [big[-1]], big + [late])]))
        for f in STR[t]:
            base = gen.named(t, 'f')
            groups += [dict(kind=k, type=t, xs=[dict(base, **{f: v}) for v in ('x' * 300, 'x' * 299 + 'y', 'x' * 299, 'x' * 301, 'x' * 5000)]) for k in kinds]
    cases = []
    for c in groups:
        n = len(c['xs']); ops = []
        for i, x in enumerate(c['xs']):
            if c['kind'] == 'thread':
                ops.append(dict(op='new_thread', type=c['type'], h='x%d' % i, **x))
            elif c['kind'] == 'st':
                ops.append(dict(op='new_st', h='x%d' % i, **x))
            else:
                ops.append(dict(op='new_frame', type=c['type'], h='x%d' % i, **x))
        dup = {'thread': 'dup_thread', 'st': 'dup_st'}.get(c['kind'], 'dup_frame')
        ops += [dict(op=dup, h='x%d' % i, to='y%d' % i) for i in range(n)]
        o = {'thread': 'cmp_thread', 'st': 'cmp_java_st'}.get(c['kind'], 'cmp_frame')
        ops += [dict(op=o, a='x%d' % i, b='x%d' % j, k=c['kind']) for i in range(n) for j in range(n)]
        ops += [dict(op=o, a='x%d' % i, b='y%d' % i, k=c['kind']) for i in range(n)]
        cases.append({'ops': ops})
    got = ctx.drive(cases)
    ask = []
    for c, g in zip(groups, got):
        n = len(c['xs'])
        if isinstance(g, list):
            m = g[2 * n:2 * n + n * n]
            ask.append(dict(c, got=[m[i * n:i * n + n] for i in range(n)]))
        else:
            ask.append(dict(c, got=[[0] * n] * n))
    exp = ctx.spec_eval('Compare', 'RunOrder', ask)
    def eq(e, g, c):
        x = c['grp']; n = len(x['xs']); m = [g[2 * n + i * n:2 * n + i * n + n] for i in range(n)]
        if e:
            p, q, s = (k - 1 for k in e)
            return '%s comparison of %s: cmp(x,y)=%s cmp(y,x)=%s, cmp(y,z)=%s, cmp(x,z)=%s contradicts the specification for x=%s y=%s z=%s' % (
                x['kind'], x['type'], m[p][q], m[q][p], m[q][s], m[p][s], x['xs'][p], x['xs'][q], x['xs'][s])
        for i, v in enumerate(g[2 * n + n * n:]):
            if (v == 0) != (m[i][i] == 0):
                return 'a copy of %s does not compare equal to the original (%s)' % (x['xs'][i], v)
    for c, x in zip(cases, groups):
        c['grp'] = x
    ctx.conform('order laws on results of the code, all types', cases, exp, eq)
    ctx.assumptions += ['the direction in which individual fields are ordered is not judged']
