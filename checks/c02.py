"""C02: a distance matrix computed in parts equals the one computed at once."""
import itertools
from vlib import gen
from checks.c01 import tight, close
MC = '''SPECIFICATION Spec
CONSTANTS MaxN = %d
Extra = 2
INVARIANTS ExactlyOnce Balanced BigIsCreate MergeRight
'''
def matrix(e, g, what):
    if e == '@null' or g == '@null':
        return None if e == g else '%s: specified %s, code gives %s' % (what, 'refusal' if e == '@null' else 'a matrix', 'refusal' if g == '@null' else 'a matrix')
    if g['m'] != len(e):
        return '%s: %d rows, specified %d' % (what, g['m'], len(e))
    for i, row in enumerate(e):
        if len(row) != len(g['d'][i]):
            return '%s: row %d has %d cells, specified %d' % (what, i, len(g['d'][i]), len(row))
        for j, v in enumerate(row):
            if v and not close(v, g['d'][i][j]):   # <<>>: not covered by any merged part
                return '%s: cell (%d,%d) specified %d/%d, code gives %s' % (what, i, i + 1 + j, v[0], v[1], g['d'][i][j])

def eq(e, g, c):
    off = c['skip']
    m = matrix(e['direct'], g[off - 1], 'sequential matrix')
    if m:
        return m
    for s, x, y in zip(c['script'], e['script'], g[off:]):
        x = x['out']
        if s['op'] == 'create':
            want = [dict(p, k=c['k']) for p in x]
            if want != y:
                return 'parts of a %dx%d matrix in %d: specified %s, code gives %s' % (s['m'], s['n'], s['nparts'], want, y)
        elif s['op'] == 'compute':
            if len(x) != len(y) or not all(close(a, b) for a, b in zip(x, y)):
                return 'values of part %d: specified %s, code gives %s' % (s['p'], x, y)
        else:
            m = matrix(x, y, 'merge')
            if m:
                return m
    for i, d in enumerate(g[off + len(c['script']):]):
        if d['frames'] != c['arrays'][0][i]:
            return 'thread %d was modified' % i

def ops(c):
    o = []
    for a, arr in enumerate(c['arrays']):
        for i, fr in enumerate(arr):
            o.append(dict(op='new_thread', type=c['type'], h='t%d.%d' % (a, i), frames=fr))
    ts = lambda a: ['t%d.%d' % (a, i) for i in range(len(c['arrays'][a]))]
    o.append(dict(op='compare', ts=ts(0)[:c['n']], m=c['m'], k=c['k']))
    c['skip'] = len(o)
    for s in c['script']:
        if s['op'] == 'create':
            o.append(dict(op='parts_create', h='p%d' % s['set'], m=s['m'], n=s['n'], k=c['k'], nparts=s['nparts']))
        elif s['op'] == 'compute':
            o.append(dict(op='part_compute', h='p%d.%d' % (s['set'], s['p'] - 1), ts=ts(s['a'] - 1)))
        else:
            o.append(dict(op='parts_merge', parts=['p%d.%d' % (a, b - 1) for a, b in s['parts']]))
    o += [dict(op='dump_thread', h=h) for h in ts(0)]
    c['ops'] = o
    return c

def nparts_of(m, n, k):
    m = min(m, n - 1)
    return min(k, m * (m - 1) // 2 + m * (n - m))

def run(ctx):
    r = ctx.rng
    ctx.model('MCParts', MC % ctx.n(4, 5), part='all splits, all orders of computation, one worker with wrong threads')
    cs = []
    def threads(t, n):
        ab = [tight(r, t) for _ in range(4)]
        return [[dict(r.choice(ab)) for _ in range(r.randint(0, 4))] for _ in range(n)]
    combos = [(m, n, k) for n in range(2, ctx.n(6, 8)) for m in range(1, n + 2) for k in range(1, nparts_of(m, n, 99) + 3)]
    if not ctx.thorough:
        combos += [(m, n, k) for n in (6, 7, 8, 11) for m in (1, 2, n - 2, n - 1) for k in r.sample(range(1, nparts_of(m, n, 99) + 2), 3)]
    else:
        combos += [(m, n, k) for n in (9, 12, 15) for m in (1, 2, n - 2, n - 1) for k in r.sample(range(1, nparts_of(m, n, 99) + 2), 5)]
    for m, n, k in combos:
        t = r.choice(gen.TYPES) if r.random() < .6 else 'gdb'
        A = threads(t, n)
        np_ = nparts_of(m, n, k)
        order = list(range(1, np_ + 1)); r.shuffle(order)
        sc = [dict(op='create', set=1, m=m, n=n, nparts=k)] + [dict(op='compute', set=1, p=p, a=1) for p in order]
        mo = list(range(1, np_ + 1))
        if r.random() < .6:
            r.shuffle(mo)
        sc.append(dict(op='merge', parts=[[1, p] for p in mo]))
        cs.append(dict(type=t, m=m, n=n, k=r.randint(0, 3), arrays=[A], script=sc))
    # workers that did not finish, used another array, or belong to another job
    for it in range(ctx.n(250, 3000)):
        t = r.choice(['gdb', 'java', 'core', 'python', 'koops', 'js'])
        n = r.randint(2, 6); m = r.randint(1, n - 1); A = threads(t, n)
        B = [list(x) for x in A]
        mode = r.choice(['perm', 'longer', 'same-lengths', 'last-only', 'mixed', 'uncomputed', 'other-n', 'other-m', 'extra', 'empty-first'])
        if it % 60 == 7:
            mode = 'much-longer'
        n2, m2 = n, m
        if mode == 'perm':
            r.shuffle(B)
        elif mode == 'much-longer':
            # as long but for a multiple of 256 frames
            t = 'java'; A = threads(t, n); B = [list(x) for x in A]; i = r.randrange(n)
            B[i] = B[i] + [gen.named(t, 'x')] * 256
        elif mode in ('longer', 'last-only'):
            i = n - 1 if mode == 'last-only' else r.randrange(n)
            B[i] = B[i] + [tight(r, t)]
        elif mode in ('same-lengths', 'mixed'):
            B = [[tight(r, t) for _ in x] for x in A]
        elif mode == 'other-n':
            n2 = n + 1; B = B + [[tight(r, t)]]
        elif mode == 'other-m':
            if m == n - 1 or m < 1:
                m2 = max(1, m - 1)
            else:
                m2 = m + 1
        elif mode == 'extra':
            B = B + [[tight(r, t)]]     # threads past n do not belong to the matrix
        elif mode == 'empty-first':
            B[0] = []
        k1 = r.randint(1, 4); k2 = r.randint(1, 4)
        c1, c2 = nparts_of(m, n, k1), nparts_of(m2, n2, k2)
        sc = [dict(op='create', set=1, m=m, n=n, nparts=k1), dict(op='create', set=2, m=m2, n=n2, nparts=k2)]
        comp = [dict(op='compute', set=1, p=p, a=1 if mode in ('other-n', 'other-m', 'uncomputed') else r.choice([1, 2])) for p in range(1, c1 + 1)]
        comp += [dict(op='compute', set=2, p=p, a=2) for p in range(1, c2 + 1)]
        r.shuffle(comp)
        if mode == 'uncomputed':
            del comp[r.randrange(len(comp))]
        sc += comp
        sc.append(dict(op='merge', parts=[[1, p] for p in range(1, c1 + 1)]))
        mixed = [[1, p] for p in range(1, c1 + 1)] + [[2, p] for p in range(1, c2 + 1)]
        r.shuffle(mixed)
        sc.append(dict(op='merge', parts=mixed))
        sc.append(dict(op='merge', parts=[[2, p] for p in range(c2, 0, -1)]))
        cs.append(dict(type=t, m=m, n=n, k=r.randint(0, 3), arrays=[A, B], script=sc))
    exp = ctx.spec_eval('Parts', 'RunScript', cs)
    dire = ctx.spec_eval('Parts', 'RunMatrix', [dict(type=c['type'], m=c['m'], k=c['k'], ts=c['arrays'][0][:c['n']]) for c in cs])
    for c in cs:
        ops(c)
    ctx.conform('splits, computation orders and merges', cs, [dict(script=e, direct=d) for e, d in zip(exp, dire)], eq)
    # matrices too large to list
    big = [(256, 257, 7), (300, 300, 5), (200, 300, 3), (1, 40000, 9), (2, 33000, 65999), (3000, 3000, 2), (100, 101, 5051), (257, 70, 256), (90, 91, 300)]
    exp = ctx.spec_eval('Parts', 'RunCreateBig', [dict(m=m, n=n, nparts=k) for m, n, k in big])
    ctx.conform('parts of large matrices', [{'ops': [dict(op='parts_create', h='p', m=m, n=n, k=1, nparts=k)]} for m, n, k in big], exp,
                lambda e, g, c: None if [dict(p, k=1) for p in e] == g[0] else 'parts of a large matrix %s: first difference %s' % (c['ops'][0], next(((a, b) for a, b in zip([dict(p, k=1) for p in e], g[0]) if a != b), 'in their number')))
    cs = []
    for m, n, k, kind in [(256, 257, 3, 2), (40, 300, 4, 1), (60, 61, 33, 3)]:
        ab = [gen.named('python', x) for x in 'abc']
        cs.append(dict(type='python', m=m, n=n, k=kind, nparts=k, ts=[[dict(r.choice(ab)) for _ in range(r.randint(1, 2))] for _ in range(n)]))
    dire = ctx.spec_eval('Parts', 'RunMatrix', cs)
    for c in cs:
        c['ops'] = [dict(op='new_thread', type='python', h='t%d' % i, frames=f) for i, f in enumerate(c['ts'])]
        ts = ['t%d' % i for i in range(c['n'])]
        c['ops'] += [dict(op='compare', ts=ts, m=c['m'], k=c['k']), dict(op='parts_create', h='p', m=c['m'], n=c['n'], k=c['k'], nparts=c['nparts'])]
        po = list(range(c['nparts'])); r.shuffle(po)
        c['ops'] += [dict(op='part_compute', h='p.%d' % p, ts=ts) for p in po] + [dict(op='parts_merge', parts=['p.%d' % p for p in range(c['nparts'])])]
    ctx.conform('large matrices at once and in parts', cs, dire, lambda e, g, c: matrix(e, g[c['n']], 'large matrix') or matrix(e, g[-1], 'merge of a large matrix'))
    # the matrix itself: symmetric access, copies independent
    mats, exp = [], []
    for _ in range(ctx.n(60, 400)):
        n = r.randint(2, 7); m = r.randint(1, n + 1); mm = min(m, n - 1)
        d = [[r.randint(0, 64) / 64 for _ in range(n - 1 - i)] for i in range(mm)]
        o = [dict(op='dist_new', h='d', m=m, n=n, d=d, rev=r.random() < .5)]
        model = {(i, i + 1 + j): v for i, row in enumerate(d) for j, v in enumerate(row)}
        o.append(dict(op='dist_dup', h='d', to='e')); copy = dict(model)
        want = []
        for _ in range(12):
            i, j = r.choice(list(model)); v = r.randint(0, 64) / 64
            h, mod = r.choice([('d', model), ('e', copy)])
            if r.random() < .5:
                i2, j2 = (j, i) if r.random() < .5 else (i, j)
                o.append(dict(op='dist_set', h=h, i=i2, j=j2, v=v)); want.append(True); mod[i, j] = v
            else:
                i2, j2 = r.choice([(i, j), (j, i), (i, i), (j, j)])
                o.append(dict(op='dist_get', h=h, i=i2, j=j2)); want.append('%.9g' % (0 if i2 == j2 else mod[i, j]))
        mats.append({'ops': o}); exp.append(want)
    ctx.conform('matrix access histories', mats, exp, lambda e, g, c: None if g[2:] == e else 'matrix access: specified %s, code gives %s' % (e, g[2:]))
    ctx.assumptions += ['real distances are compared with the exact fraction within 2e-5', 'cells of a merge that no part covers are not judged']
