"""C03: clustering of objects by distance, and cutting of the dendrogram."""
import itertools
import struct
from vlib import gen
MC = '''SPECIFICATION Spec
CONSTANTS MaxN = %d
MaxD = %d
INVARIANTS Partition NeverStuck MeanLinkage Monotone CutIsHistory
'''
def matrices(ctx):
    r = ctx.rng
    mats = []
    # exhaustive: all small matrices, ties everywhere
    for n, top in ((2, 3), (3, 3)) if not ctx.thorough else ((2, 3), (3, 4), (4, 2)):
        for m in range(1, n):
            cells = sum(n - 1 - i for i in range(m))
            for v in itertools.product(range(top + 1), repeat=cells):
                it = iter(v)
                mats.append((m, n, [[next(it) for _ in range(n - 1 - i)] for i in range(m)], 16, 1000))
    for _ in range(ctx.n(1500, 12000)):
        n = r.randint(3, 6); m = r.choice([n - 1, n - 1, n, r.randint(1, n - 1)])
        hi = r.choice([1, 2, 4, 16])
        mats.append((m, n, [[r.randint(0, hi) for _ in range(n - 1 - i)] for i in range(min(m, n - 1))], 16, 1000))
    for _ in range(ctx.n(400, 3000)):     # larger ones, ties rare
        n = r.randint(7, 14)
        mats.append((n - 1, n, [[r.randint(0, 1000) for _ in range(n - 1 - i)] for i in range(n - 1)], 1024, 1000))
    for _ in range(ctx.n(120, 1000)):     # threads in groups: near blocks
        n = r.randint(5, 10); g = [r.randint(0, 3) for _ in range(n)]
        mats.append((n - 1, n, [[r.randint(0, 100) if g[i] == g[j] else r.randint(600, 1000) for j in range(i + 1, n)] for i in range(n - 1)], 1024, 1000))
    return mats
def run(ctx):
    r = ctx.rng
    ctx.model('MCCluster', MC % (4, 2), part='all behaviours on all matrices with distances 0..2')
    if ctx.thorough:
        ctx.model('MCCluster', MC % (5, 1), part='five objects, distances 0..1')
    mats = matrices(ctx)
    cases = []
    for m, n, b, div, scale in mats:
        ops = [dict(op='dist_new', h='d', m=m, n=n, d=[[v / div for v in row] for row in b]), dict(op='cluster', h='d', to='g'), dict(op='dist_dump', h='d')]
        cases.append({'ops': ops})
    got = ctx.drive(cases)
    ask, idx = [], []
    for i, ((m, n, b, div, scale), g) in enumerate(zip(mats, got)):
        if isinstance(g, list):
            o = g[1]['order']
            ask.append(dict(m=m, n=n, base=b, scale=scale, order=o, levels=[max(-10**7, min(10**7, round(float(x) * div * scale))) if float(x) == float(x) else -10**6 for x in g[1]['levels']]))
            idx.append(i)
    ans = dict(zip(idx, ctx.spec_eval('Cluster', 'RunExplains', ask)))
    def eq(e, g, c):
        if not e:
            return 'no behaviour of the clustering specification ends in order %s with levels %s' % (g[1]['order'], g[1]['levels'])
        if g[0] != g[2]:
            return 'the distance matrix was modified by clustering'
        if g[1]['size'] != len(g[1]['order']):
            return 'wrong size %d' % g[1]['size']
    ctx.conform('dendrograms validated as traces', cases, [ans.get(i, False) for i in range(len(cases))], eq)
    # cuts, of these dendrograms and of arbitrary ones
    cuts = []
    for _ in range(ctx.n(1200, 10000)):
        n = r.randint(2, 7); o = list(range(n)); r.shuffle(o)
        cuts.append(dict(order=o, levels=[r.randint(0, 4) for _ in range(n - 1)], level=r.randint(-1, 5), min=r.choice([0, 1, 1, 2, 3, n, n + 1])))
    for n in (2, 3, 4):
        for lv in itertools.product(range(3), repeat=n - 1):
            for level in (0, 1, 2):
                for mn in range(1, n + 1):
                    cuts.append(dict(order=list(range(n)), levels=list(lv), level=level, min=mn))
    exp = ctx.spec_eval('Cluster', 'RunCut', cuts)
    # numbers far apart, and neighbouring ones (next to each other as 32-bit floats)
    f32 = lambda k: struct.unpack('f', struct.pack('I', k))[0]
    scale = [lambda x: x / 4, lambda x: f32(0x3f000000 + x), lambda x: f32(0x3f800000 + x), lambda x: f32(10 + x), lambda x: x * 65536.0]
    cc = []
    for i, c in enumerate(cuts):
        s = scale[i % 10] if i % 10 < len(scale) else scale[0]
        cc.append({'ops': [dict(op='dendro_new', h='g', order=c['order'], levels=[s(x) for x in c['levels']]), dict(op='cut', h='g', level=s(c['level']), min=c['min'])]})
    ctx.conform('cuts', cc, exp, lambda e, g, c: None if sorted(map(tuple, e)) == sorted(map(tuple, g[1])) else 'cut: specified clusters %s, code gives %s' % (e, g[1]))
    # end to end: cluster, then cut at, just below and above each level, must agree with the code's own dendrogram
    ask, cc = [], []
    for i in r.sample(idx, min(len(idx), ctx.n(300, 2000))):
        m, n, b, div, scale = mats[i]
        lv = got[i][1]['levels']; uniq = sorted(set(map(float, lv)))
        at = r.choice(uniq)
        for level in (at, at - 1 / 4096, at + 1 / 4096):
            mn = r.choice([1, 1, 2, 3])
            ask.append(dict(order=got[i][1]['order'], levels=[0 if float(x) <= level else 2 for x in lv], level=1, min=mn))
            cc.append({'ops': cases[i]['ops'][:2] + [dict(op='cut', h='g', level=level, min=mn)]})
    exp = ctx.spec_eval('Cluster', 'RunCut', ask)
    ctx.conform('cluster then cut', cc, exp, lambda e, g, c: None if sorted(map(tuple, e)) == sorted(map(tuple, g[2])) else 'cut: specified clusters %s, code gives %s' % (e, g[2]))
    ctx.assumptions += ['input distances are multiples of 1/16 or 1/1024; levels are compared within 0.002 of a unit']
