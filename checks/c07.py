"""C07: duplication hash of a thread."""
import hashlib
from vlib import gen
from vlib.core import diff
from vlib.gen import mk, NULL, TYPES
from checks.normgen import pool, T
from checks.c04 import full_frame
MC = 'SPECIFICATION Spec\nCONSTANTS Type = "%s"\nMaxLen = %d\nINVARIANTS Extends Unlimited Deep NormFirst Tells\n'
def thread(r, t, n):
    fs = []
    for _ in range(n):
        if t in ('gdb', 'core') and r.random() < .5:
            f = pool(r, t)
        else:
            f = full_frame(r, t, .3)
        if t == 'core' and r.random() < .5:
            for k in ('build_id', 'function_name', 'fingerprint'):
                if r.random() < .6:
                    f[k] = NULL
        if t == 'koops' and r.random() < .4:
            f['function_name'] = r.choice(T['KoopsNoise'] + ['a.isra.1', 'b.part', '.x'])
        fs.append(f)
    return fs
def sha(s):
    return hashlib.sha1(s.encode('utf-8', 'surrogateescape')).hexdigest()
def eq(e, g, c):
    if e != g[1]:
        return 'text: specified %r, code gives %r' % (e, g[1])
    h = NULL if e == NULL else sha(e)
    for k in (2, 3):
        if g[k] != h:
            return 'hash: specified %s, code gives %s' % (h, g[k])
    return diff(c['fs'], g[4]['frames'], 'input thread')
def run(ctx):
    r = ctx.rng
    for t in ('koops', 'gdb', 'core', 'java', 'python'):
        ctx.model('MCRender', MC % (t, ctx.n(3, 5)), part='laws of hash texts on all short %s threads' % t)
    ins, cases = [], []
    def add(t, fs, n, prefix, nonorm, compat):
        ins.append(dict(type=t, frames=fs, n=n, prefix=prefix, nonorm=nonorm, compat=compat))
        fl = (4 if nonorm else 0) | (8 if compat else 0)
        p = {} if prefix == NULL else {'prefix': prefix}
        d = lambda f: dict(op='duphash', h='t', n=n, flags=f, **p)
        cases.append({'ops': [dict(op='new_thread', type=t, h='t', frames=fs), d(fl | 2), d(fl | 1), d(fl), dict(op='dump_thread', h='t')], 'fs': fs})
    for t in TYPES:
        # each frame alone, each string field absent in turn and in pairs
        S = gen.STR[t]
        base = mk(t, **{f: 'S' + f for f in S})
        for a in S + [None]:
            for b in S + [None]:
                add(t, [dict(base, **{k: NULL for k in (a, b) if k}), base], 0, NULL, True, False)
        for f in gen.BOOL[t] + gen.U64[t] + gen.U32[t]:
            for v in ([True, False] if f in gen.BOOL[t] else gen.VALS64 if f in gen.U64[t] else gen.VALS32):
                for nulls in ([], S):
                    add(t, [dict(base, **{k: NULL for k in nulls}, **{f: v})], 0, NULL, True, False)
        for k in range(ctx.n(320, 4000)):
            add(t, thread(r, t, r.randint(0, 8)), r.choice([0, 0, 1, 1, 2, 3, 3, 5, 8, 20]), r.choice([NULL, NULL, '', 'pkg', 'a b\n', 'Thread\n']),
                r.random() < .4, r.random() < (.5 if t == 'koops' else .1))
    for t in TYPES:
        for s in gen.scales(r, t):
            for n, nonorm in ((0, True), (0, False), (200, True)):
                fs = s['threads'][0]['frames'] if t in gen.MULTI else s['frames']
                if len(fs) > 9 or n == 0:
                    add(t, fs, n, NULL, nonorm, t == 'koops')
        for l in (255, 256, 300, 5000):
            add(t, [gen.named(t, 'f'), gen.named(t, 'g')], 0, 'p' * l, True, False)
    exp = ctx.spec_eval('Render', 'RunDup', ins)
    ctx.conform('threads', cases, exp, eq)
    # one thread hashed repeatedly with every limit: the hash is a function of the thread, and threads are left alone
    seqs = []
    for t in TYPES:
        for _ in range(ctx.n(8, 60)):
            seqs.append((t, thread(r, t, r.randint(2, 6))))
    ins2 = [dict(type=t, frames=fs, n=n, prefix=NULL, nonorm=nn, compat=False) for t, fs in seqs for nn in (False, True, False) for n in (0, 1, 2, 3, 1, 0)]
    ex = ctx.spec_eval('Render', 'RunDup', ins2)
    ex = [ex[i * 18:(i + 1) * 18] for i in range(len(seqs))]
    cs = [{'ops': [dict(op='new_thread', type=t, h='t', frames=fs)] + [dict(op='duphash', h='t', n=n, flags=2 | (4 if nn else 0)) for nn in (False, True, False) for n in (0, 1, 2, 3, 1, 0)]} for t, fs in seqs]
    ctx.conform('histories of hashing', cs, ex, lambda e, g, c: diff(e, g[1:], 'hashes'))
    ctx.assumptions.append('SHA-1 of the specified text is computed with Python hashlib')
