"""C01: the four thread similarity measures."""
import itertools
from vlib import gen
from vlib.gen import mk, NULL

MC = '''INIT Init
NEXT Next
CONSTANTS MaxLen = %d
Names = {%s}
INVARIANTS Range01 Symmetric Identity Separation JaccardIsSets DamerauLeqLev Triangle JwRange JwIdentity
'''

def tight(r, t):
    """A frame whose similarity to others depends on exactly the fields that matter for its type."""
    if t == 'gdb':
        return mk(t, function_name=r.choice(['a', 'b', 'c', '??', '??', NULL] if r.random() < .9 else ['???', '?', '', '?a', '??b']), library_name=r.choice([NULL, NULL, 'l1', 'l2']), source_file=r.choice([NULL, 'f.c']),
                  signal_handler_called=r.random() < .1, address=r.choice(gen.VALS64), number=r.choice(['0', '1', '7']))
    if t == 'core':
        return mk(t, function_name=r.choice(['a', 'b', NULL, NULL]), build_id=r.choice([NULL, 'b1', 'b2']), build_id_offset=r.choice(['0x1', '0x2', '0x100000001', '0x8000000000000001']),
                  fingerprint=r.choice([NULL, 'f1', 'f2']), file_name=r.choice([NULL, 'l1', 'l2']), address=r.choice(gen.VALS64))
    if t == 'js':
        return mk(t, function_name=r.choice(['a', 'b', NULL]), file_name=r.choice(['x.js', 'y.js', NULL]), file_line=r.choice(['1', '2', '4294967295']), line_column=r.choice(['1', '2']))
    return gen.frame(r, t, names=('a', 'b'), strs=(NULL, 'x', 'y'))

def close(e, g, tol=2e-5):
    return abs(e[0] / e[1] - float(g)) <= tol * max(1, abs(float(g)))

NAMES = ['Jaro-Winkler', 'Jaccard', 'Levenshtein', 'Damerau-Levenshtein']
def eq(e, g, c):
    # expected: 4 values for (x, y) and 4 for (y, x)
    got = [x for x in g if isinstance(x, str)]
    for i in range(8):
        if not close(e[i // 4][i % 4], got[i]):
            return '%s%s of %s threads: specified %d/%d = %.7g, code gives %s' % (NAMES[i % 4], ' (swapped)' if i > 3 else '', c['ops'][0]['type'], *e[i // 4][i % 4], e[i // 4][i % 4][0] / e[i // 4][i % 4][1], got[i])
    for j, k in ((10, 'x'), (11, 'y')):
        m = None if g[j]['frames'] == c['ops'][0 if k == 'x' else 1]['frames'] else 'thread %s modified by the measure' % k
        if m:
            return m

def run(ctx):
    r = ctx.rng
    ctx.model('MCDistance', MC % (3, '"a","b","c","??"' if ctx.thorough else '"a","b","??"'), part='metric laws over all short threads')
    pairs = []
    alph = [mk('gdb', function_name=n) for n in ('a', 'b', '??')]
    ths = [list(p) for n in range(ctx.n(4, 5)) for p in itertools.product(alph, repeat=n)]
    if ctx.thorough:
        sm = [t for t in ths if len(t) < 4]
        pairs += [('gdb', x, y) for x in sm for y in ths]
    else:
        pairs += [('gdb', x, y) for x in ths for y in ths]
    for _ in range(ctx.n(1400, 20000)):
        t = r.choice(gen.TYPES)
        ab = [tight(r, t) for _ in range(r.randint(1, 4))]
        n1, n2 = (r.randint(0, 12), r.randint(0, 12)) if r.random() < .9 else (r.randint(0, 40), r.randint(0, 40))
        x = [dict(r.choice(ab)) if r.random() < .8 else tight(r, t) for _ in range(n1)]
        if r.random() < .5:
            # a perturbation of x: swaps, deletions, insertions, changes
            y = [dict(f) for f in x]
            for _ in range(r.randint(0, 4)):
                k = r.randint(0, 3); i = r.randint(0, len(y) - 1) if y else 0
                if k == 0 and len(y) > 1:
                    i = r.randint(0, len(y) - 2); y[i], y[i + 1] = y[i + 1], y[i]
                elif k == 1 and y:
                    del y[i]
                elif k == 2:
                    y.insert(i, tight(r, t))
                elif y:
                    y[i] = tight(r, t)
        else:
            y = [dict(r.choice(ab)) if r.random() < .8 else tight(r, t) for _ in range(n2)]
        pairs.append((t, x, y))
    # distinct frames only: rotations and reversals of one sequence
    for t in gen.TYPES:
        for n in range(1, 10):
            base = [gen.named(t, 'f%d' % i) for i in range(n)]
            for rot in range(n):
                pairs.append((t, base, base[rot:] + base[:rot]))
            pairs.append((t, base, base[::-1]))
    # long threads against short ones, and long threads that differ late
    for t, n, m in [('java', 300, 3), ('core', 2, 270), ('gdb', 100, 5), ('ruby', 90, 90)] + ([('python', 700, 4), ('koops', 260, 260)] if ctx.thorough else []):
        x = [gen.named(t, 'f%d' % (i % 97)) for i in range(n)]; y = [gen.named(t, 'f%d' % ((i * 31 + n - 1) % 97)) for i in range(m)]
        if n == m:
            y = [dict(f) for f in x]; y[-2], y[-1] = y[-1], y[-2]; del y[70]
        pairs.append((t, x, y))
    exp = ctx.spec_eval('Distance', 'RunPair', [dict(type=t, x=x, y=y) for t, x, y in pairs] + [dict(type=t, x=y, y=x) for t, x, y in pairs])
    n = len(pairs)
    cases, expected = [], []
    for i, (t, x, y) in enumerate(pairs):
        ops = [dict(op='new_thread', type=t, h='x', frames=x), dict(op='new_thread', type=t, h='y', frames=y)]
        ops += [dict(op='distance', a='x', b='y', k=k) for k in range(4)] + [dict(op='distance', a='y', b='x', k=k) for k in range(4)]
        ops += [dict(op='dump_thread', h='x'), dict(op='dump_thread', h='y')]
        cases.append({'ops': ops}); expected.append([exp[i], exp[n + i]])
    ctx.conform('pairs of threads, all seven types', cases, expected, eq)
    # the documented range of the Jaro-Winkler value, at a thread that repeats a frame and at one-frame threads
    a, b = mk('gdb', function_name='a'), mk('gdb', function_name='b')
    for key, x, y, lo, hi in (('jw-repeated-frames', [a] * 8, [a, b], 0, 1), ('jw-single-frame', [a], [a], 1, 1)):
        g = ctx.drive([{'ops': [dict(op='new_thread', type='gdb', h='x', frames=x), dict(op='new_thread', type='gdb', h='y', frames=y), dict(op='distance', a='x', b='y', k=0)]}])[0]
        if isinstance(g, dict) or not lo <= float(g[2]) <= hi + 1e-6:
            ctx.violate('documented range', {'x': x, 'y': y, 'observed': g}, 'Jaro-Winkler value %s is outside the documented range' % g[2], key=key)
    # different types are always unequal
    cases, expected = [], []
    for a, b in itertools.product(gen.TYPES, repeat=2):
        if a != b:
            fa, fb = [gen.named(a, 'f')], [gen.named(b, 'f')]
            cases.append({'ops': [dict(op='new_thread', type=a, h='x', frames=fa), dict(op='new_thread', type=b, h='y', frames=fb)] +
                          [dict(op='distance', a='x', b='y', k=k) for k in range(4)]})
            expected.append([True, True] + ['1'] * 4)
    ctx.conform('threads of different types', cases, expected, lambda e, g, c: None if e == g else 'distance of threads of different types is %s, not 1' % g[2:])
    ctx.assumptions += ['float results are compared with the exact fraction within 2e-5 relative']
