"""C05: normalization of gdb, core and kernel oops threads."""
from vlib import gen
from vlib.core import diff
from vlib.gen import mk, NULL
from checks.normgen import T, fr, entries, pool
MC = '''SPECIFICATION Spec
CONSTANTS Type = "%s"
MaxLen = %d
INVARIANTS NothingUseless NoRepeats Shrinks Subsequence
'''
def run(ctx):
    r = ctx.rng
    for t in ('gdb', 'core'):
        ctx.model('MCNormalize', MC % (t, ctx.n(3, 4)), part='laws of normalization on all short %s threads' % t)
    seqs = []
    for t in ('gdb', 'core'):
        A, B, Z = fr(t, 'above', 'a.c'), fr(t, 'below', 'b.c'), fr(t, 'base', 'z.c')
        # every entry of every table, with every file it names, a file it does not name, no file, and an altered name
        for n, s in entries(t):
            for nm, src in ((n, s), (n, '/nonesuch'), (n, NULL), (n, ''), (n + 'x', s), (n[:-1] or 'q', s), ('__GI_' + n, s)):
                seqs.append((t, [A, fr(t, nm, src), B, Z]))
        # the files named for other functions
        for n in dict.fromkeys(n for n, s in entries(t)):
            for src in ('/lib64/libc.so.6', '/usr/lib/libc-2.17.so', 'libcrypt.so', 'malloc.c', 'exit.c', 'abort.c', 'raise.c', 'libpthread.so.0', 'libglib-2.0.so', 'gmain.c', n + '.c', n.lstrip('_') + '.c'):
                seqs.append((t, [A, fr(t, n, src), B]))
        for f in T['ArchFuncs']:
            for s in T['ArchSuffixes'] + ['_sse3', '_avx', '']:
                for src in ('x/%s.S' % f, 'a/sysdeps/b.c', 'a/sysdeps', 'libc.so.6', 'other.c', NULL):
                    seqs.append((t, [A, fr(t, '__' + f + s, src), B]))
                seqs.append((t, [fr(t, f, f + '.c'), fr(t, '__' + f + s, f + '.c'), B]))
        for n in ('IA__gdk_x', 'IA__g_x', 'IA__gtk_x', 'IA__gx', 'IA__', 'IA__gdk', '__GI_x', '__GI_', '__G', 'IA__g___GI_y', '__GI_IA__g_x', '__GI___GI_x'):
            for src in ('a.c', '', NULL):
                seqs.append((t, [A, fr(t, n, src), B]))
        # null calls at either end, recursion
        for a in ('0x0', '0x1', '0xffffffffffffffff'):
            for n in ('??', NULL, 'f'):
                x = fr(t, n, NULL, a)
                for s in ([x], [x, B], [B, x], [x, B, x], [x, x], [x, x, x], [B, x, Z], [x, x, B, x, x]):
                    seqs.append((t, s))
        for p in ('aab', 'aba', 'aaa', 'abba', 'aabbaa', 'a?a', '??a', 'a??'):
            seqs.append((t, [fr(t, '??' if c == '?' else c, 'f%d.c' % i) for i, c in enumerate(p)]))
            seqs.append((t, [fr(t, NULL if c == '?' else c, 'f%d.c' % i) for i, c in enumerate(p)]))
        for p in ('/home/user/a.c', '/home/user', '/home/', '/home', '/home//a', '/root/home/user/x', '/home/u/v/w', '', 'x/home/user/y', '/home/user/'):
            seqs.append((t, [fr(t, 'f', p), B]))
        for _ in range(ctx.n(2500, 40000)):
            seqs.append((t, [pool(r, t) for _ in range(r.randint(0, 9))]))
    kn = T['KoopsNoise']
    for n in kn + ['kthreads', 'a', 'zzz', '', 'do_softir', 'warn_slowpath']:
        for nm in (n, n + '.isra.3', n + '.', n + 'x', n + '.part.1.x'):
            for mod in (NULL, 'ext4', ''):
                seqs.append(('koops', [mk('koops', function_name='top', reliable=True), mk('koops', function_name=nm, module_name=mod), mk('koops', function_name='end')]))
    seqs += [('koops', [mk('koops', function_name=NULL)]), ('koops', [mk('koops', function_name=NULL, module_name='m'), mk('koops', function_name='.x')])]
    for _ in range(ctx.n(600, 8000)):
        seqs.append(('koops', [mk('koops', function_name=r.choice(kn + ['f', 'g', NULL]) if r.random() < .1 else r.choice(kn + ['f', 'g']) + r.choice(['', '', '.x', '.isra.0.b']), address=r.choice(gen.VALS64), from_function_name=r.choice([NULL, 'z.q']),
                                   module_name=r.choice([NULL, NULL, 'm']), reliable=r.random() < .5) for _ in range(r.randint(0, 8))]))
    for t in ('python', 'java', 'ruby', 'js'):
        for _ in range(20):
            seqs.append((t, gen.frames(r, t, r.randint(0, 5), names=('abort', 'kthread', '__GI_x', 'a'))))
    for t in ('gdb', 'core'):
        A, B = fr(t, 'above', 'a.c'), fr(t, 'below', 'b.c')
        # recursion goes by the function alone, wherever it is
        for n in ('f', 'g', '??'):
            for k in ('library_name', 'source_file', 'function_type', 'address', 'number', 'build_id', 'file_name', 'fingerprint', 'build_id_offset'):
                if k in gen.DEFAULTS[t]:
                    v = ('0x11', '0x12') if k in gen.U64[t] else ('1', '2') if k in gen.U32[t] else ('u', 'v')
                    x = fr(t, n, 'a.c', '0x5')
                    seqs += [(t, [A, dict(x, **{k: a}), dict(x, **{k: b}), dict(x, **{k: c}), B]) for a in v for b in v + ((NULL,) if k in gen.STR[t] else ()) for c in v]
        # many frames: repetitions, noise and the exit frame far down
        for s in gen.scales(r, t):
            seqs.append((t, s['threads'][0]['frames']))
        big = [fr(t, 'f%d' % i, 'f.c') for i in range(300)]
        (n1, s1), (n2, s2) = entries(t)[0], entries(t)[-1]
        seqs += [(t, [dict(f) for f in big for _ in range(2)]), (t, [fr(t, 'rec', 'r.c', '0x%x' % i) for i in range(300)] + [B]), (t, big[:280] + [fr(t, n1, s1)] + big[280:]), (t, big[:280] + [fr(t, n2, s2)] + big[280:]),
                 (t, [x for f in big[:150] for x in (f, fr(t, n2, s2))])]
    exp = ctx.spec_eval('Normalize', 'RunNorm', [dict(type=t, frames=f) for t, f in seqs])
    cases = [{'ops': [dict(op='new_thread', type=t, h='t', frames=f), dict(op='normalize', h='t'), dict(op='dump_thread', h='t')]} for t, f in seqs]
    ctx.conform('threads', cases, exp, lambda e, g, c: diff(e, g[2]['frames'], 'frames'))
    prs = []
    G = lambda: mk('gdb', function_name=r.choice(['??', '??', 'a', 'a', 'b', NULL]), library_name=r.choice([NULL, NULL, 'l', 'm']), number=str(r.randint(0, 9)))
    for _ in range(ctx.n(1500, 20000)):
        a = [G() for _ in range(r.randint(0, 6))]
        b = [dict(f) for f in a] if r.random() < .5 else [G() for _ in range(r.randint(0, 6))]
        for _ in range(r.randint(0, 2)):
            if b:
                b[r.randrange(len(b))] = G()
        prs.append((a, b))
    # blocks with an unknown function inside, in another order or with others in between
    for _ in range(ctx.n(300, 4000)):
        bl = [[mk('gdb', function_name='p%d' % i), mk('gdb', function_name='??', library_name=r.choice([NULL, 'l'])), mk('gdb', function_name='n%d' % i)] for i in range(r.randint(2, 4))]
        a = [dict(f) for x in bl for f in x]
        for _ in range(r.randint(0, 2)): r.shuffle(bl)
        if r.random() < .3: bl.insert(r.randint(0, len(bl)), bl[0])
        if r.random() < .3: del bl[r.randrange(len(bl))]
        prs.append((a, [dict(f) for x in bl for f in x]))
    for n in (9, 10, 11, 12, 40, 101):
        a = [dict(f) for i in range(n) for f in (mk('gdb', function_name='p%d' % i), mk('gdb', function_name='??'))]
        prs += [(a, [dict(f) for f in a]), (a + [mk('gdb', function_name='e')], [dict(f) for i in reversed(range(n)) for f in (mk('gdb', function_name='p%d' % i), mk('gdb', function_name='??'), mk('gdb', function_name='p%d' % (i + 1)))])]
    exp = ctx.spec_eval('Normalize', 'RunPaired', [dict(a=a, b=b) for a, b in prs])
    cases = [{'ops': [dict(op='new_thread', type='gdb', h='a', frames=a), dict(op='new_thread', type='gdb', h='b', frames=b), dict(op='pair_unknown', a='a', b='b'),
                      dict(op='dump_thread', h='a'), dict(op='dump_thread', h='b')]} for a, b in prs]
    ctx.conform('pairs of unknown functions', cases, exp, lambda e, g, c: diff(e, [g[3]['frames'], g[4]['frames']], 'frames'))
    ctx.assumptions += ['the tables of known functions in specs/NormTables.tla are the reference']
