"""C06: the crashed thread and frame."""
from vlib import gen
from vlib.core import diff
from vlib.gen import mk, NULL, U32MAX
from checks.normgen import fr, pool, T
def gdb_st(r, n=None):
    n = r.randint(0, 4) if n is None else n
    tids = r.choice([['1', '2', '3', U32MAX, U32MAX]] * 3 + [['0', '2147483647', '2147483648', '4294967294', U32MAX]])
    tops = r.choice([['f'], ['f', 'g'], ['f', 'f', 'raise', '__GI_f']])
    ths = []
    for i in range(n):
        fs = [pool(r, 'gdb') for _ in range(r.randint(0, 4))]
        if r.random() < .8:
            fs.insert(0, fr('gdb', r.choice(tops * 4 + ['??', NULL, '']), r.choice(['a.c', NULL])))
        if r.random() < .25:
            fs.insert(r.randint(0, len(fs)), fr('gdb', 'abort', 'abort.c'))
        if ths and r.random() < .25:
            fs = [dict(f) for f in r.choice(ths)['frames']]
            if fs and r.random() < .5:
                fs[-1] = dict(fs[-1], source_line=r.choice(['1', '7', U32MAX]), number=r.choice(['1', '2', U32MAX]))
        ths.append(gen.thread('gdb', frames=fs, number=str(n - i), tid=r.choice(tids)))
    crash = NULL if r.random() < .15 else fr('gdb', r.choice(tops + [NULL, '??', '?', '??x', '']), r.choice(['a.c', NULL]))
    return gen.st('gdb', threads=ths, crash=crash, crash_tid=r.choice([U32MAX, U32MAX, U32MAX, tids[0], tids[1], tids[2], '9']))
def core_st(r):
    n = r.randint(0, 4)
    ths = [gen.thread('core', frames=[pool(r, 'core') for _ in range(r.randint(0, 5))]) for _ in range(n)]
    return gen.st('core', threads=ths, crash_thread=r.choice([-1, -1, r.randint(0, n - 1)]) if n else -1)
def eq(e, g, c):
    n = c['n']
    if e['crash'] != g[1]:
        return 'crash thread: specified %s, code gives %s' % (e['crash'], g[1])
    m = diff(c['st'], g[2], 'input') or diff(e['exits'], g[3:3 + len(e['exits'])], 'exit frame')
    if m:
        return m
    k = 3 + len(e['exits'])
    if c['st']['type'] == 'gdb':
        m = diff(e['frame'][0] if e['frame'] else NULL, g[k], 'crash frame') or diff(c['st'], g[k + 1], 'input after asking for the crash frame')
        if m:
            return m
        k += 2
    return diff(gen.from_spec(e['norm']), g[k + 1], 'normalized') or (None if e['crash_after'] == g[k + 2] else 'crash thread after normalization: specified %s, code gives %s' % (e['crash_after'], g[k + 2]))
def run(ctx):
    r = ctx.rng
    ctx.model('MCCrash', 'SPECIFICATION Spec\nCONSTANTS MaxThreads = %d\nINVARIANTS Kept Deterministic OrderFree\n' % ctx.n(2, 3), part='all small stack traces with exit frames, equal tops and thread ids')
    sts = [gdb_st(r) for _ in range(ctx.n(2500, 30000))] + [core_st(r) for _ in range(ctx.n(1000, 10000))]
    # one exit-like frame at each position of one of two threads, for each known exit function
    for t, tab in (('gdb', 'GdbExit'), ('core', 'CoreExit')):
        for n, ps in T[tab]:
            for src in list(dict.fromkeys([('x/' + p) for p in ps] + ['zzz', NULL, 'libpthread.so.0', 'libc.so.6', 'libc-2.17.so', 'libcrypt.so', n.strip('_') + '.c', 'raise.c', 'exit.c', 'abort.c'])):
                a = [fr(t, 'f', 'f.c'), fr(t, n, src), fr(t, 'g', 'g.c')]
                b = [fr(t, 'f', 'f.c'), fr(t, 'g', 'g.c')]
                for ths in ((a, b), (b, a), (b, b), (a, a)):
                    kw = dict(crash=fr('gdb', 'f', NULL)) if t == 'gdb' else {}
                    sts.append(gen.st(t, threads=[gen.thread(t, frames=list(x), **({'number': '1', 'tid': str(i)} if t == 'gdb' else {})) for i, x in enumerate(ths)], **kw))
    for t in ('java', 'python', 'koops', 'ruby', 'js'):
        for _ in range(15):
            fs = lambda: gen.frames(r, t, r.randint(0, 4))
            sts.append(gen.st(t, threads=[gen.thread(t, frames=fs()) for _ in range(r.randint(0, 3))]) if t == 'java' else gen.st(t, frames=fs()))
    sts += [s for t in ('gdb', 'core', 'java') for s in gen.scales(r, t)]
    for t in ('gdb', 'core'):
        # the only exit frame below many frames, or in a late thread
        for s in gen.scales(r, t)[:2]:
            n, p = T['GdbExit' if t == 'gdb' else 'CoreExit'][0]
            s['threads'][-1]['frames'].append(fr(t, n, 'x/' + p[0] if p else NULL)); s['threads'][-1]['frames'].append(fr(t, 'end', 'e.c'))
            if t == 'gdb':
                s.update(crash_tid=U32MAX, crash=fr('gdb', 'top', NULL))
                for th in s['threads']: th['frames'].insert(0, fr('gdb', 'top', NULL))
            else:
                s['crash_thread'] = -1
            sts.append(s)
    exp = ctx.spec_eval('Normalize', 'RunCrash', [dict(st=gen.to_spec(s)) for s in sts])
    cases = []
    for s, e in zip(sts, exp):
        ops = [dict(op='new_st', h='s', **s), dict(op='crash_thread', h='s'), dict(op='dump_st', h='s')]
        ops += [dict(op='exit_frame_of', st='s', i=i) for i in range(len(e['exits']))]
        if s['type'] == 'gdb':
            ops += [dict(op='crash_frame', h='s'), dict(op='dump_st', h='s')]
        ops += [dict(op='normalize_st', h='s'), dict(op='dump_st', h='s'), dict(op='crash_thread', h='s')]
        cases.append({'ops': ops, 'st': s, 'n': len(s.get('threads', []))})
    ctx.conform('stack traces', cases, exp, eq)
