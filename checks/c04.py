"""C04: editing histories on stack traces, threads and frames; copies are independent."""
from vlib import gen
from vlib.core import diff
from vlib.gen import MULTI, TYPES
MC = '''SPECIFICATION Spec
CONSTANTS Depth = %d
MaxFrames = 4
MaxThreads = 3
INVARIANTS Frame CopyEqual Bounds RemoveOne AboveKeepsTail
'''
def full_frame(r, t, nul=0.15):
    S = ('aa', 'b b', 'c/c', 'd"d', 'éé', '')
    return gen.frame(r, t, names=('f', 'g', 'h', '??'), strs=S + (gen.NULL,) if r.random() < .6 else S, u64=gen.VALS64, u32=gen.VALS32, pnull=nul)

def full_st(r, t, nthreads=None, nframes=4):
    a = {}
    for k, v in gen.STDEF[t].items():
        if isinstance(v, bool):
            a[k] = r.random() < .5
        elif v == gen.NULL and k not in ('modules', 'crash'):
            a[k] = r.choice(['x', 'yy', gen.NULL, ''])
    if t == 'core':
        a['signal'] = r.choice(['0', '6', '11', '65535'])
    if t == 'koops':
        a['modules'] = r.choice([gen.NULL, [], ['ext4'], ['a', 'b', 'c']])
    if t == 'gdb':
        a['crash_tid'] = r.choice(['1', '2', gen.U32MAX])
        a['crash'] = gen.NULL if r.random() < .4 else full_frame(r, t)
        a['libs'] = [dict(**{'from': r.choice(gen.VALS64), 'to': r.choice(gen.VALS64), 'symbols': r.randint(0, 2), 'soname': r.choice(['/lib/a.so', gen.NULL, 'b'])}) for _ in range(r.randint(0, 3))]
    if t == 'js':
        a['platform'] = r.choice(['0', '1'])
    frs = lambda: [full_frame(r, t) for _ in range(r.randint(0, nframes))]
    if t in MULTI:
        n = r.randint(0, 3) if nthreads is None else nthreads
        ths = []
        for _ in range(n):
            th = {'frames': frs()}
            if t == 'gdb':
                th.update(number=r.choice(gen.VALS32), tid=r.choice(gen.VALS32))
            if t == 'java':
                th.update(name=r.choice([gen.NULL, 'main', 'T-1']))
            ths.append(th)
        if t == 'core':
            a['crash_thread'] = r.randint(-1, n - 1) if n else -1
        return gen.st(t, threads=ths, **a)
    return gen.st(t, frames=frs(), **a)

class World:
    """Mirrors only the shape of the heap (for choosing commands that make sense)."""
    def __init__(self, r, t, heap):
        self.r, self.t = r, t
        self.kind = {h: 'st' for h in heap}
        self.shape = {h: ([len(x['frames']) for x in o['threads']] if t in MULTI else [len(o['frames'])]) for h, o in heap.items()}
        self.next = 0
    def command(self):
        r, t = self.r, self.t
        for _ in range(50):
            h = r.choice(list(self.shape)); sh = self.shape[h]
            if not sh:
                k = r.choice(['dup', 'threadCount', 'free', 'addInto'])
            else:
                k = r.choice(['append', 'append', 'remove', 'remove', 'above', 'above', 'removeForeign', 'aboveForeign', 'below', 'limit', 'except', 'set', 'set', 'dup', 'dup',
                              'dupThread', 'dupFrames', 'addThread', 'free', 'count', 'threadCount', 'prepend'])
            i = r.randint(1, len(sh)) if sh else 0
            new = 'n%d' % self.next
            if k == 'append' or (k == 'prepend' and t == 'koops'):
                sh[i - 1] += 1
                return dict(op=k, h=h, i=i, frame=full_frame(r, t))
            if k in ('remove', 'above', 'set') and sh[i - 1]:
                j = r.choice([1, sh[i - 1], r.randint(1, sh[i - 1])])
                if k == 'remove':
                    sh[i - 1] -= 1
                elif k == 'above':
                    sh[i - 1] -= j - 1
                c = dict(op=k, h=h, i=i, j=j)
                if k == 'set':
                    f = full_frame(r, t); ks = r.sample(sorted(f), r.randint(1, len(f)))
                    c['frame'] = {x: f[x] for x in ks}
                elif t in ('gdb', 'java') or (t == 'koops' and k == 'remove'):
                    c['via'] = r.choice(['', t])
                return c
            if k in ('removeForeign', 'aboveForeign'):
                o = [(h2, i2, j2) for h2, s2 in self.shape.items() for i2, n2 in enumerate(s2, 1) for j2 in range(1, n2 + 1) if (h2, i2) != (h, i)]
                if o:
                    h2, i2, j2 = r.choice(o)
                    return dict(op=k, h=h, i=i, h2=h2, i2=i2, j2=j2, via=r.choice(['', t]) if t in ('gdb', 'java') else '')
            if k == 'below' and t in ('gdb', 'java'):
                n = r.randint(0, 5); sh[i - 1] = min(sh[i - 1], n)
                return dict(op=k, h=h, i=i, n=n)
            if k == 'limit' and t == 'gdb' and self.kind[h] == 'st':
                n = r.randint(1, 4); self.shape[h] = [min(n, x) for x in sh]
                return dict(op=k, h=h, n=n)
            if k == 'except' and t == 'gdb' and self.kind[h] == 'st':
                self.shape[h] = [sh[i - 1]]
                return dict(op=k, h=h, i=i)
            if k == 'dup' and self.kind[h] == 'st' and len(self.shape) < 5:
                self.next += 1; self.kind[new] = 'st'; self.shape[new] = list(sh)
                return dict(op=k, h=h, to=new)
            if k == 'dupThread' and len(self.shape) < 5:
                self.next += 1; self.kind[new] = 'thread' if t in MULTI else 'st'; self.shape[new] = [sh[i - 1]]
                return dict(op=k, h=h, i=i, to=new)
            if k == 'dupFrames' and sh[i - 1]:
                return dict(op=k, h=h, i=i, j=r.randint(1, sh[i - 1]), sib=r.random() < .5)
            if k == 'addThread' and t in MULTI and self.kind[h] == 'st':
                to = r.choice([x for x in self.shape if self.kind[x] == 'st'])
                sib = r.random() < .4
                self.shape[to] = self.shape[to] + (sh[i - 1:] if sib else [sh[i - 1]])
                return dict(op=k, h=h, i=i, to=to, sib=sib)
            if k == 'free' and len(self.shape) > 1:
                del self.shape[h], self.kind[h]
                return dict(op=k, h=h)
            if k == 'count':
                return dict(op=k, h=h, i=i)
            if k == 'threadCount' and self.kind[h] == 'st':
                return dict(op=k, h=h)
        return dict(op='threadCount', h=[x for x in self.shape if self.kind[x] == 'st'][0]) if any(v == 'st' for v in self.kind.values()) else None

def translate(t, heap, cmds):
    """Script for the driver; returns ops and, per command, (index of its result or None, {handle: index of dump})."""
    ops, marks = [], []
    live = {}
    for h, o in heap.items():
        ops.append(dict(op='new_st', h=h, **o)); live[h] = 'st'
    def th(h, i, name='_t'):
        if t in MULTI and live[h] == 'st':
            ops.append(dict(op='thread_of', st=h, i=i - 1, h=name)); return name
        return h
    for c in cmds:
        k = c['op']; res = None
        if k in ('append', 'prepend'):
            x = th(c['h'], c['i']); ops.append(dict(op='append_frame', h=x, frame=c['frame'], pre=k == 'prepend'))
        elif k in ('remove', 'above'):
            x = th(c['h'], c['i']); ops.append(dict(op='remove_frame' if k == 'remove' else 'remove_above', h=x, i=c['j'] - 1, via=c.get('via', ''))); res = len(ops) - 1
        elif k in ('removeForeign', 'aboveForeign'):
            y = th(c['h2'], c['i2'], '_u'); ops.append(dict(op='frame_of', t=y, i=c['j2'] - 1, h='_f'))
            x = th(c['h'], c['i']); ops.append(dict(op='remove_frame' if k == 'removeForeign' else 'remove_above', h=x, f='_f', via=c.get('via', ''))); res = len(ops) - 1
        elif k == 'below':
            x = th(c['h'], c['i']); ops.append(dict(op='below_n', h=x, n=c['n']))
        elif k == 'limit':
            ops.append(dict(op='limit_depth', h=c['h'], n=c['n']))
        elif k == 'except':
            ops.append(dict(op='except_one', h=c['h'], i=c['i'] - 1))
        elif k == 'set':
            x = th(c['h'], c['i']); ops.append(dict(op='set_field', t=x, i=c['j'] - 1, frame=c['frame']))
        elif k == 'dup':
            ops.append(dict(op='dup_st', h=c['h'], to=c['to'])); live[c['to']] = 'st'
        elif k == 'dupThread':
            x = th(c['h'], c['i']); ops.append(dict(op='dup_thread', h=x, to=c['to'])); live[c['to']] = 'thread' if t in MULTI else 'st'
        elif k == 'dupFrames':
            x = th(c['h'], c['i']); ops.append(dict(op='frame_of', t=x, i=c['j'] - 1, h='_f'))
            ops.append(dict(op='dup_frame', h='_f', to='_d', sib=c['sib'])); res = len(ops) - 1
        elif k == 'addThread':
            x = th(c['h'], c['i']); ops.append(dict(op='dup_threads' if c['sib'] else 'dup_thread', h=x, to='_n'))
            ops.append(dict(op='append_thread', h=c['to'], t='_n'))
        elif k == 'free':
            ops.append(dict(op='free_st' if live[c['h']] == 'st' else 'free_thread', h=c['h'])); del live[c['h']]
        elif k == 'count':
            x = th(c['h'], c['i']); ops.append(dict(op='frame_count', h=x)); res = len(ops) - 1
        elif k == 'threadCount':
            ops.append(dict(op='thread_count', h=c['h'])); res = len(ops) - 1
        d = {}
        for h, kind in live.items():
            ops.append(dict(op='dump_st' if kind == 'st' else 'dump_thread', h=h)); d[h] = len(ops) - 1
        marks.append((res, d))
    for h, kind in live.items():
        ops.append(dict(op='free_st' if kind == 'st' else 'free_thread', h=h))
    return ops, marks

def eq(e, g, c):
    for n, (cmd, s, (res, dumps)) in enumerate(zip(c['cmds'], e, c['marks'])):
        if res is not None:
            want = s['out']; got = g[res]
            want = {'true': True, 'false': False}.get(want, want) if isinstance(want, str) else want
            m = diff(want, got, 'result')
            if m:
                return 'command %d (%s): %s' % (n + 1, cmd['op'], m)
        for h, k in dumps.items():
            m = diff(s['heap'][h], g[k], h)
            if m:
                return 'after command %d (%s on %s): %s' % (n + 1, cmd['op'], cmd['h'], m)

def run(ctx):
    r = ctx.rng
    ctx.model('MCLists', MC % ctx.n(3, 4), part='all editing histories on small stack traces')
    cases = []
    for n in range(ctx.n(700, 8000)):
        t = TYPES[n % 7]
        heap = {'A': full_st(r, t)}
        if r.random() < .4:
            heap['B'] = full_st(r, t)
        w = World(r, t, heap)
        cmds = []
        for _ in range(r.randint(3, ctx.n(12, 25))):
            c = w.command()
            if c is None:
                break
            cmds.append(c)
        cases.append(dict(type=t, heap=heap, cmds=cmds))
    # every single-step edit of every position, each followed by a copy and an edit of the copy
    for t in TYPES:
        for nf in range(1, 5):
            for k in ('remove', 'above'):
                for j in range(1, nf + 1):
                    for via in {'', t if t in ('gdb', 'java') else ''}:
                        fs = [full_frame(r, t) for _ in range(nf)]
                        st = gen.st(t, threads=[gen.thread(t, frames=fs), gen.thread(t, frames=fs[:1])]) if t in MULTI else gen.st(t, frames=fs)
                        cases.append(dict(type=t, heap={'A': st}, cmds=[dict(op='dup', h='A', to='B'), dict(op=k, h='A', i=1, j=j, via=via), dict(op='append', h='A', i=1, frame=full_frame(r, t)),
                                                                        dict(op='dup', h='A', to='C'), dict(op='free', h='A'), dict(op=k, h='B', i=1, j=j, via=via)]))
    # stack traces much larger than usual
    for t in TYPES:
        for s in gen.scales(r, t):
            s.update({k: v for k, v in (('number', '7'), ('tid', '8')) if k in s})
            n = len(s['threads'][0]['frames'] if t in MULTI else s['frames'])
            cmds = [dict(op='dup', h='A', to='B'), dict(op='count', h='B', i=1), dict(op='remove', h='A', i=1, j=n, via=''), dict(op='append', h='A', i=1, frame=full_frame(r, t)), dict(op='dup', h='A', to='C'), dict(op='free', h='A'),
                    dict(op='above', h='B', i=1, j=n // 2 + 1, via=''), dict(op='free', h='C')]
            cases.append(dict(type=t, heap={'A': s}, cmds=cmds))
    exp = ctx.spec_eval('Lists', 'RunLists', [dict(heap=c['heap'], cmds=c['cmds']) for c in cases])
    for c in cases:
        c['ops'], c['marks'] = translate(c['type'], c['heap'], c['cmds'])
    ctx.conform('editing histories, all seven types', cases, exp, eq)
    ctx.assumptions += ['the conformance driver is built with AddressSanitizer: use after free, double free and out-of-bounds access count as disagreement']
