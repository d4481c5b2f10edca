"""C23: core stack traces made of core dumps."""
import os, shutil, struct
from vlib import elf, gen, jdoc, tlc
from vlib.core import diff
from vlib.gen import NULL, U32MAX
MANGLED = {'_ZN3foo3barEi': 'foo::bar(int)', '_ZN1a1bEv': 'a::b()', '_Z1fIiEvT_': 'void f<int>(int)', '_ZNKSs4sizeEv': 'std::string::size() const', '_ZdlPv': 'operator delete(void*)'}
NAMES = ['main', 'worker', 'raise', 'abort', 'wait', 'x', '_Zbad', '_start', 'clone', '__kernel_vsyscall', '__libc_start_main_impl', 'libc_start_main', '__libc_start_mai'] + list(MANGLED)
H = lambda n: '0x%x' % (n % 2 ** 64)
SIGS = [0, 0, 6, 11, 4, 64, 32767]
class World:
    """A program and its libraries, as files and as the specification sees them."""
    def __init__(self, r, d, i):
        self.pie = r.random() < .5
        self.mods = []
        kinds = ['exe'] + ['lib%d.so' % k for k in range(r.choice([0, 1, 1, 2, 3]))]
        self.stack = r.choice([0x7ffe00000000, 0x7ffffffde000, 0x600000])
        self.dbg = self.stack + 0x100000
        at = r.choice([0x7f0000000000, 0x7f12345678000, 0x10000000, 0x7ff7fffff000])
        start_in = r.choice(kinds)
        self.dir = os.path.join(d, 'w%d' % i)
        os.mkdir(self.dir)
        for k in kinds:
            pages = r.choice([1, 1, 2])
            syms, off, used = [], elf.TEXT + r.choice([0, 0, 16]), set()
            for _ in range(r.randint(1, 7)):
                size = r.choice([1, 2, 5, 16, 64, 256])
                if off + size > elf.TEXT + pages * elf.PAGE: break
                n = r.choice(NAMES)
                if k == start_in and r.random() < .3: n = '__libc_start_main'
                if n not in used:
                    syms.append((n, off, size)); used.add(n)
                off += size + r.choice([0, 0, 0, 1, 16])
            if syms and r.random() < .2:                       # the last function ends where the module ends
                n, o, s = syms.pop()
                syms.append((n, o, elf.TEXT + pages * elf.PAGE - o))
            bid = r.choice([bytes(r.randrange(256) for _ in range(20))] * 4 + [b'\0\xff' * 4, bytes(range(16)), None])
            if k == 'exe':
                base = 0x400000 if not self.pie else r.choice([0x555555554000, 0x55d000000000, at])
                if base == at: at += (pages + 1 + r.choice([0, 1])) * elf.PAGE
                f, n = elf.image(3 if self.pie else 2, 0 if self.pie else base, pages * elf.PAGE, syms, bid, self.dbg)
            else:
                base = at
                at += (pages + 1 + r.choice([0, 0, 1, 16])) * elf.PAGE
                f, n = elf.image(3, 0, pages * elf.PAGE, syms, bid)
            path = os.path.join(self.dir, k)
            with open(path, 'wb') as fh: fh.write(f)
            # what an entry covers is taken from the file, the rest from the definition
            self.mods.append({'from': H(base), 'to': H(base + n), 'file': path, 'build': bid.hex() if bid else NULL, 'base': base, 'img': f[:n],
                              'funcs': [{'from': H(base + o), 'to': H(base + o + s), 'name': MANGLED.get(x, x)} for x, o, s in syms]})
        self.exe = self.mods[0]['file']
    def addresses(self, r):
        # what is right behind a module with nothing after it is left to elfutils
        starts, ends = {int(m['from'], 16) for m in self.mods}, {int(m['to'], 16) for m in self.mods}
        while True:
            a = self.address(r)
            if not {a, a - 1} & (ends - starts):
                return a
    def address(self, r):
        x = r.random()
        m = r.choice(self.mods)
        lo, hi = int(m['from'], 16), int(m['to'], 16)
        if x < .75 and m['funcs']:
            f = r.choice(m['funcs'])
            a, b = int(f['from'], 16), int(f['to'], 16)
            return r.choice([a, a + 1, b - 1, b, b + 1, r.randint(a, b), a + 1, r.randint(a, b)])
        if x < .9:
            return r.choice([lo, lo + 1, hi - 1, hi, hi + 1, r.randint(lo, hi)])
        return r.choice([0, 1, 0xffffffffffffffff, 0x8000000000000000, 0x999, self.stack, lo - 1])
    def dump(self, r, path, depth):
        """one dump of the program: the stack of each thread a chain of cells, mostly"""
        mem, threads, n = {}, [], r.choice([1, 1, 2, 3, 4])
        at = self.stack + r.choice([0x40, 0x100])
        for i in range(n):
            sp = at - r.choice([0, 8, 16, 0x20])
            bp, cells = at, r.choice(depth)
            cells = cells() if callable(cells) else cells
            first = at
            for k in range(cells):
                nxt = at + r.choice([16, 16, 32, 64])
                prev = nxt
                if r.random() < (.1 if cells < 20 else .002):
                    prev = r.choice([0, at, first, 0x10, self.stack + 0x100000000, 2 ** 64 - 16, nxt + 16, at - 16])
                mem[at] = (prev, self.addresses(r) if r.random() < .95 or cells > 20 else 0)
                at = nxt
            if cells and r.random() < .5:
                mem[at] = (0, 0)
                at += 16
            at += r.choice([0, 16])
            bp = first if r.random() < .9 else r.choice([0, first + 16, 0x10, sp, 2 ** 64 - 1])
            if r.random() < .05: sp = r.choice([0, first + 16, first + 15, first + 32, 2 ** 64 - 8])
            threads.append(dict(tid=str(r.choice([101, 4242, 7, 4194303]) + i), sig=str(r.choice(SIGS if i else SIGS + [6, 11])), pc=H(self.addresses(r)), sp=H(sp), bp=H(bp)))
        size = at - self.stack + 32
        buf = bytearray(size + -size % elf.PAGE)
        for a, (p, ret) in mem.items():
            struct.pack_into('<QQ', buf, a - self.stack, p, ret)
        # the specification sees every cell a frame pointer may name
        known = set(mem)
        for t in threads:
            known.add(int(t['bp'], 16))
        known |= {p for p, _ in mem.values()}
        cells = {H(self.stack + 2 ** 40): {'prev': '0x0', 'ret': '0x0'}}     # never reached
        for a in sorted(known):
            o = a - self.stack
            if 0 <= o <= len(buf) - 16:
                p, ret = struct.unpack_from('<QQ', buf, o)
                cells[H(a)] = {'prev': H(p), 'ret': H(ret)}
        notes = b''
        for i, t in enumerate(threads):
            notes += elf.note('CORE', 1, elf.prstatus(int(t['tid']), int(t['sig']), int(t['pc'], 16), int(t['sp'], 16), int(t['bp'], 16)))
            if i == 0: notes += elf.prpsinfo(int(t['tid']))
            if r.random() < .3: notes += r.choice([elf.note('LINUX', 0x202, b'\1' * 64), elf.note('CORE', 2, b'\2' * 512), elf.note('CORE', 0x53494749, b'\0' * 128)])
        base = self.mods[0]['base']
        notes += elf.auxv([(3, base + 64), (4, 56), (5, 4 if self.mods[0]['build'] != NULL else 3), (9, base + elf.TEXT), (6, 4096)])
        lm = elf.link_maps(self.dbg, [(base if self.pie else 0, '', base + elf.DYN)] + [(m['base'], m['file'], m['base'] + elf.DYN) for m in self.mods[1:]])
        maps = [(m['base'], m['img'], 5) for m in self.mods] + [(self.stack, bytes(buf), 6), (self.dbg, lm, 6)]
        with open(path, 'wb') as f:
            f.write(elf.core(notes, sorted(maps)))
        return dict(exe=self.exe, mods=[{k: m[k] for k in ('from', 'to', 'file', 'build', 'funcs')} for m in self.mods], mem=cells, threads=threads)
def gdb_text(r, w):
    """what gdb prints about the process"""
    names = ['main', 'raise', '??', 'a::b', 'abort', 'f<int>', '__libc_start_main', 'operator+']
    def frame(n, f=None):
        if r.random() < .1: return '#%d  <signal handler called>\n' % n
        a = r.choice(['', H(w.addresses(r)) + ' in ', H(w.addresses(r)) + ' in ', H(w.addresses(r)) + ' in '])
        return '#%d  %s%s (%s)%s\n' % (n, a, f or r.choice(names), r.choice(['', 'x=1', 'sig=<optimized out>']), r.choice([' at a.c:3', ' from /lib64/libc.so.6', '']))
    top = r.choice(names)
    t = 'Core was generated by `x\'.\n' + (frame(0, top) if r.random() < .7 else '')
    n = r.choice([1, 1, 2, 3])
    for i in range(n):
        if n > 1 or r.random() < .8: t += '\nThread %d (Thread 0x7f (LWP %d)):\n' % (n - i, 100 + i)
        else: t += '\n'
        k = r.randint(1, 5)
        t += ''.join(frame(j, top if j == 0 and r.random() < .7 else None) for j in range(k))
    return t if r.random() < .95 else r.choice(['', 'x', t[:r.randint(0, len(t))]])
def long_text(r, w):
    """a thread of many frames, some of them signal handlers: the text and what is in it"""
    ths, t = [], 'Core was generated by `x'
    for i in range(r.choice([1, 2])):
        t += '\nThread %d (LWP %d):\n' % (2 - i, 8 + i)
        fs = []
        for j in range(r.choice([254, 256, 257, 258, 262, 270]) if i == 0 else 2):
            f = gen.mk('gdb', number=str(j))
            if r.random() < .05 or j == 1: f['signal_handler_called'] = True
            else: f.update(function_name=r.choice(['f', '??', 'abort' if j < 3 else 'g']), address=H(w.addresses(r)))
            fs.append(f)
            t += '#%d  ' % j + ('<signal handler called>' if f['signal_handler_called'] else '%s in %s ()' % (f['address'], f['function_name'])) + '\n'
        ths.append(gen.thread('gdb', frames=fs, number=str(2 - i), tid=str(8 + i)))
    return t, dict(how='ok', threads=ths, crash=[], libs=[])
def unstrip_text(r, w):
    t = ''
    for m in r.sample(w.mods, len(w.mods)):
        n = int(m['to'], 16) - m['base']
        if r.random() < .9:
            t += '0x%x+0x%x %s %s %s %s\n' % (m['base'], r.choice([n, n, n, n - 1, n + elf.PAGE, 0]), r.choice([(m['build'] if m['build'] != NULL else '-') + r.choice(['@0x1', '']), '-']), r.choice([m['file'], m['file'], '-']), r.choice(['-', '.']), os.path.basename(m['file']))
        if r.random() < .1: t += r.choice(['\n', 'junk\n', '0x1000+0x10 ab - - [vdso: 3]\n'])
    # modules that cover very much
    if r.random() < .25: t = r.choice(['0x1000+0xfffffffffffff000', '0x1+0x7fffffffffff', '0x0+0xffffffffffffffff', '0x80000000+0x7fff00000000', '0x400000000000+0x3fff00000000']) + r.choice([' ab12', ' -']) + ' /usr/lib/big - big\n' + t if r.random() < .5 else t + '0x%x+0x800000000000 ef01@0x1 /usr/lib/most . most\n' % r.choice([0, 1, 0xffff, 0x100000])
    return t if r.random() < .97 else r.choice(['', 'x\n'])
MC = 'SPECIFICATION Spec\nCONSTANT Cells <- Cells%s\nCONSTANT Rets <- Rets%s\nCONSTANT MaxFrames <- Three\nINVARIANTS Ends Agree Inside NoMain Limit\nPROPERTY Climbs\n'
def run(ctx):
    r = ctx.rng
    ctx.model('MCDump', MC % ('Q', ctx.n('Q', 'T')), part='every stack of two cells')
    top = os.path.realpath(tlc.scratch())
    try:
        worlds = []
        part_dumps(ctx, r, top, worlds)
        part_gdb(ctx, r, worlds)
        part_listing(ctx, r, worlds)
        part_dir(ctx, r, top, worlds)
        part_refused(ctx, r, top, worlds)
        part_hook(ctx, r, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)
def eq_core(e, g, c):
    if e is None:
        return None if g[0]['st'] == NULL and (g[0]['err'] != NULL or c.get('silent')) else 'to be refused with a message, got %r' % g[0]
    g = g[0]
    if g['st'] == NULL:
        return 'to be read, but refused: %r' % g['err']
    return (diff(c['ids'], g['ids'], 'ids of threads') if 'ids' in c else None) or diff(e, g['st'], 'core stack trace') or diff(NULL, g['err'], 'message')
def part_dumps(ctx, r, top, worlds):
    ds, cases = [], []
    for i in range(ctx.n(60, 400)):
        w = World(r, top, i)
        for k in range(ctx.n(12, 20)):
            p = os.path.join(w.dir, 'core%d' % k)
            deep = k == 0 and i % 6 == 0
            d = w.dump(r, p, [lambda: r.randint(513, 700)] if deep and i % 30 == 0 else [lambda: r.randint(250, 262), 256, 257, 255, 300] if deep else [0, 1, 2, 3, lambda: r.randint(2, 12)])
            ds.append(d)
            cases.append({'ops': [dict(op='coredump', core=p, exe=w.exe, h='s', noerr=r.random() < .05)], 'd': d, 'ids': [int(t['tid']) for t in d['threads']]})
        worlds.append((w, p, d))
    ctx.conform('core dumps', cases, ctx.spec_eval('Dump', 'RunDump', ds), eq_core)
def part_gdb(ctx, r, worlds):
    ins, cases = [], []
    for i in range(ctx.n(900, 8000)):
        w, p, d = r.choice(worlds)
        exe = w.exe if r.random() < .7 else w.dir + '/./' + os.path.basename(w.exe)
        t, given = (gdb_text(r, w), None) if i % 50 else long_text(r, w)
        ins.append(dict(d, text='' if given else t, given=[given] if given else [], exe=exe, real=w.exe, mods=[dict(d['mods'][0], file=exe)] + d['mods'][1:]))
        cases.append({'ops': [dict(op='core_from_gdb', text=t, core=p, exe=exe, h='s')]})
    judge(ctx, 'backtraces by gdb with the core dump', ins, cases, 'RunFromGdb')
def judge(ctx, part, ins, cases, op, **kw):
    exp = ctx.spec_eval('Dump', op, ins)
    known = [k for k, e in enumerate(exp) if e['how'] != 'any']
    ctx.conform(part, [dict(cases[k], **kw) for k in known], [exp[k].get('st') for k in known], eq_core)
def part_listing(ctx, r, worlds):
    ins, cases = [], []
    for i in range(ctx.n(900, 8000)):
        w, p, d = r.choice(worlds)
        t, u = gdb_text(r, w), unstrip_text(r, w)
        exe = r.choice([w.exe, '/usr/bin/x', ''])
        ins.append(dict(text=t, unstrip=u, exe=exe))
        cases.append({'ops': [dict(op='core_create', text=t, unstrip=u, exe=exe, h='s')]})
    judge(ctx, 'backtraces by gdb with a listing of modules', ins, cases, 'RunCreate', silent=True)
def part_dir(ctx, r, top, worlds):
    """satyr abrt-create-core-stacktrace: the core stack trace is written into the problem directory"""
    ins, cases = [], []
    for i in range(ctx.n(60, 400)):
        w, p, d = r.choice(worlds)
        pd = os.path.join(top, 'dir%d' % i)
        os.mkdir(pd)
        lack = r.choice(['executable', 'coredump', 'frames']) if r.random() < .3 else None
        if lack != 'executable':
            with open(pd + '/executable', 'w') as f: f.write(w.exe)
        if lack != 'coredump': shutil.copy(p, pd + '/coredump')
        if r.random() < .5:
            with open(pd + '/core_backtrace', 'w') as f: f.write('x' * r.choice([1, 100000]))
        g = gdb_text(r, w) if r.random() < .4 else None
        ins.append((lack, g, dict(d, text=g or '', real=w.exe, given=[])))
        cases.append({'ops': [dict(op='core_dir', dir=pd, gdb=g)] if g is not None else [dict(op='core_dir', dir=pd)]})
    sts = [dict(how='ok', st=s) for s in ctx.spec_eval('Dump', 'RunDump', [x[2] for x in ins])]
    for k, s in zip([k for k, x in enumerate(ins) if x[1] is not None], ctx.spec_eval('Dump', 'RunFromGdb', [x[2] for x in ins if x[1] is not None])):
        sts[k] = s
    docs = ctx.spec_eval('StJson', 'RunWrite', [dict(st=s['st'] if s['how'] == 'ok' else gen.st('core')) for s in sts])
    keep = [k for k, s in enumerate(sts) if s['how'] != 'any']
    exp = [jdoc.plain(docs[k]['json']) if sts[k]['how'] == 'ok' and ins[k][0] not in ('executable', 'coredump') else None for k in keep]
    def eq(e, g, c):
        g = g[0]
        if e is None:
            return None if not g['ok'] and g['err'] != NULL else 'to be refused with a message, got %r' % g
        if not g['ok'] or g['err'] != NULL:
            return 'to be written, but refused: %r' % g
        if not g['text'].endswith('\n'):
            return 'the file does not end with a newline'
        try:
            x = jdoc.strict(g['text'])
        except ValueError as err:
            return 'no JSON: %s\n%s' % (err, g['text'])
        return None if jdoc.same(e, x) else 'specified %r, file has %r' % (e, x)
    ctx.conform('core_backtrace of problem directories', [cases[k] for k in keep], exp, eq)
def part_refused(ctx, r, top, worlds):
    cases, text = [], '\nThread 1 (Thread 0x7f (LWP 1)):\n#0  0x1 in f ()\n'
    for w, p, d in worlds[:ctx.n(6, 20)]:
        with open(p, 'rb') as f: whole = f.read()
        bad = {'missing': None, 'empty': b'', 'text': b'#0  0x1 in f ()\n', 'header': whole[:64], 'halfheader': whole[:40], 'program': w.mods[0]['img'], 'dir': 0,
               'nothing': elf.core(b'', []), 'notes': elf.core(elf.note('CORE', 1, elf.prstatus(1, 6, 1, 2, 3)) + elf.prpsinfo(1), []), 'other': whole[:16] + b'\x03' + whole[17:], 'class': whole[:4] + b'\7' + whole[5:]}
        for n, b in bad.items():
            q = os.path.join(w.dir, 'bad-' + n)
            if b == 0: os.mkdir(q)
            elif b is not None:
                with open(q, 'wb') as f: f.write(b)
            exe = r.choice([w.exe, '/nonexistent'])
            cases.append({'ops': [dict(op='coredump', core=q, exe=exe, h='s')]})
            cases.append({'ops': [dict(op='core_from_gdb', text=text, core=q, exe=exe, h='s')]})
            cases.append({'ops': [dict(op='coredump', core=q, exe=exe, h='s', noerr=True)], 'silent': True})
    ctx.conform('what is no core dump', cases, [None] * len(cases), eq_core)
def dying(r, path, deep):
    """A program that puts its own stack pointers where they are wanted and exits; its stack is inside of it."""
    base, code_at, stack_at = 0x400000, 0x400000 + elf.TEXT, 0x400000 + elf.TEXT + 2 * elf.PAGE
    syms, off = [], elf.TEXT
    for i in range(r.randint(3, 9)):
        size = 64 if i == 0 else r.choice([1, 2, 5, 16, 64, 256])
        n = 'dying' if i == 0 else '__libc_start_main' if i == 1 and r.random() < .97 else r.choice([n for n in NAMES if n not in [s[0] for s in syms]])
        syms.append((n, off, size))
        off += size + r.choice([0, 0, 0, 1, 16])
    funcs = [{'from': H(base + o), 'to': H(base + o + s), 'name': MANGLED.get(x, x)} for x, o, s in syms]
    def address():
        f = r.choice(funcs)
        a, b = int(f['from'], 16), int(f['to'], 16)
        return r.choice([a, a + 1, b - 1, b, r.randint(a, b), r.randint(a, b), base, base + 0x900, base + 0x1fff])
    main = next((f for f in funcs if f['name'] == '__libc_start_main'), None)
    at, mem = stack_at + 0x40, {}
    first, n = at, r.choice([255, 256, 257, 270]) if deep else r.randint(0, 8)
    for k in range(n + 1):
        nxt = at + 16
        ret = address()
        while deep and FuncName(funcs, ret - 1) == '__libc_start_main':
            ret = address()
        if main and k == n and (deep or r.random() < .97):
            ret = r.choice([int(main['from'], 16) + 1, int(main['to'], 16)])
        mem[at] = (nxt if r.random() < .99 or deep else r.choice([0, at, first]), ret)
        at = nxt
    mem[at] = (0, 0)
    sp, bp = first - r.choice([0, 8, 16]), first if r.random() < .95 else r.choice([0, first + 16])
    code = b'\x48\xbd' + struct.pack('<Q', bp) + b'\x48\xbc' + struct.pack('<Q', sp) + b'\x31\xc0\x31\xff\x48\xbe' + struct.pack('<Q', stack_at) + b'\xba\1\0\0\0\x0f\x05\xb8\x3c\0\0\0\x31\xff\x0f\x05'
    pc = code_at + len(code)
    body = bytearray(code.ljust(5 * elf.PAGE, b'\xcc'))
    size = 3 * elf.PAGE
    body[2 * elf.PAGE:] = bytes(size)
    for a, v in mem.items():
        struct.pack_into('<QQ', body, a - code_at, *v)
    bid = bytes(r.randrange(256) for _ in range(20))
    f, n = elf.image(2, base, len(body), syms, bid, 0, bytes(body))
    with open(path, 'wb') as fh: fh.write(f)
    os.chmod(path, 0o755)
    mem = {H(a): {'prev': H(p), 'ret': H(ret)} for a, (p, ret) in mem.items()}
    return dict(exe='/usr/bin/dying', mods=[{'from': H(base), 'to': H(base + n), 'file': path, 'build': bid.hex(), 'funcs': funcs}], mem=mem,
                threads=[dict(tid='0', sig=str(r.choice([0, 6, 11, 4])), pc=H(pc), sp=H(sp), bp=H(bp))])
def FuncName(funcs, a):
    return next((f['name'] for f in funcs if int(f['from'], 16) <= a < int(f['to'], 16)), None)
def part_hook(ctx, r, top):
    ds = [dying(r, os.path.join(top, 'dying%d' % i), i % 20 == 0) for i in range(ctx.n(60, 400))]
    ends = ctx.spec_eval('Dump', 'RunHook', ds)
    ds, sts = [d for d, e in zip(ds, ends) if e['how'] == 'ok'], [e['st'] for e in ends if e['how'] == 'ok']
    docs = ctx.spec_eval('StJson', 'RunWrite', [dict(st=s) for s in sts])
    cases, exp = [], []
    for k, d in enumerate(ds):
        text = r.random() < .3
        cases.append({'ops': [dict(op='hook', exe=d['mods'][0]['file'], name=d['exe'], sig=int(d['threads'][0]['sig']), h='s', text=text)]})
        exp.append(dict(doc=jdoc.plain(docs[k]['json'])) if text else dict(st=sts[k]))
    def eq(e, g, c):
        g = g[0]
        if g.get('unavailable'):
            return None
        if g['err'] != NULL:
            return 'to be read, but refused: %r' % g['err']
        if 'st' in e:
            return diff([g['pid']], g['ids'], 'ids of threads') or diff(e['st'], g['st'], 'core stack trace')
        return None if g['text'].endswith('\n') and jdoc.same(e['doc'], jdoc.strict(g['text'])) else 'specified %r, got %r' % (e['doc'], g['text'])
    ctx.conform('dying processes', cases, exp, eq)
    ctx.conform('no such process', [{'ops': [dict(op='hook_none', name='/usr/bin/dying', h='s')]}], [None], lambda e, g, c: None if g[0]['st'] == NULL and g[0]['text'] == NULL and NULL not in (g[0]['err'], g[0]['text_err']) else 'to be refused with a message, got %r' % g[0])
