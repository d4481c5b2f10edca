"""C25: the command line tool."""
import hashlib, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import build, gen, jdoc, tlc
from vlib.core import diff
from vlib.gen import NULL
from checks import c15, c18, c23
MC = 'SPECIFICATION Spec\nCONSTANTS MaxArgs = %d\nMaxRuns = %d\nINVARIANTS Quiet Untouched OnlyThere Extra Again\n'
COMMANDS = ['abrt-print-report-from-dir', 'abrt-report-dir', 'abrt-create-core-stacktrace', 'debug']
NAMES = {'core': 'core', 'python': 'python', 'koops': 'kerneloops', 'java': 'java', 'gdb': 'gdb', 'ruby': 'ruby', 'js': 'javascript'}
TEXTS = dict(c18.TEXTS, gdb=['\nThread 1 (Thread 0x7f (LWP 1)):\n#0  0x1 in raise () at ../nptl/raise.c:1\n#1  0x2 in abort () at abort.c:2\n#2  0x3 in f (x=1) at f.c:3\n#3  0x4 in g () from /lib/l.so\n#4  0x5 in main () at m.c:1\n',
                            '#0  0x1 in raise () at r.c:1\n\nThread 2 (LWP 2):\n#0  0x9 in wait () at w.c:1\n\nThread 1 (LWP 1):\n#0  0x1 in raise () at r.c:1\n#1  0x7 in h () at h.c:1\n',
                            '#0  0x9 in q () at q.c:1\n\nThread 2 (LWP 2):\n#0  0x9 in wait () at w.c:1\n\nThread 1 (LWP 1):\n#0  0x1 in read () at r.c:1\n', 'nothing', '',
                            '\nThread 1 (LWP 1):\n' + ''.join('#%d  0x%x in f%d () at f.c:%d\n' % (i, i + 1, i % 250, i) for i in range(400))])
CORES = ['{"signal": 6, "executable": "/bin/x", "stacktrace": [{"frames": [{"address": 1, "function_name": "z"}]}, {"crash_thread": true, "frames": [{"address": 4660, "build_id": "ab12", "build_id_offset": 5, "function_name": "f", "fingerprint": "cd"}, {"address": 7, "build_id": "e", "build_id_offset": 258}, {"address": 8}, {"address": 9}]}]}',
         '{"signal": 6, "executable": "/bin/x", "stacktrace": [{"crash_thread": true, "frames": [{"address": 1, "function_name": "raise", "file_name": "/lib64/libc.so.6"}, {"address": 2, "function_name": "abort", "file_name": "/lib64/libc.so.6"}, {"address": 3, "function_name": "f"}, {"address": 4, "function_name": "g"}]}]}']
class Tool:
    def __init__(self, top):
        self.exe, self.top = build.cli(), top
        self.env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=97:allocator_may_return_null=1', LC_ALL='C.UTF-8', TZ='UTC')
    def world(self, c, d):
        os.mkdir(d)
        for n, x in c['dirs'].items():
            os.mkdir(os.path.join(d, n))
            for k, v in x['files'].items():
                p = os.path.join(d, n, k)
                if v is None: os.mkdir(p)
                elif k == 'coredump' and x['core']: shutil.copy(x['core'], p)
                else:
                    with open(p, 'w', newline='') as f: f.write(v)
        for n, t in c['files'].items():
            with open(os.path.join(d, n), 'w', newline='') as f: f.write(t)
    def tree(self, d):
        out = {}
        for base, ds, fs in os.walk(d):
            for f in fs:
                with open(os.path.join(base, f), 'rb') as fh: out[os.path.relpath(os.path.join(base, f), d)] = fh.read()
            for x in ds: out[os.path.relpath(os.path.join(base, x), d)] = None
        return out
    def one(self, ic):
        i, c = ic
        d = os.path.join(self.top, 'run%d' % i)
        self.world(c, d)
        res, was = [], self.tree(d)
        for args in c['runs']:
            try:
                p = subprocess.run([self.exe] + args, cwd=d, env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            except subprocess.TimeoutExpired:
                return {'crash': 'satyr %s does not end' % ' '.join(args)}
            now = self.tree(d)
            if p.returncode == 97 or p.returncode < 0:
                return {'crash': 'satyr %s: status %d\n%s' % (' '.join(args), p.returncode, p.stderr.decode('utf-8', 'replace')[:3000])}
            res.append(dict(dirs={k: v is not None and len(v) for k, v in now.items() if k.endswith('core_backtrace')}, status=p.returncode, out=p.stdout.decode('utf-8', 'replace'), err=p.stderr.decode('utf-8', 'replace'),
                            changed={k: (now[k].decode('utf-8', 'replace') if now.get(k) is not None else None) for k in sorted(set(was) | set(now)) if was.get(k, 0) != now.get(k, 0)}))
            was = now
        shutil.rmtree(d, ignore_errors=True)
        return res
    def drive(self, cases):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(self.one, enumerate(cases)))
def eq(e, g, c):
    for args, a, o in zip(c['runs'], e, g):
        w = 'satyr %s: ' % ' '.join(args)
        if str(o['status']) != a['status']: return w + 'status %d, specified %s (%s)' % (o['status'], a['status'], o['err'][:300])
        # nothing else is said of libelf's and parsers' warnings: a good run may warn
        if a['err'] == 'some' and not o['err'].strip(): return w + 'refused without a message'
        k = a['out']['k']
        creates = a['status'] == '0' and args[0] == 'abrt-create-core-stacktrace'
        want = [os.path.normpath(args[1]) + '/core_backtrace'] if creates else []
        if [x for x in o['changed'] if x not in want]: return w + 'changed %r' % o['changed']
        if creates and not o['dirs'].get(want[0]): return w + 'no core stack trace written'
        if k == 'none' and o['out']: return w + 'printed %r' % o['out'][:300]
        if k == 'usage' and 'Usage' not in o['out']: return w + 'does not tell how to use it: %r' % o['out'][:300]
        if k == 'commands' and not all(n in o['out'] for n in COMMANDS): return w + 'does not name every command: %r' % o['out'][:600]
        if k == 'version' and '0.43' not in o['out']: return w + 'printed %r' % o['out'][:300]
        if k == 'json':
            try:
                doc = jdoc.strict(o['out'])
            except ValueError as x:
                return w + 'printed what is no JSON (%s): %r' % (x, o['out'][:600])
            if not o['out'].endswith('\n'): return w + 'no newline at the end'
            m = jdoc.plain(a['out']['json'])
            if not jdoc.same(m, doc): return w + (diff(m, doc, 'report') or 'differs')
        if k == 'hash':
            t = a['out']['text']
            m = 'Cleartext:\n%s\nHash: %s\n' % (t, hashlib.sha1(t.encode()).hexdigest())
            if o['out'] != m: return w + 'printed %r, specified %r' % (o['out'], m)
    return None
def run(ctx):
    r = ctx.rng
    ctx.model('MCCli', MC % (ctx.n((2, 2), (3, 2))), part='all runs of up to %d arguments' % ctx.n(2, 3))
    top = os.path.realpath(tlc.scratch())
    try:
        tool(ctx, r, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)
def tool(ctx, r, top):
    # what each reader makes of each text
    jobs = list(dict.fromkeys([(u, x) for u in NAMES for ts in list(TEXTS.values()) + [CORES] for x in ts]))
    res = ctx.drive([{'ops': [dict(op='from_json', type='core', text=x) if u == 'core' else dict(op='parse', type=u, text=x)]} for u, x in jobs])
    reads = {j: [gen.to_spec(c15.tospec(g[0]['st']))] if isinstance(g, list) and isinstance(g[0]['st'], dict) else [] for j, g in zip(jobs, res)}
    me = ctx.drive([{'ops': [dict(op='report_from_dir', files={'type': 'x', 'architecture': 'x', 'count': '1', 'os_release': 'Fedora release 20'})]}])[0][0]
    worlds = []
    for i in range(ctx.n(12, 60)):
        w = c23.World(r, top, i)
        p = os.path.join(w.dir, 'core')
        worlds.append((w, p, w.dump(r, p, [0, 1, 2, 3])))
    def directory():
        t = r.choice(list(c18.TYPE) + ['core'] * 4 + ['invalid'])
        f = c18.directory(r, t)
        w, p, d = r.choice(worlds)
        x = r.random()
        core = None
        if x < .6:
            f['executable'] = w.exe
            if r.random() < .9: f['coredump'], core = '', p
            elif r.random() < .5: f['coredump'] = r.choice(['', 'x', '\x7fELF'])
        dump = [{k: d[k] for k in ('exe', 'mods', 'mem', 'threads')}] if core and f.get('executable') == w.exe else []
        if core: f['package'] = 'x' if 'package' in f else None
        if core and f['package'] is None: del f['package']
        tr = {}
        for u in c18.TYPE:
            t = f.get('core_backtrace' if u == 'core' else 'backtrace')
            tr[u] = reads.get((u, t), []) if t is not None else []
        return dict(files=f, core=core), dict(files={k: {'dir': v is None, 'text': v or ''} for k, v in f.items()}, traces=tr, dump=dump)
    cases, ins = [], []
    for _ in range(ctx.n(320, 2500)):
        dirs = [directory() for _ in range(2)]
        files = {}
        for n in ('f1', 'f2', 'f3'):
            t = r.choice(list(NAMES))
            files[n] = (t, r.choice(TEXTS.get(t, []) + (CORES * 3 if t == 'core' else TEXTS[t][:2])))
        c = dict(dirs={'d%d' % k: x[0] for k, x in enumerate(dirs)}, files={n: x[1] for n, x in files.items()}, runs=[])
        for _ in range(r.randint(2, 6)):
            x = r.random()
            d = r.choice(['d0', 'd0', 'd0', 'd1', 'none'])
            n = r.choice(['f1', 'f2', 'f3'])
            more = r.choice([[], [], [], ['more'], ['-v', 'x']])
            if x < .35: a = ['abrt-print-report-from-dir', d] + more
            elif x < .6: a = ['abrt-create-core-stacktrace', d] + more
            elif x < .9:
                t = NAMES[files[n][0]] if r.random() < .85 else r.choice(list(NAMES.values()) + ['koops', 'CCpp', 'invalid', '', 'Core'])
                a = ['debug', 'duphash', t, n if r.random() < .93 else 'none'] + r.choice([[], [], ['comp'], ['a b'], [''], ['comp', 'more']])
            else:
                a = r.choice([[], ['--help'], ['--usage'], ['--version'], ['help'], ['--versio'], ['debug'], ['debug', 'nonsense'], ['debug', 'duphash'], ['debug', 'duphash', 'gdb'], ['debug', 'normalize'], ['debug', 'normalize', 'none'],
                              ['debug', 'unwind-from-hook'], ['debug', 'unwind-from-hook', '/x', '8388608'], ['debug', 'unwind-from-hook', '/x', '8388608', '6'], ['debug', 'unwind-from-hook', '/x', '8388608x', '6'],
                              ['debug', 'unwind-from-hook', '/x', '8388608', '6y'], ['debug', 'unwind-from-hook', '/x', '8388608', '6', '7'], ['abrt-print-report-from-dir'], ['abrt-create-core-stacktrace'], ['nonsense', 'd0'], ['']])
            c['runs'].append(a)
        cases.append(c)
        ins.append(dict(w=dict(name=me['name'], version=me['version'], dirs={'d%d' % k: x[1] for k, x in enumerate(dirs)}, files={n: {u: reads[u, x[1]] for u in NAMES} for n, x in files.items()}), runs=c['runs']))
    exp = ctx.spec_eval('Cli', 'RunCli', ins)
    ctx.conform('runs of the tool', cases, exp, eq, drive=Tool(top).drive)
    kinds = {}
    for e in exp:
        for a in e: kinds[a['out']['k'] + a['status']] = kinds.get(a['out']['k'] + a['status'], 0) + 1
    ctx.cov['parts']['answers'] = kinds
