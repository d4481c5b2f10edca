"""C18: a problem directory becomes a report."""
from vlib.core import diff
from vlib.gen import NULL
from checks import c17, c19
MC = 'SPECIFICATION Spec\nCONSTANTS MaxFiles = %d\nTypeText = "%s"\nINVARIANTS Needs One Comp Src Optional\n'
TYPE = {'core': 'CCpp', 'python': 'Python', 'koops': 'Kerneloops', 'js': 'JavaScript', 'java': 'Java', 'ruby': 'Ruby'}
TEXTS = {
    'core': ['{"signal": 11, "executable": "/bin/x", "stacktrace": [{"crash_thread": true, "frames": [{"address": 4660, "function_name": "f"}]}]}', '{"stacktrace": []}', '{}', '[]', '{', '', '{"signal": "x"}'],
    'python': ['f.py:7:g:ValueError: bad\n\nTraceback (most recent call last):\n  File "f.py", line 7, in g\n    x()\nValueError: bad\n', 'Traceback (most recent call last):\n  File "/a/b.py", line 3, in <module>\n    y\nKeyError\n', 'nothing', ''],
    'koops': ['BUG: unable to handle kernel NULL pointer dereference\nPID: 1 Comm: x Tainted: G        W 3.1\n[<ffffffff81000000>] do_it+0x5/0x10\n [<ffffffff81000001>] ? other+0x1/0x2 [mod]\n', 'WARNING: at x\nModules linked in: a b\n', 'x', ''],
    'js': ['ReferenceError: x is not defined\n    at Object.<anonymous> (/a/b.js:1:2)\n    at node.js:3:4\n', 'nothing at all', ''],
    'java': ['Exception in thread "main" java.lang.NullPointerException: x\n\tat a.B.c(B.java:7)\n\tat a.B.main(B.java:3)\n', 'x', '', 'Exception in thread "t" a.B\n\tat a.B.c(Native Method)\n'],
    'ruby': ["/usr/x.rb:13:in `f': bad (RuntimeError)\n\tfrom /usr/y.rb:3:in `<main>'\n", 'nothing', ''],
}
VERSIONS = ['3.17.2-300.fc21.x86_64', '2.6', '', '3\n']
def word(r):
    """any one line of text"""
    return ''.join(r.choice('ab:;=/\\"\' .,-_()[]#%+@~!?*1 0\t') for _ in range(r.randint(0, 8)))
def time_of(nevra):
    return str(5 + sum(map(ord, nevra)))
def dso(r):
    ls = []
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        n = r.choice(['glibc-2.1-1.fc20.x86_64', 'bash-4-1.x86_64', 'bash-1:4-1.x86_64', 'a-1:2-3.b', 'zlib-0:2-3.noarch', 'bad', 'b-x:2-3.c'])
        ls.append(r.choice(['/lib/%s %s (Fedora Project) %s', '/lib/%s %s X %s']) % (r.choice('abc'), n, time_of(n)) if r.random() < .85 else r.choice(['', 'x', '/l bash-4-1.x86_64', '/l bash-4-1.x86_64 p', '/l ']))
    return '\n'.join(ls) + r.choice(['\n', ''])
def directory(r, t):
    """a complete directory, then spoiled a little"""
    f = {'type': TYPE.get(t, 'x') + (r.choice(['', '', '\n', '3', ' x']) if r.random() < .3 else ''), 'architecture': r.choice(['x86_64', 'i686\n', '', word(r)]), 'count': r.choice(['1', '2', '4294967295', '007', ' 5', '+3', '-0', '\n1'])}
    if t == 'invalid':
        f['type'] = r.choice(['', 'Xorg', 'VMcore', 'ccpp', 'Pytho', 'CCp', 'core', ' CCpp', 'GDB', 'java', 'RubyX'[:3]])
    if r.random() < .6: f['os_info'] = c19.good_os(r) if r.random() < .7 else c19.os_release(r)
    if r.random() < .6 or 'os_info' not in f: f['os_release'] = r.choice(['Fedora release 20 (Heisenbug)\n', 'Red Hat Enterprise Linux release 7.0 (Maipo)']) if r.random() < .8 else c19.system_release(r)
    if r.random() < .5: f['environ'] = '\n'.join(r.choice(['A=b', 'DESKTOP_SESSION=gnome', 'DESKTOP_SESSION=kde', 'XDESKTOP_SESSION=x', 'A=DESKTOP_SESSION=y', 'DESKTOP_SESSION=', '', 'DESKTOP_SESSION', 'desktop_session=q', 'DESKTOP_SESSION=' + word(r), word(r) + '=' + word(r)]) for _ in range(r.randint(0, 5))) + r.choice(['', '\n'])
    if r.random() < .6: f['executable'] = r.choice(['/usr/bin/will_crash', 'prog', '/', '', '/a/b c', '/a/b/', 'x\n', '/usr/' + word(r), word(r)])
    if r.random() < .5: f['component'] = r.choice(['bash', '', 'kernel\n', word(r)])
    if r.random() < .5:
        nl = lambda s: s + r.choice(['', '', '\n', '\nmore'])
        f.update(package=r.choice(['bash-4-1.x86_64', '']), pkg_name=nl(r.choice(['bash', 'zlib', '', word(r)])), pkg_version=nl(r.choice(['4', '', '2', word(r)])), pkg_release=nl(r.choice(['1', '3', '', word(r)])), pkg_arch=nl(r.choice(['x86_64', 'noarch', '', word(r)])),
                 pkg_epoch=nl(r.choice(['0', '0', '1', '4294967295'] + (['4294967296', '', 'x', '1 ', '1 2', '1\t', '0 \n', '1x', ' 1', '+1', '-1', '(none)', '99999999999999999999'] if r.random() < .4 else []))))
    if r.random() < .5: f['dso_list'] = dso(r)
    if r.random() < .3: f['interpreter'] = r.choice(['python-2.7-1.x86_64', 'python-1:2.7-1.x86_64', 'python', '', 'a-b', 'ruby-2-1.noarch', 'p-9:1-1.x\n'])
    if t != 'invalid' and t in TEXTS:
        f['core_backtrace' if t == 'core' else 'backtrace'] = r.choice(TEXTS[t][:2] + TEXTS[t][:1] * 4) if r.random() < .8 else r.choice(TEXTS[t])
    if t == 'koops' or r.random() < .3: f['kernel'] = r.choice(VERSIONS + [word(r)])
    if t == 'js' or r.random() < .3: f['analyzer'] = r.choice(['Node.js', 'Node.js', 'abrt-nodejs', '', 'Node.js\n', 'node.js', 'libreport'])
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        k = r.choice(sorted(f))
        x = r.random()
        if x < .45: del f[k]
        elif x < .75: f[k] = None
        elif k == 'count': f[k] = r.choice(['', 'x', '1x', '4294967296', '-1', '99999999999999999999', '1\n', '1 ', '0x1', '18446744073709551617', '1.5', '-', '+'])
        elif k == 'type': f[k] = r.choice(list(TYPE.values()) + ['JavaScrip', 'Javax', 'Kernel'])
        if not f:
            break
    return f
def run(ctx):
    r = ctx.rng
    for t in (['Java', 'Kerneloops'] if not ctx.thorough else list(TYPE.values()) + ['x']):
        ctx.model('MCDir', MC % (ctx.n(6, 10), t), part='directories of up to %d further files, type %s' % (ctx.n(6, 10), t))
    # what each reader makes of each text
    reads, jobs = {}, []
    for t, texts in TEXTS.items():
        for u in TYPE:
            for x in texts:
                jobs.append((u, x))
    jobs = list(dict.fromkeys(jobs))
    res = ctx.drive([{'ops': [dict(op='from_json', type='core', text=x) if u == 'core' else dict(op='parse', type=u, text=x)]} for u, x in jobs])
    for (u, x), g in zip(jobs, res):
        reads[u, x] = g[0]['st'] if isinstance(g, list) and isinstance(g[0]['st'], dict) else None
    dirs = [directory(r, r.choice(list(TYPE) * 2 + ['invalid'])) for _ in range(ctx.n(2500, 30000))]
    # long files
    for n in (17, 64, 128, 255, 256, 257, 300):
        for t in TYPE:
            f = dict(directory(r, t), type=TYPE[t], architecture='x', count='1', os_release='Fedora release 20', kernel='3', analyzer='Node.js')
            f['core_backtrace' if t == 'core' else 'backtrace'] = TEXTS[t][0]
            f['environ'] = '\n'.join(['%s%d=%s' % (r.choice('AB'), i, 'v' * (i % 7)) for i in range(n)] + ['DESKTOP_SESSION=' + 'g' * n] + [''] * (n % 2))
            f['dso_list'] = ''.join('/lib/l%d.so %s (Fedora Project) %s\n' % (i, p, time_of(p)) for i in range(n // 8) for p in [r.choice(['glibc-2.1-1.fc20.x86_64', 'bash-4-1.x86_64', 'zlib-%d:2-3.noarch' % (i % 5), 'a%d-1:2-3.b' % (i % 9)])])
            f['component'], f['executable'] = 'c' * n, '/d' * n + '/' + 'e' * n
            f['os_info'] = 'X=' + 'y' * n + '\n' + ('K=v\n' * n) + 'ID=' + 'f' * n + '\nVERSION_ID=2\n'
            dirs.append(f)
    # all type texts cut at every place, with everything there
    for t, n in TYPE.items():
        for i in range(len(n) + 1):
            f = {'type': n[:i], 'architecture': 'x', 'count': '1', 'os_release': 'Fedora release 20', 'kernel': '3', 'analyzer': 'Node.js', 'core_backtrace': TEXTS['core'][0], 'backtrace': TEXTS[t][0] if t != 'core' else 'x'}
            dirs.append(f)
    # each file of a full directory missing, or unreadable
    for t in TYPE:
        full = {'type': TYPE[t], 'architecture': 'x', 'count': '1', 'os_release': 'Fedora release 20', 'os_info': 'ID=f\nVERSION_ID=2\n', 'environ': 'DESKTOP_SESSION=g', 'kernel': '3', 'analyzer': 'Node.js', 'core_backtrace': TEXTS['core'][0], 'backtrace': TEXTS[t][0],
                'package': 'x', 'pkg_name': 'n', 'pkg_version': '1', 'pkg_release': '2', 'pkg_arch': 'a', 'pkg_epoch': '3', 'component': 'c', 'executable': '/b/x', 'dso_list': '/l a-1-1.x p 5\n', 'interpreter': 'p-1-1.x'}
        for k in full:
            dirs.append({a: b for a, b in full.items() if a != k})
            dirs.append(dict(full, **{k: None}))
        dirs.append(full)
    def traces(f):
        out = {}
        for u in TYPE:
            x = f.get('core_backtrace' if u == 'core' else 'backtrace')
            s = None if x is None else reads[u, x] if (u, x) in reads else None
            out[u] = [] if s is None else [{'version': NULL, 'platform': s.get('platform', '0')}]
        return out
    exp = ctx.spec_eval('ProblemDir', 'RunDir', [dict(files={k: {'dir': v is None, 'text': v or ''} for k, v in f.items()}, traces=traces(f)) for f in dirs])
    def eq(e, g, c):
        g, f = g[0], c['ops'][0]['files']
        if g['err'] == bool(g['rep']):
            return 'a report and an error message together' if g['rep'] else 'refused without an error message'
        if not e or not g['rep']:
            return None if bool(e) == bool(g['rep']) else 'specified: %s; code: %s (%s)' % ('a report' if e else 'no report', 'a report' if g['rep'] else 'none', g['msg'])
        e, rep = dict(e[0]), g['rep'][0]
        e['packages'] = [{k: v for k, v in p.items() if k != 'consistency'} for p in e['packages']]
        e['reporter_name'], e['reporter_version'] = g['name'], g['version']
        if e['stacktrace']:
            t = e['report_type']
            s = dict(reads[t, f['core_backtrace' if t == 'core' else 'backtrace']])
            s.update({k: v for k, v in e['stacktrace'][0].items() if k in s and (t, k) in (('koops', 'version'), ('js', 'platform'))})
            e['stacktrace'] = [s]
        return diff(e, rep, 'report')
    ctx.conform('directories', [{'ops': [dict(op='report_from_dir', files=f)]} for f in dirs], exp, eq)
    ctx.cov['parts']['complete'] = sum(1 for e in exp if e)
