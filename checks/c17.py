"""C17: package records: order, sorting, merging, names, lists of shared objects, the package database."""
import json
from vlib import gen, jdoc
from vlib.core import diff
from vlib.gen import NULL
from checks.c15 import jtext
CONS = ['owner_changed', 'group_changed', 'mode_changed', 'md5_mismatch', 'size_changed', 'major_number_changed', 'minor_number_changed', 'symlink_changed', 'modification_time_changed']
E32 = ['0', '1', '2', '2147483647', '2147483648', '4294967295', '7']
T64 = ['0x0', '0x1', '0x5', '0x7fffffff', '0x80000000', '0x100000000', '0x8000000000000000', '0xffffffffffffffff', '0xffffffff']
MC = 'SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Permutation Sorted Kept Again Order\n'
MCT = 'SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Nvr Nevra Back Full Agree\n'
def word(r, opts):
    return r.choice(opts)
def cons(r):
    d = {k: r.random() < .2 for k in CONS}
    if r.random() < .4:
        d = dict.fromkeys(CONS, False)
        d[r.choice(CONS)] = True
    d['path'] = r.choice([NULL, '/a', '/b', '/a/b'])
    return d
def pkg(r, few=True):
    w = lambda o: r.choice(o)
    return {'name': w(['a', 'a', 'b', 'glibc', 'glib', 'Z', NULL]) if few else w(['bash', 'coreutils', 'a', 'B']), 'epoch': w(E32 if r.random() < .5 else ['0', '1']), 'version': w(['1', '1', '10', '2', '1.0', NULL] if few else ['1', '2']),
            'release': w(['1', '1', '2', '1.fc20', NULL]), 'architecture': w([NULL, 'x86_64', 'x86_64', 'i686', 'noarch', '']), 'install_time': w(T64), 'role': w(['0', '0', '1']),
            'consistency': [cons(r) for _ in range(w([0, 0, 0, 1, 1, 2, 3]))]}
def near(r, p):
    q = dict(p, consistency=[dict(c) for c in p['consistency']])
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.choice(list(q))
        if k == 'consistency' and q[k] and r.random() < .8:
            c = r.choice(q[k]); f = r.choice(CONS + ['path'])
            c[f] = r.choice([NULL, '/a', '/b']) if f == 'path' else not c[f]
        else:
            q[k] = pkg(r)[k]
    return q
def key(p):
    return (p['name'], p['version'], p['release'], p['epoch'], p['architecture'])
def bag(l):
    return sorted(json.dumps(p, sort_keys=True) for p in l)
def eq_lists(e, g, c):
    g = g[0]
    if g['count'] != e['count']:
        return 'count: specified %s, code gives %s' % (e['count'], g['count'])
    # packages equal in the order may come in any order
    if [key(p) for p in g['sorted']] != [key(p) for p in e['sorted']]:
        return 'sorted: specified %s, code gives %s' % ([key(p) for p in e['sorted']], [key(p) for p in g['sorted']])
    if bag(g['sorted']) != bag(e['sorted']):
        return 'sorting changes the packages: %s -> %s' % (e['sorted'], g['sorted'])
    return diff(e['uniq'], g['uniq'], 'duplicates merged') or diff(e['again'], g['both'], 'duplicates merged after sorting')
NVR = ['a', 'b', '-', '-', '-', '.', '1', '2', ':', 'x86', 'fc20', '_', '~']
def name_text(r):
    if r.random() < .5:
        ep = r.choice(['', '', '0:', '1:', '7:', '4294967295:', '4294967296:', '18446744073709551617:', 'x:', ':', '1x:', '007:', '99999999999999999999:'])
        t = r.choice(['a', 'a-b', 'glibc-common', '', 'a.b', 'a:b', '-', 'x-1:2-']) + '-' + ep + r.choice(['1', '1.2', '', '2:3', 'a']) + '-' + r.choice(['1', '1.fc20', '', '3.el7.x', '1:2']) + r.choice(['.', '', '..', '.']) + r.choice(['x86_64', 'noarch', '', 'i:6', 'a-b'])
        if r.random() < .3:
            i = r.randrange(len(t) + 1); t = t[:i] + r.choice(['', '-', '.', ':', 'a']) + t[i + r.choice([0, 1]):]
        return t
    return ''.join(r.choice(NVR) for _ in range(r.randint(0, 9)))
def dso_line(r):
    good = '%s %s %s %s' % (r.choice(['/usr/lib/libc.so', 'a', '']), r.choice(['glibc-2.1-1.fc20.x86_64', 'a-1:2-3.b', 'b-0:2-3.noarch', 'c-4294967295:2-3.i686']), r.choice(['(Fedora Project)', 'Fedora', 'a b c', '']),
                            r.choice(['0', '1', '1368000000', '4294967296', '9223372036854775808', '18446744073709551614', '18446744073709551615', '18446744073709551616', '', 'x', '12x', 'x12', '007']))
    if r.random() < .3:
        return r.choice(['', ' ', 'x', 'a b', 'a b c', 'a  b 5', '/l ' + name_text(r) + ' p 5', '/l a-1-1.b 77', ' a-1-1.b 5', '  a-1-1.b 5', '/l a-1-1.b p', '/l x-1-1.b p 5 '])
    return good
def run(ctx):
    r = ctx.rng
    ctx.model('MCRpm', MC % ctx.n(2, 3), part='lists of up to %d packages: sorting permutes and orders, merging keeps every package' % ctx.n(2, 3))
    ctx.model('MCRpmText', MCT % ctx.n(9, 12), part='texts of up to %d characters taken apart and put together' % ctx.n(9, 12))
    # order
    groups = []
    for _ in range(ctx.n(200, 2500)):
        p = pkg(r); groups.append([p] + [near(r, p) if r.random() < .8 else pkg(r) for _ in range(r.choice([2, 3, 5]))])
    exp = ctx.spec_eval('Rpm', 'RunCmp', [dict(xs=g) for g in groups])
    ctx.conform('order', [{'ops': [dict(op='pkg_cmp', xs=g)]} for g in groups], exp, lambda e, g, c: diff(e, g[0], 'signs of nvr, nevra and full comparison'))
    # lists
    lists = [[], [pkg(r)]]
    for _ in range(ctx.n(400, 6000)):
        base = [pkg(r, few=False) for _ in range(r.choice([1, 1, 2, 3]))]
        lists.append([(lambda q: dict(q, **{k: pkg(r)[k] for k in r.sample(['architecture', 'install_time', 'role', 'epoch', 'consistency'], r.choice([0, 1, 2]))}))(r.choice(base)) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12]))])
    # as long as the list of packages of a machine, with few different ones
    for n in [17, 18, 31, 33, 64, 65, 100, 129, 150] + ctx.n([], [255, 257, 300]):
        for _ in range(ctx.n(4, 12)):
            base = [pkg(r) for _ in range(r.choice([1, 3, 12]))]
            lists.append([near(r, r.choice(base)) if r.random() < .4 else dict(r.choice(base)) for _ in range(n)])
    exp = ctx.spec_eval('Rpm', 'RunLists', [dict(xs=l) for l in lists])
    # merging after sorting depends on how ties were ordered: take the order the code chose, once that is known to be one of the allowed ones
    got = ctx.drive([{'ops': [dict(op='pkg_lists', xs=l)]} for l in lists])
    chosen = [g[0]['sorted'] if isinstance(g, list) and bag(g[0]['sorted']) == bag(e['sorted']) and [key(p) for p in g[0]['sorted']] == [key(p) for p in e['sorted']] else e['sorted'] for e, g in zip(exp, got)]
    again = ctx.spec_eval('Rpm', 'RunLists', [dict(xs=l) for l in chosen])
    exp = [dict(e, again=a['uniq']) for e, a in zip(exp, again)]
    ctx.conform('sorting and merging', [{'ops': [dict(op='pkg_lists', xs=l)]} for l in lists], exp, eq_lists)
    # JSON of one record and of a list
    recs = [[dict(p, name=jtext(r) if r.random() < .5 else p['name'], release=jtext(r) if r.random() < .3 else p['release']) for p in (pkg(r) for _ in range(r.choice([0, 1, 1, 2, 4])))] for _ in range(ctx.n(250, 2500))] + [[pkg(r) for _ in range(n)] for n in [17, 33, 65, 129]]
    exp = ctx.spec_eval('Rpm', 'RunPkgJson', [dict(xs=[dict(p, consistency=[]) for p in l]) for l in recs])
    def eq_json(e, g, c):
        g = g[0]
        try:
            want = [jdoc.plain(x) for x in e]
            docs, whole = [jdoc.strict(x[0]) for x in g['singles']], jdoc.strict(g['text'])
        except ValueError as x:
            return 'not a JSON document (%s): %s' % (x, g)
        if not jdoc.same(want, docs):
            return 'written one by one: ' + (diff(want, docs) or 'differs')
        if not jdoc.same(want, whole):
            return 'written as a list: ' + (diff(want, whole) or 'differs')
        back = [dict(p, consistency=[]) for p in c['ops'][0]['xs']]
        return diff([[[p], 0] for p in back], [x[1:] for x in g['singles']], 'read back one by one') or diff([back, 0], [g['back'], g['rc']], 'read back')
    ctx.conform('JSON', [{'ops': [dict(op='pkg_json', xs=l)]} for l in recs], exp, eq_json)
    # names
    texts = sorted({name_text(r) for _ in range(ctx.n(3000, 40000))})
    exp = ctx.spec_eval('Rpm', 'RunNames', [dict(text=t) for t in texts])
    ctx.conform('names', [{'ops': [dict(op='pkg_names', text=t)]} for t in texts], exp, lambda e, g, c: diff(e, g[0]))
    # shared objects
    texts = ['', '\n', '\n\n'] + ['\n'.join(dso_line(r) for _ in range(r.choice([1, 1, 2, 4]))) + r.choice(['', '\n']) for _ in range(ctx.n(800, 10000))]
    texts += ['\n'.join(dso_line(r) for _ in range(n)) for n in [17, 65, 129, 257]]
    exp = ctx.spec_eval('Rpm', 'RunDso', [dict(text=t) for t in texts])
    ctx.conform('shared objects', [{'ops': [dict(op='dso_list', text=t)]} for t in texts], exp, lambda e, g, c: diff(e, g[0]))
    # database
    cases, ins = [], []
    for _ in range(ctx.n(300, 3000)):
        hs = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            h = {'name': r.choice(['bash', 'x']), 'version': r.choice(['1', '2.0']), 'release': '1', 'architecture': r.choice(['x86_64', 'noarch']), 'install_time': r.choice(['0x5', '0x0', '0xffffffff', '0x80000000']), 'epoch': r.choice([NULL, NULL, '0', '1', '4294967295']), 'role': '0', 'consistency': []}
            if r.random() < .12: h[r.choice(['name', 'version', 'release', 'architecture', 'install_time'])] = NULL
            hs.append(h)
        cases.append({'ops': [dict(op='pkg_db', hs=hs, key=r.choice(['bash', '/bin/bash', 'a', '/usr/bin/x y']), path=r.random() < .5, noconfig=r.random() < .05)]})
        ins.append(dict(hs=hs))
    exp = ctx.spec_eval('Rpm', 'RunHeaders', ins)
    def eq_db(e, g, c):
        o, g = c['ops'][0], g[0]
        if o['noconfig']:
            return diff({'ok': False, 'pkgs': []}, g, 'no RPM configuration')
        return diff(dict(e, asked=o['key'], by_path=o['path']), g)
    ctx.conform('installed packages', cases, exp, eq_db)
