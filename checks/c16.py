"""C16: uReports keep what their JSON form carries; damaged ones are refused."""
import json
from vlib import gen, jdoc
from vlib.core import diff
from vlib.gen import NULL, TYPES
from checks import c15
from checks.c15 import jtext, tospec, unspec, WRONG, damaged, docs_for, richest
from checks.c04 import full_st
MC = 'SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS Back Again Nulls\n'
def txt(r):
    return NULL if r.random() < .25 else jtext(r)
def os_(r):
    return {'name': txt(r), 'version': txt(r), 'architecture': r.choice([NULL, 'x86_64']), 'cpe': txt(r), 'uptime': r.choice(gen.VALS64), 'desktop': txt(r), 'variant': txt(r)}
def pkg(r):
    return {'name': txt(r), 'epoch': r.choice(gen.VALS32), 'version': txt(r), 'release': txt(r), 'architecture': r.choice([NULL, 'noarch']), 'install_time': r.choice(gen.VALS64), 'role': r.choice(['0', '0', '1'])}
def report(r):
    t = r.choice(TYPES * 3 + ['invalid'])
    st = [] if t == 'invalid' or r.random() < .1 else [full_st(r, t)] if t == 'gdb' else [gen.st(t)] if r.random() < .1 else [c15.st(r, t)]
    keys = r.sample(['hostname', '', 'k', 'a"b', 'é', ' ', 'user', 'type', '\x01', '\\'], r.choice([0, 0, 1, 2, 3]))
    return {'report_version': r.choice(gen.VALS32), 'report_type': t, 'reporter_name': jtext(r), 'reporter_version': jtext(r), 'user_root': r.random() < .5, 'user_local': r.random() < .5,
            'os': [os_(r)] if r.random() < .7 else [], 'component_name': txt(r), 'packages': [pkg(r) for _ in range(r.choice([0, 1, 2, 5]))], 'stacktrace': st, 'serial': r.choice(gen.VALS32),
            'auth': [[k, jtext(r)] for k in keys]}
def rspec(rep):
    return dict(rep, stacktrace=[gen.to_spec(tospec(s)) for s in rep['stacktrace']])
def runspec(rep):
    return dict(rep, stacktrace=[unspec(s) for s in rep['stacktrace']])
def eq_write(e, g, c):
    try:
        doc = jdoc.strict(g[1])
    except ValueError as x:
        return 'not a JSON document (%s): %s' % (x, g[1][:700])
    want = jdoc.plain(e['json'])
    if not jdoc.same(want, doc):
        return 'JSON written: ' + (diff(want, doc, 'doc') or 'differs')
    return diff({'rep': runspec(e['back']), 'err': NULL}, g[2], 'read back') or diff(c['rep'], g[3], 'input')
def eq_read(e, g, c):
    for o in g:
        if e['ok']:
            m = diff({'rep': runspec(e['rep'][0]), 'err': NULL}, o, 'read')
            if m:
                return m
        else:
            if o['rep'] != NULL:
                return 'a report that breaks the format (%s) is accepted' % e['err']
            if o is g[0]:
                if o['err'] == NULL:
                    return 'refused without an error message; specified %r' % e['err']
                if e['n'] == 1 and o['err'] != e['err']:
                    return 'error: specified %r, code gives %r' % (e['err'], o['err'])
    return None
NAMES = {'koops': 'kerneloops', 'js': 'javascript'}
def doc(r):
    d = {}
    if r.random() < .7: d['ureport_version'] = int(r.choice(gen.VALS32))
    if r.random() < .5: d['reason'] = jtext(r)
    if r.random() < .6: d['reporter'] = {k: jtext(r) for k in r.sample(['name', 'version', 'x'], r.randint(0, 3))}
    if r.random() < .7:
        o = {k: jtext(r) for k in r.sample(['name', 'version', 'architecture', 'cpe', 'desktop', 'variant'], r.randint(0, 6))}
        if r.random() < .5: o['uptime'] = int(r.choice(gen.VALS64), 16)
        d['os'] = o
    if r.random() < .7:
        d['packages'] = []
        for _ in range(r.randint(0, 3)):
            p = {k: jtext(r) for k in r.sample(['name', 'version', 'release', 'architecture'], r.randint(0, 4))}
            if r.random() < .5: p['epoch'] = int(r.choice(gen.VALS32))
            if r.random() < .5: p['install_time'] = int(r.choice(gen.VALS64), 16)
            if r.random() < .3: p['package_role'] = r.choice(['affected', 'affected', 'other', ''])
            d['packages'].append(p)
    if r.random() < .85:
        t = r.choice([t for t in TYPES if t != 'gdb'])
        p = docs_for(r, t)
        if r.random() < .95: p['type'] = NAMES.get(t, t) if r.random() < .9 else r.choice(['gdb', 'invalid', 'Core', '', 'koops', 'js', 'nonsense'])
        if r.random() < .6: p['component'] = jtext(r)
        if r.random() < .6: p['serial'] = int(r.choice(gen.VALS32))
        if r.random() < .6: p['user'] = {k: r.random() < .5 for k in r.sample(['root', 'local', 'x'], r.randint(0, 3))}
        d['problem'] = {k: p[k] for k in r.sample(list(p), len(p))}
    if r.random() < .4: d['auth'] = {k: jtext(r) if r.random() < .9 else r.choice(WRONG) for k in r.sample(['hostname', 'k', 'é', 'z', ''], r.randint(0, 4))}
    if r.random() < .2: d['user'] = {'root': True, 'local': False}
    return {k: d[k] for k in r.sample(list(d), len(d))}
def run(ctx):
    r = ctx.rng
    ctx.model('MCReport', MC % ctx.n(3, 4), part='reports built up by up to %d settings' % ctx.n(3, 4))
    reps = [report(r) for _ in range(ctx.n(900, 9000))]
    for i in range(ctx.n(8, 24)):   # much of everything
        x = dict(report(r), packages=[pkg(r) for _ in range(300)]) if i % 4 == 0 else dict(report(r), component_name='c' * 5000, reporter_name='"' * 3000, auth=[['k%d' % j, 'v' * 40 * (j % 5)] for j in range(200)]) if i % 4 == 1 else \
            dict(report(r), report_type='core', stacktrace=[gen.scales(r, 'core')[i // 4 % 2]]) if i % 4 == 2 else dict(report(r), report_type='koops', stacktrace=[gen.scales(r, 'koops')[0]])
        reps.append(x)
    exp = ctx.spec_eval('Report', 'RunReport', [dict(rep=rspec(x)) for x in reps])
    cases = [{'rep': x, 'ops': [dict(op='new_report', h='r', rep=x), dict(op='report_to_json', h='r'), dict(op='report_from_json', **{'from': 'r'}), dict(op='dump_report', h='r')]} for x in reps]
    ctx.conform('written and read back', cases, exp, eq_write)
    docs = []
    for _ in range(ctx.n(1000, 12000)):
        d = doc(r)
        docs.append(damaged(r, d) if r.random() < .5 else d)
    for t in ('core', 'koops', 'java', 'js', 'python', 'ruby'):
        rep = {'report_version': '2', 'report_type': t, 'reporter_name': 'n', 'reporter_version': '1', 'user_root': True, 'user_local': False, 'os': [dict({k: 'x' for k in ('name', 'version', 'architecture', 'cpe', 'desktop', 'variant')}, uptime='0x5')],
               'component_name': 'c', 'packages': [dict(name='n', epoch='1', version='v', release='r', architecture='a', install_time='0x5', role='1'), dict(name='m', epoch='0', version='v', release='r', architecture='a', install_time='0x0', role='0')],
               'stacktrace': [richest(r, t)], 'serial': '3', 'auth': [['a', 'b'], ['c', 'd']]}
        full = jdoc.plain(ctx.spec_eval('Report', 'RunReport', [dict(rep=rspec(rep))])[0]['json'])
        for p in jdoc.places(full):
            if t != 'core' and p[:1] != ('problem',):
                continue
            for w in WRONG if t == 'core' or len(p) < 4 else r.sample(WRONG, 2):
                if type(w) is not type(jdoc.at(full, p)):
                    docs.append(jdoc.put(full, p, w))
    docs = [d for d in docs if d is not None]
    name = ctx.drive([{'ops': [dict(op='report_from_json', text='{}')]}])[0][0]['rep']
    exp = ctx.spec_eval('Report', 'RunReadReport', [dict(doc=jdoc.node(d), name=name['reporter_name'], version=name['reporter_version']) for d in docs])
    cases = [{'doc': d, 'ops': [dict(op='report_from_json', text=json.dumps(d, ensure_ascii=r.random() < .5))] + [dict(op='report_from_json', text=json.dumps(d), noerr=True)]} for d in docs]
    ctx.conform('documents', cases, exp, eq_read)
    bad = ['', '{', '[', '{"a":}', '{"problem": [', 'nul', '"x', '{"a" "b"}', '{]', '[}', '\x01']
    ctx.conform('not JSON', [{'ops': [dict(op='report_from_json', text=b), dict(op='report_from_json', text=b, noerr=True)]} for b in bad], [{'ok': False, 'err': 'not JSON', 'n': 2}] * len(bad), eq_read)
