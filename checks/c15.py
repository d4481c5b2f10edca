"""C15: stack traces keep what their JSON form carries; damaged documents are refused."""
import json
from vlib import gen, jdoc
from vlib.core import diff
from vlib.gen import NULL, TYPES, MULTI
from checks.c04 import full_st
MC = 'SPECIFICATION Spec\nCONSTANTS Type = "%s"\nMaxFrames = %d\nINVARIANTS RoundTrip Idempotent Unknown Nulls Drops\n'
JT = [t for t in TYPES if t != 'gdb']
TEXTS = ['', 'a', 'a b', '"', '\\', '\\n', 'line\nline', '\t', '\r', '\f', '\b', '\x01', '\x1f', '\x7f', '/', 'é', '日本', '😀', "'", '</script>', '{', '%s', 'a"b\\c\nd\x02e', '\x0b', '\x1b[0m', ' trailing ', '\\u0041', 'null']
def jtext(r):
    return r.choice(TEXTS) if r.random() < .7 else ''.join(r.choice(TEXTS + ['x'] * 10) for _ in range(r.randint(1, 6)))
def st(r, t, big=False):
    s = full_st(r, t, nframes=r.choice([0, 1, 3, 5]))
    texts = list(gen.STR[t])
    for th in s['threads'] if t in MULTI else [s]:
        for f in th['frames']:
            mode = r.random()
            for k in texts:
                f[k] = NULL if mode < .15 or r.random() < .2 else jtext(r)
            for k in gen.U64[t]:
                f[k] = '0xffffffffffffffff' if mode < .1 else '0x0' if mode < .2 else r.choice(gen.VALS64)
            for k in gen.U32[t]:
                f[k] = '0' if mode < .2 else r.choice(gen.VALS32)
            if mode < .1:
                for k in gen.BOOL[t]:
                    f[k] = False
        if t == 'java':
            th['name'] = r.choice([NULL, 'main', jtext(r)])
    for k in ('exception_name', 'executable', 'version', 'raw_oops', 'reason'):
        if k in s:
            s[k] = NULL if r.random() < .3 else jtext(r)
    if t == 'js':
        s['platform'] = r.choice(['0', '1', '16', '17', '17', '65535'])
    if t == 'koops':
        n = r.choice([0, 1, 3, 127, 128, 129, 300]) if big else r.choice([0, 1, 2, 3])
        s['modules'] = NULL if r.random() < .2 else [r.choice(['ext4', 'nf(-)', 'x' * 40]) if big else jtext(r) for _ in range(n)]
        for k in gen.TAINTS:
            s[k] = r.random() < .3
    return s
def tospec(s):
    return dict(s, modules=[] if s['modules'] == NULL else [s['modules']]) if s['type'] == 'koops' else s
def unspec(s):
    return dict(s, modules=s['modules'][0] if s['modules'] else NULL) if s['type'] == 'koops' else s
def eq_write(e, g, c):
    try:
        doc = jdoc.strict(g[1])
    except ValueError as x:
        return 'not a JSON document (%s): %s' % (x, g[1][:500])
    want = jdoc.plain(e['json'])
    if not jdoc.same(want, doc):
        return 'JSON written: ' + (diff(want, doc, 'doc') or 'differs')
    back = unspec(e['back'])
    for o in g[2:4]:
        m = diff({'st': back, 'err': NULL}, o, 'read back')
        if m:
            return m
    return diff(c['st'], g[4], 'input')
def eq_read(e, g, c):
    for o in g:
        if e['ok']:
            m = diff({'st': unspec(e['st'][0]), 'err': NULL}, o, 'read')
            if m:
                return m
        else:
            if o['st'] != NULL:
                return 'a document that breaks the format (%s) is accepted' % e['err']
            if o is not g[2]:
                if o['err'] == NULL:
                    return 'refused without an error message; specified %r' % e['err']
                if e['n'] == 1 and o['err'] != e['err']:
                    return 'error: specified %r, code gives %r' % (e['err'], o['err'])
    return None
WRONG = [None, True, 7, 1.5, 'text', [], {}, [1], {'a': 1}]
KEYS = ['signal', 'executable', 'only_crash_thread', 'stacktrace', 'threads', 'frames', 'crash_thread', 'exception_name', 'platform', 'engine', 'runtime', 'file_name', 'special_file', 'function_name',
        'special_function', 'file_line', 'line_contents', 'address', 'build_id', 'build_id_offset', 'fingerprint', 'fingerprint_hashed', 'name', 'is_native', 'message', 'taint_flags', 'modules', 'version', 'raw_oops',
        'reliable', 'line_column', 'block_level', 'Address', 'x']
def damaged(r, doc):
    """Variants of a document: one or a few places changed, dropped or added."""
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        ps = list(jdoc.places(doc))
        p = r.choice(ps) if r.random() < .97 else ()
        v = jdoc.at(doc, p)
        k = r.random()
        if k < .55 or not p:
            new = r.choice([w for w in WRONG if type(w) is not type(v)])
            doc = jdoc.put(doc, p, new)
        elif k < .7:
            par = jdoc.at(doc, p[:-1])
            if isinstance(par, dict):
                doc = jdoc.put(doc, p[:-1], {a: b for a, b in par.items() if a != p[-1]})
            else:
                doc = jdoc.put(doc, p[:-1], par[:p[-1]] + par[p[-1] + 1:])
        elif k < .8 and isinstance(v, list):
            doc = jdoc.put(doc, p, v + [r.choice(WRONG + v)])
        else:
            o = [q for q in ps if isinstance(jdoc.at(doc, q), dict)]
            if o:
                q = r.choice(o)
                doc = jdoc.put(doc, q, dict(jdoc.at(doc, q), **{r.choice(KEYS): r.choice(WRONG + ['V8', 'Node.js', '<unknown>', 'v9', 'mce', 4294967295, 2147483648])}))
        if not isinstance(doc, (dict, list)):
            break
    # which number a signal above 16 bits becomes is left open
    return fits(doc)
def fits(x):
    if isinstance(x, list): return [fits(y) for y in x]
    if isinstance(x, dict): return {k: 65535 if k == 'signal' and type(y) is int and y > 65535 else fits(y) for k, y in x.items()}
    return x
def docs_for(r, t):
    """A random well-formed document, not necessarily one the writer produces."""
    special = {'python': ['special_file', 'special_function'], 'ruby': ['special_function']}.get(t, [])
    def frame():
        d = {}
        for k in gen.STR[t]:
            if r.random() < .6: d[k] = jtext(r)
        for k in gen.U64[t]:
            if r.random() < .6: d[k] = int(r.choice(gen.VALS64), 16)
        for k in gen.U32[t]:
            if r.random() < .6: d[k] = int(r.choice(gen.VALS32))
        for k in gen.BOOL[t]:
            if k not in special and r.random() < .6: d[k] = r.random() < .5
        for k in special:
            if r.random() < .3: d[k] = jtext(r)
        d.pop('special_stack', None) if r.random() < .5 else None
        return {k: d[k] for k in r.sample(list(d), len(d))}
    frames = lambda: [frame() for _ in range(r.randint(0, 3))]
    if t in MULTI:
        ths = []
        for _ in range(r.randint(0, 3)):
            d = {}
            if r.random() < .8: d['frames'] = frames()
            if t == 'java' and r.random() < .6: d['name'] = jtext(r)
            if t == 'core' and r.random() < .5: d['crash_thread'] = r.random() < .6
            ths.append(d)
        d = {'threads' if t == 'java' else 'stacktrace': ths} if r.random() < .9 else {}
        if t == 'core':
            if r.random() < .6: d['signal'] = r.choice([0, 6, 11, 65535])
            if r.random() < .6: d['executable'] = jtext(r)
            if r.random() < .4: d['only_crash_thread'] = r.random() < .5
        return d
    d = {'frames' if t == 'koops' else 'stacktrace': frames()} if r.random() < .9 else {}
    if t == 'koops':
        for k in ('version', 'raw_oops', 'reason'):
            if r.random() < .5: d[k] = jtext(r)
        if r.random() < .7: d['taint_flags'] = [r.choice([x[6:] for x in gen.TAINTS] + ['nothing', 'taint_mce', 'MCE', '']) for _ in range(r.randint(0, 4))]
        if r.random() < .7: d['modules'] = [jtext(r) for _ in range(r.choice([0, 1, 3, 126, 127, 128, 129, 260]))]
    elif r.random() < .7:
        d['exception_name'] = jtext(r)
    if t == 'js' and r.random() < .6:
        d['platform'] = {'engine': r.choice(['V8', 'V8', '<unknown>']), 'runtime': r.choice(['Node.js', 'Node.js', '<unknown>'])}
    return d
def run(ctx):
    r = ctx.rng
    for t in JT:
        ctx.model('MCStJson', MC % (t, ctx.n(1, 2)), part='%s traces of up to %d frames, each frame changed in up to two fields' % (t, ctx.n(1, 2)))
    sts = [st(r, t) for t in JT for _ in range(ctx.n(250, 4000))] + [st(r, 'koops', True) for _ in range(ctx.n(20, 200))]
    for s in sts:  # a flag of the first thread, also where it has no frames
        if s['type'] == 'core' and s['threads'] and r.random() < .3:
            s['threads'][0]['frames'] = []
            s['crash_thread'] = r.choice([0, -1, 0])
    sts += [s for t in JT for s in gen.scales(r, t)]
    exp = ctx.spec_eval('StJson', 'RunWrite', [dict(st=tospec(s)) for s in sts])
    cases = [{'st': s, 'ops': [dict(op='new_st', h='s', **s), dict(op='to_json', h='s'), dict(op='from_json', type=s['type'], **{'from': 's'}),
                               dict(op='from_json', type=s['type'], via='core' if s['type'] == 'core' else 'object', **{'from': 's'}), dict(op='dump_st', h='s')]} for s in sts]
    ctx.conform('written and read back', cases, exp, eq_write)
    docs = []
    for t in JT:
        for _ in range(ctx.n(300, 4000)):
            d = docs_for(r, t)
            if r.random() < .6:
                d = damaged(r, d)
            docs.append((t, d))
    docs += [('gdb', d) for d in ({}, {'threads': []})]
    for t in JT:  # each place of a full document, with each wrong type
        full = jdoc.plain(ctx.spec_eval('StJson', 'RunWrite', [dict(st=tospec(richest(r, t)))])[0]['json'])
        for p in jdoc.places(full):
            for w in WRONG:
                if type(w) is not type(jdoc.at(full, p)):
                    docs.append((t, jdoc.put(full, p, w)))
    exp = ctx.spec_eval('StJson', 'RunRead', [dict(type=t, doc=jdoc.node(d)) for t, d in docs])
    cases = []
    for t, d in docs:
        text = json.dumps(d, ensure_ascii=r.random() < .5)
        if text == 'null':
            text = ' null'
        ops = [dict(op='from_json', type=t, text=text), dict(op='from_json', type=t, text=text, via='object'), dict(op='from_json', type=t, text=text, noerr=True)]
        cases.append({'ops': ops, 'doc': d})
    keep = [i for i, (t, d) in enumerate(docs) if d is not None]
    ctx.conform('documents', [cases[i] for i in keep], [exp[i] for i in keep], eq_read)
    bad = ['', '{', '[', '{"a":}', '{"stacktrace": [', 'nul', '"x', '{"a" "b"}', '{]', '[}', '\x01']
    ctx.conform('not JSON', [{'ops': [dict(op='from_json', type=t, text=b)] * 2 + [dict(op='from_json', type=t, text=b, noerr=True)]} for t in TYPES for b in bad],
                [{'ok': False, 'err': 'not JSON', 'n': 2}] * (len(bad) * len(TYPES)), eq_read)
def richest(r, t):
    f = {k: 'a' for k in gen.STR[t]}
    f.update({k: '0x5' for k in gen.U64[t]}); f.update({k: '5' for k in gen.U32[t]}); f.update({k: False for k in gen.BOOL[t]})
    g = dict(f, **{k: True for k in gen.BOOL[t]})
    a = dict(core=dict(signal='11', executable='/bin/x', only_crash_thread=True, crash_thread=1), koops=dict(version='5', raw_oops='r', modules=['a', 'b'], taint_mce=True, taint_warning=True),
             java={}, python=dict(exception_name='E'), ruby=dict(exception_name='E'), js=dict(exception_name='E', platform='17'))[t]
    if t in MULTI:
        n = {'name': 'n'} if t == 'java' else {}
        return gen.st(t, threads=[dict(frames=[f, g], **n), dict(frames=[g], **n)], **a)
    return gen.st(t, frames=[f, g], **a)
