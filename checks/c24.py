"""C24: texts shown to people: short text, frames, full gdb text, reason, lists of functions."""
from vlib import gen
from vlib.core import diff
from vlib.gen import mk, NULL, TYPES, MULTI
from checks.c04 import full_st
from checks.c06 import gdb_st, core_st
from checks.c08 import spec_st
from checks.normgen import T
MC = 'SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nINVARIANTS Counted ReadBack Dec\n'
def tame(r, s):
    """Texts are specified for frames that have what their text needs."""
    for th in s['threads'] if 'threads' in s else [s]:
        for f in th['frames']:
            if s['type'] == 'core' and f['function_name'] == NULL and f['build_id'] == NULL:
                f['build_id'] = 'deadbeef'
            if s['type'] == 'js' and f['file_name'] == NULL:
                f['file_name'] = 'file'
            if s['type'] == 'ruby':
                f['rescue_level'] = r.choice(['0', '0', '1', '2', '3'])
                f['block_level'] = r.choice(['0', '0', '1', '2', '3', '42'])
            if s['type'] == 'java' and f['class_path'] != NULL and r.random() < .7:
                f['class_path'] = r.choice(['/usr/a.jar', 'http://a/b.jar', 'a:b', 'a/b:c', 'plain', 'jar:file:/x', '/a:b', ':', '/', 'x:/y'])
            if s['type'] == 'koops' and r.random() < .3:
                f['function_name'] = r.choice(T['KoopsNoise'])
            if s['type'] == 'core' and f['file_name'] != NULL:
                f['file_name'] = r.choice(['/usr/bin/app', 'app', '/a/', '/', 'a/b', '/lib64/libc.so.6'])
    if s['type'] == 'koops':
        s['reason'] = r.choice([NULL, 'BUG: unable to handle kernel paging request at 0010', 'general protection fault: 0000 [#1] SMP', 'general protection fault', 'Oops: general protection fault: x', 'WARNING: at x.c:1', 'kernel paging request', ''])
    return s
MAX = [0, 1, 2, 3, 10, 270]
def eq(e, g, c):
    s, n = c['st'], 1
    for i, m in enumerate(MAX):
        if e['short'][i] != g[n]:
            return 'short text (%d): specified %r, code gives %r' % (m, e['short'][i], g[n])
        n += 1
    if s['type'] != 'gdb' and e['reason'] != g[n]:
        return 'reason: specified %r, code gives %r' % (e['reason'], g[n])
    n += 1
    for i, th in enumerate(s['threads'] if 'threads' in s else [s]):
        n += 1
        for j in range(len(th['frames'])):
            if e['frames'][i][j] != g[n]:
                return 'frame %r: specified %r, code gives %r' % (th['frames'][j], e['frames'][i][j], g[n])
            n += 1
        if s['type'] in ('gdb', 'java'):
            if e['funs'][i] != g[n]:
                return 'functions: specified %r, code gives %r' % (e['funs'][i], g[n])
            n += 1
    if s['type'] == 'gdb':
        m = diff(e['text'], g[n:n + 2], 'text')
        if m:
            return m
        n += 2
    return diff(s, g[n], 'input')
def run(ctx):
    r = ctx.rng
    ctx.model('MCShow', MC % ctx.n(3, 4), part='short texts and function lists of all short gdb threads; decimal numbers')
    sts = []
    for _ in range(ctx.n(500, 6000)):
        s = gdb_st(r)
        for th in s['threads']:
            for f in th['frames']:
                if r.random() < .4:
                    f.update(function_type=r.choice([NULL, 'int', 'static void']), number=r.choice(gen.VALS32), source_line=r.choice(gen.VALS32), library_name=r.choice([NULL, 'libx.so']), signal_handler_called=r.random() < .2)
        if r.random() < .5:
            s['libs'] = [{'from': '0x10', 'to': '0x402000', 'symbols': 0, 'soname': '/lib/l.so.1'}]
        sts.append(s)
    for _ in range(ctx.n(200, 2000)):
        sts.append(tame(r, core_st(r)))
    for t in TYPES:
        for _ in range(ctx.n(200, 2500)):
            s = full_st(r, t)
            if t == 'java' and r.random() < .6:
                for th in s['threads']:
                    for f in th['frames']:
                        f['name'] = r.choice(['a.b.C.m', 'X', NULL]); f['is_exception'] = r.random() < .3
            sts.append(tame(r, s))
    sts += [tame(r, s) for t in TYPES for s in gen.scales(r, t)]
    exp = ctx.spec_eval('Render', 'RunText', [dict(st=spec_st(s), max=MAX) for s in sts])
    cases = []
    for s in sts:
        ops = [dict(op='new_st', h='s', **s)] + [dict(op='short_text', h='s', n=m) for m in MAX] + [dict(op='reason', h='s')]
        for i, th in enumerate(s['threads'] if 'threads' in s else [s]):
            ops.append(dict(op='thread_of', st='s', i=i, h='t'))
            ops += [dict(op='frame_str', t='t', i=j) for j in range(len(th['frames']))]
            if s['type'] in ('gdb', 'java'):
                ops.append(dict(op='format_funs', h='t'))
        if s['type'] == 'gdb':
            ops += [dict(op='gdb_text', h='s', verbose=True), dict(op='gdb_text', h='s', verbose=False)]
        ops.append(dict(op='dump_st', h='s'))
        cases.append({'ops': ops, 'st': s})
    ctx.conform('stack traces', cases, exp, eq)
    txt = []
    for _ in range(ctx.n(400, 4000)):
        txt.append(''.join(r.choice(['f', 'g<int, 3>', 'operator new', '??', 'a::b']) + r.choice(['', ' ', ' lib.so', ' l', '  two']) + r.choice(['\n'] * 9 + ['']) for _ in range(r.randint(0, 5))))
    exp = ctx.spec_eval('Render', 'RunFuns', [dict(text=t) for t in txt])
    ctx.conform('function lists read back', [{'ops': [dict(op='parse_funs', h='t', text=t)]} for t in txt], exp,
                lambda e, g, c: diff(e, [{k: f[k] for k in ('function_name', 'library_name', 'number')} for f in g[0]['frames']], 'frames'))
