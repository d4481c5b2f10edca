"""C08: backtrace hash."""
from vlib import gen
from vlib.core import diff
from vlib.gen import mk, NULL, TYPES, MULTI
from checks.c04 import full_st
from checks.c07 import sha, MC
def spec_st(s):
    s = gen.to_spec(s)
    if s['type'] == 'koops' and s['modules'] == NULL:
        s = dict(s, modules=[])
    return s
def eq(e, g, c):
    if e != g[1]:
        return 'text: specified %r, code gives %r' % (e, g[1])
    for k in (2, 3):
        if g[k] != sha(e):
            return 'hash: specified %s, code gives %s' % (sha(e), g[k])
    return diff(c['st'], g[4], 'input')
def run(ctx):
    r = ctx.rng
    for t in ('koops', 'gdb', 'core', 'java', 'python'):
        ctx.model('MCRender', MC % (t, ctx.n(3, 5)), part='laws of hash texts on all short %s threads' % t)
    sts = []
    for t in TYPES:
        # a base value and every single-field change of it, so that each field's place in the hash is decided
        base = mk(t, **{f: 'S' + f for f in gen.STR[t]}, **{f: '7' for f in gen.U32[t]}, **{f: '0xab' for f in gen.U64[t]})
        var = [base]
        for f in base:
            vals = [NULL, '', 'other'] if f in gen.STR[t] else [True, False] if f in gen.BOOL[t] else gen.VALS64 if f in gen.U64[t] else gen.VALS32
            var += [dict(base, **{f: v}) for v in vals]
        for v in var:
            sts.append(gen.st(t, threads=[gen.thread(t, frames=[base, v])]) if t in MULTI else gen.st(t, frames=[base, v]))
        b = gen.st(t)
        for k, v in gen.STDEF[t].items():
            vals = [True, False] if isinstance(v, bool) else [['a'], ['a', 'b'], ['a', 'b', 'c d'], []] if k == 'modules' else \
                   [[dict(**{'from': x, 'to': y, 'symbols': 0, 'soname': so})] for x in gen.VALS64[:4] for y in gen.VALS64[5:8] for so in ('/l.so', NULL)] if k == 'libs' else \
                   [mk('gdb', function_name='z')] if k == 'crash' else ['0', '1', '11', '65535'] if k == 'signal' else ['0', '1'] if k == 'platform' else ['x', NULL, ''] if v == NULL else ['1', '2']
            sts += [dict(b, **{k: x}) for x in vals]
        for k in range(ctx.n(220, 3000)):
            sts.append(full_st(r, t))
    sts += [s for t in TYPES for s in gen.scales(r, t)]
    exp = ctx.spec_eval('Render', 'RunBt', [dict(st=spec_st(s)) for s in sts])
    cases = [{'ops': [dict(op='new_st', h='s', **s), dict(op='bthash', h='s', flags=2), dict(op='bthash', h='s', flags=1), dict(op='bthash', h='s', flags=0), dict(op='dump_st', h='s')], 'st': s} for s in sts]
    ctx.conform('stack traces', cases, exp, eq)
    ctx.assumptions.append('SHA-1 of the specified text is computed with Python hashlib')
