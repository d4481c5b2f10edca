"""Frames that exercise every entry of the normalization tables, and near misses."""
import re, os
from vlib.gen import mk, NULL
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def tables():
    s = open(os.path.join(ROOT, 'specs', 'NormTables.tla')).read()
    out = {}
    for name, body in re.findall(r'^(\w+) == \(\n(.*?)\)$', s, re.S | re.M):
        out[name] = [(n, re.findall(r'"([^"]*)"', ps)) for n, ps in re.findall(r'^  "([^"]+)" :> \{([^}]*)\}', body, re.M)]
    for name, body in re.findall(r'^(\w+) == \{(.*)\}$', s, re.M):
        out[name] = re.findall(r'"([^"]*)"', body)
    return out
T = tables()
def fr(t, name, src, addr='0x401000', **kw):
    if t == 'gdb':
        return mk('gdb', function_name=name, source_file=src, address=addr, number='3', source_line='7', **kw)
    return mk('core', function_name=name, file_name=src, address=addr, build_id='b1', build_id_offset='0x10', **kw)
def entries(t):
    """(function, source) that the tables know."""
    out = []
    for tab in ('Removable', 'RemovableWithAbove', 'GdbExit', 'CoreExit'):
        for n, ps in T[tab]:
            out += [(n, '../dir/%s:x' % p if p else '/some/thing.c') for p in ps] + ([] if ps else [(n, '/any')])
    return out
def pool(r, t):
    k = r.random()
    if k < .30:
        n, s = r.choice(entries(t))
        if r.random() < .25:
            s = r.choice(['/other.c', NULL, ''])
        if r.random() < .15:
            n = '__GI_' + n
        return fr(t, n, s)
    if k < .42:
        n = '__' + r.choice(T['ArchFuncs']) + r.choice(T['ArchSuffixes']) if r.random() < .9 else '__strlen_avx'
        return fr(t, n, r.choice(['../sysdeps/x86_64/x.S', '/lib64/libc.so.6', NULL, 'strlen.c', 'memcpy.S', '/sysdeps', 'other.c']))
    if k < .54:
        n = r.choice(['IA__g_x', 'IA__gdk_y', 'IA__gtk_z', 'IA__other', '__GI_foo', '__GI_', 'IA__gtk', '__GI_IA__g_q', 'IA__g_log', '__GI___assert_fail', '__GI_exit'])
        return fr(t, n, r.choice(['a.c', NULL, 'gmessages.c', 'exit.c']))
    if k < .66:
        return fr(t, r.choice(['??', NULL] * 6 + ['?', '???', '', '??x']), NULL, r.choice(['0x0', '0x0', '0x5', '0xffffffffffffffff']))
    if k < .70 and t == 'gdb':
        return mk('gdb', signal_handler_called=True)
    return fr(t, r.choice(['f', 'g', 'h', 'main']), r.choice(['a.c', '/home/user/b.c', '/home/x', '/home//y/z.c', '/homes/u/v', 'home/u/v', NULL]), r.choice(['0x10', '0x0']))
