"""C21: the Python module: histories of operations on objects in lists."""
import json, os, struct, subprocess
from vlib import build, gen, jdoc
from vlib.core import Ctx, diff
from vlib.gen import NULL, TYPES, MULTI
from checks import c03, c06, c09, c10, c11, c12, c13, c14, c15, c16
from checks.c15 import docs_for, damaged
DRIVER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'pydriver.py')
TRACES = {'gdb': c09.trace, 'koops': c10.trace, 'python': c11.trace, 'java': c12.trace, 'ruby': c13.trace, 'js': c14.trace}
def env():
    asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    return {'LD_PRELOAD': asan, 'PYTHONMALLOC': 'malloc', 'PYTHONPATH': build.pyext(True), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONIOENCODING': 'utf-8'}
MC = '''SPECIFICATION Spec
CONSTANTS Type = "%s"
Depth = %d
MaxObjects = 14
INVARIANTS Refused Others Looks Copies Reflexive Mutual Alive Judged
'''
def f32(x): return struct.unpack('f', struct.pack('f', x))[0]
# -- histories
def num(r, n): return {'t': 'int', 's': '', 'x': hex(abs(n)), 'd': str(n), 'neg': n < 0, 'truth': n != 0}
def txt(s): return {'t': 'str', 's': s, 'x': '0x0', 'd': '0', 'neg': False, 'truth': s != ''}
def odd(r, t): 
    b = r.random() < .5
    return {'t': t, 's': '', 'x': '0x1' if b else '0x0', 'd': '1' if b else '0', 'neg': False, 'truth': True if t in ('nul', 'surrogate') else False if t == 'none' else b}
NUMS = [0, 1, 2, 3, 7, 0xffff, 0x10000, 0xfffffffe, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffffe, 0xffffffffffffffff, 0x10000000000000000, 1 << 80, -1, -2, -0x80000000, -0x8000000000000000, -(1 << 70)]
STRS = ['a', 'b', 'ab', '', 'main', '??', 'abort', 'raise', '__libc_start_main', 'f', 'g', 'libx.so', '/usr/lib/liby.so.1', 'x.c', 'é', '日本', 'a b', '%s', 'l\nm', 'python', 'core', 'kerneloops', 'gdb', 'javascript', 'invalid', 'nonsense', 'java', 'ruby', 'fedora', 'x86_64', '1', '<module>']
def val(r, want):
    x = r.random()
    if x < .12: return odd(r, r.choice(['bool', 'none', 'float', 'bytes', 'nul', 'surrogate', 'list', 'del']))
    if x < .17: want = r.choice(['str', 'int'])
    if want == 'str': return txt(r.choice(STRS))
    if want == 'bool': return odd(r, 'bool') if r.random() < .6 else txt(r.choice(STRS)) if r.random() < .5 else num(r, r.choice(NUMS))
    return num(r, r.choice(NUMS[:6]) if r.random() < .5 else r.choice(NUMS))
def attrs(k, t):
    a = []
    if k == 'frame':
        a = [(f, 'str') for f in gen.STR[t]] + [(f, 'int') for f in gen.U64[t] + gen.U32[t]] + [(f, 'bool') for f in gen.BOOL[t]] + ([('function_name', 'str')] * 2 if t == 'java' else [])
    elif k == 'thread': a = {'gdb': [('number', 'int')], 'java': [('name', 'str')], 'core': []}[t] + [('frames', 'str')]
    elif k == 'st':
        a = {'core': [('signal', 'int'), ('executable', 'str'), ('only_crash_thread', 'bool')] * 2, 'gdb': [('libs', 'str'), ('crashframe', 'str')], 'java': [], 'koops': [('version', 'str'), ('raw_oops', 'str'), ('modules', 'str'), ('taint_flags', 'str')]}.get(t, [('exception_name', 'str')] * 3)
        a = a + [('threads' if t in MULTI else 'frames', 'str'), ('crash_thread', 'str')]
    elif k == 'lib': a = [('start_address', 'int'), ('end_address', 'int'), ('soname', 'str'), ('symbols', 'int')] * 3
    elif k == 'os': a = [(x, 'str') for x in ('name', 'version', 'architecture', 'cpe')] + [('uptime', 'int')]
    elif k == 'pkg': a = [(x, 'str') for x in ('name', 'version', 'release', 'architecture')] + [(x, 'int') for x in ('epoch', 'install_time', 'role')]
    elif k == 'report': a = [(x, 'str') for x in ('reporter_name', 'reporter_version', 'component_name', 'report_version', 'report_type', 'report_type', 'auth', 'packages')] + [('serial', 'int'), ('user_root', 'bool'), ('user_local', 'bool')]
    return a
def sel(s, t, r): return {'sel': s, 't': t, 'n': r.randint(0, 30)}
class Gen:
    def __init__(self, r, texts, name):
        self.r, self.texts, self.name = r, texts, name
    def new(self, k, t):
        r = self.r
        args = [r.choice(STRS), '22', 'x86_64'] if k == 'os' else [r.choice(STRS), r.choice(['0', '1', '77']), r.choice(['1.0', '2']), '3', 'noarch'] if k == 'pkg' else []
        return dict(op='new', k=k, t=t, args=args, **self.name)
    def text(self, t, k='st'): return dict(op='text', k=k, t=t, text=self.r.choice(self.texts[t]))
    def json(self, t):
        d = docs_for(self.r, t)
        if self.r.random() < .3: d = damaged(self.r, d)
        return dict(op='json', t=t, doc=jdoc.node(d), text=json.dumps(d), ctor=t == 'core' and self.r.random() < .5)
    def report_json(self):
        d = c16.doc(self.r)
        if self.r.random() < .3: d = damaged(self.r, d)
        return dict(op='report_json', doc=jdoc.node(d), text=json.dumps(d), **self.name)
    def trace(self, t):
        r, x = self.r, self.r.random()
        if t == 'core' or (t != 'gdb' and x < .35): return self.json(t)
        if x < .75: return self.text(t)
        return self.new('st', t)
    def set(self, k, t):
        r = self.r
        a, want = r.choice(attrs(k, t)) if r.random() < .97 else ('nonsense', 'str')
        if a == 'symbols' or a == 'role': v = num(r, r.choice([0, 1, 2, 3, -1, 1 << 32, (1 << 32) + 1, 1 << 64])) if r.random() < .9 else val(r, 'int')
        elif a == 'report_type' and r.random() < .7: v = txt(r.choice(['core', 'python', 'kerneloops', 'gdb', 'javascript', 'java', 'ruby']))
        else: v = val(r, want)
        if v['t'] == 'list' and a in ('frames', 'threads', 'libs', 'packages'): v = num(r, 1)
        return dict(op='set', o=sel(k, t, r), a=a, v=v)
    def edit(self, k, t):
        r = self.r
        multi = t in MULTI
        l = 'libs' if k == 'st' and t == 'gdb' and r.random() < .4 else 'kids'
        want = ('lib', '') if l == 'libs' else ('pkg', '') if k == 'report' else ('thread', t) if k == 'st' and multi else ('frame', t)
        v = sel(*want, r) if r.random() < .96 else sel(r.choice(['any', 'none']), '', r)
        return dict(op='edit', o=sel(k, t, r), l=l, e=r.choice(['append', 'append', 'insert', 'insert', 'pop', 'pop', 'clear', 'reverse', 'assign', 'cut', 'set']), p=r.randint(0, 4), v=v)
    def view(self, t):
        r, multi = self.r, t in MULTI
        ops = ['equals', 'distance', 'duphash', 'bthash', 'short', 'str', 'dup', 'frametext', 'crash', 'fequals']
        if t == 'gdb': ops += ['simple', 'complex', 'address', 'address', 'libnames', 'limit', 'normalize', 'findcrash', 'calls', 'counts', 'quality', 'funs', 'bthash', 'bthash']
        if t == 'koops': ops += ['normalize'] * 2
        if t == 'java': ops += ['counts', 'quality', 'funs']
        if t == 'core': ops += ['crash'] * 3
        op = r.choice(ops)
        def stsel(): return sel('st', t, r)
        th = sel('framed', t, r)
        if op == 'fequals': return dict(op='equals', o=sel('frame', t, r), v=sel('frame', t, r) if r.random() < .9 else sel('compared', '', r))
        if op in ('equals', 'distance'):
            v = sel('framed', t, r) if r.random() < .93 else sel('compared' if op == 'equals' else 'any', '', r)
            return dict(op=op, o=th, v=v, d=r.choice([0, 1, 2, 3, 2, 3] if r.random() < .95 else [-1, 4]))
        if op == 'duphash': return dict(op=op, o=th, n=r.choice([0, 1, 2, 5]), prefix=r.choice(['', 'p', 'long prefix\n']), nonorm=r.random() < .3, compat=r.random() < .2)
        if op == 'bthash': return dict(op=op, o=stsel())
        if op == 'short': return dict(op=op, o=stsel(), n=r.choice([0, 1, 2, 10]))
        if op == 'str': return dict(op=op, o=sel(r.choice(['thread', 'st', 'lib']), '', r))
        if op == 'dup': return dict(op=op, o=sel('copied', t, r))
        if op == 'frametext': return dict(op=op, o=sel('frame', t, r))
        if op in ('counts', 'quality', 'funs'): return dict(op=op, o=sel('rated', t, r))
        if op == 'calls': return dict(op=op, o=sel('frame', 'gdb', r), name=r.choice(['main', 'abort', 'raise', 'a', '??', '']), file=r.choice([NULL, NULL, 'x.c', '.c', 'a', '']))
        if op == 'address': return dict(op=op, o=sel('gdb', '', r), v=val(r, 'int') if r.random() < .4 else num(r, r.choice([0xa000, 0xb000, 0xafff, 0, 1, 2, 3, 7, 0xd000, 0xffffffff])))
        return dict(op=op, o=stsel(), n=r.choice([1, 2, 3, 10, 1, 2, 0, -1]))
    def threads(self, t, n):
        r = self.r
        return [sel('framed', t, r) if r.random() < .985 else sel(r.choice(['framed', 'any', 'none']), '', r) for _ in range(n)]
    def measure(self):
        # matrices of distances, at once and in parts
        r = self.r
        t = r.choice(TYPES + ['gdb'])
        kind = 'thread' if t in MULTI else 'st'
        n = r.choice([2, 2, 3, 3, 4, 5])
        cmds = [self.json(t) if kind == 'st' and r.random() < .4 and t != 'gdb' else self.new(kind, t) for _ in range(n)] + [self.trace(t)] * (r.random() < .4) + [self.new('frame', t) for _ in range(8)]
        if kind == 'thread' and t == 'gdb': cmds += [dict(op='funs_text', text=r.choice(['a\nb\n', 'a\nc\n', 'b l\nx\n']))]
        name = 'name' if t == 'java' else 'function_name'
        cmds += [dict(op='set', o=dict(sel='frame', t=t, n=i), a=name, v=txt('abcabcab'[i])) for i in range(8)]
        fr = list(range(8)); r.shuffle(fr)
        if r.random() < .2: fr[1] = fr[0]
        cmds += [dict(op='edit', o=sel(kind, t, r), l='kids', e=r.choice(['append', 'insert']), p=r.randint(0, 2), v=dict(sel='frame', t=t, n=i)) for i in fr[:r.randint(1, 8)]]
        at = lambda: r.randint(-1, n) if r.random() < .1 else r.randint(0, n - 1) if r.random() < .5 else r.randint(0, 1)
        all = [dict(sel='framed', t=t, n=i) for i in range(n)]
        d, m = r.choice([1, 2, 3]), r.choice([0, 0, n - 1, 1, n])
        np = r.choice([1, 2, 2, 3, 3, 5, 40, 0]) if r.random() < .9 else 0
        rows = min(m or n - 1, n - 1); cells = rows * (rows - 1) // 2 + rows * (n - rows); np1 = min(np, cells)
        what = r.random()
        if what < .7:
            cmds.append(dict(op='parts', n=n, nparts=np, m=m, d=d))
            order = list(range(np1)); r.shuffle(order)
            for p in order:
                if r.random() < .12: cmds.append(r.choice([self.edit(kind, t), dict(op='drop', o=sel('frame', t, r)), self.set('frame', t)]))
                # pickling leaves the part and adds another at the end
                if r.random() < .3: cmds.append(dict(op='pickle', o=dict(sel='part', t='', n=p), p=r.randint(0, 5)))
                cmds.append(dict(op='compute', o=dict(sel='part', t='', n=p) if r.random() < .95 else sel('part', '', r), ts=all if r.random() < .93 else self.threads(t, r.choice([n, n, n - 1, n + 1]))))
                if r.random() < .2: cmds.append(dict(op='pickle', o=dict(sel='part', t='', n=p), p=r.randint(0, 5)))
            mo = list(range(np1)); r.shuffle(mo)
            cmds.append(dict(op='merge', ts=[dict(sel='part', t='', n=p) for p in mo]))
        if what > .6: cmds.append(dict(op='distances', ts=all, m=m or n - 1, d=d))
        for _ in range(r.randint(1, 7)):
            x = r.random()
            if x < .13: cmds.append(dict(op='distances', ts=self.threads(t, n), m=r.choice([1, 2, n - 1, n, n, 0, -1]), d=r.choice([1, 2, 3, 2, 0, 4, -1] if r.random() < .4 else [1, 2, 3])))
            elif x < .2: cmds.append(dict(op='parts', n=r.choice([n, n + 1, 1, 0, 2]), nparts=r.choice([0, 1, 2, 3]), m=r.choice([0, 1, n, -1]), d=r.choice([1, 2, 3, 0, 4])))
            elif x < .3: cmds.append(dict(op='merge', ts=[sel('part', '', r) if r.random() < .97 else sel('any', '', r) for _ in range(r.randint(0, 4))]))
            elif x < .36: cmds.append(dict(op='matrix', m=r.choice([1, 2, 3, 9, 0, -2]), n=r.choice([2, 3, 4, 1, 0])))
            elif x < .55: cmds.append(dict(op='getd', o=sel('dist', '', r), i=at(), j=at()))
            elif x < .7: cmds.append(dict(op='setd', o=sel('dist', '', r), i=at(), j=at(), v=[r.randint(0, 64), 64]))
            elif x < .76: cmds.append(dict(op='dup', o=sel('dist', '', r)))
            elif x < .82: cmds.append(dict(op=r.choice(['size', 'str']), o=sel('dist', '', r)))
            elif x < .86: cmds.append(dict(op='str', o=sel('part', '', r)))
            elif x < .92: cmds.append(dict(op='pickle', o=sel('part', '', r), p=r.randint(0, 5)))
            else: cmds.append(dict(op='drop', o=sel(r.choice(['part', 'dist', kind]), '', r)))
        return cmds
    def history(self):
        if self.r.random() < .15: return self.measure()
        r = self.r
        kind = r.random()
        if kind < .78:
            t = r.choice(TYPES + ['gdb', 'gdb', 'core'])
            cmds = [self.trace(t) for _ in range(r.choice([1, 1, 2]))]
            if t in MULTI: cmds += [self.new('thread', t) for _ in range(r.choice([0, 1, 1]))]
            if t == 'java' and r.random() < .3: cmds.append(self.text('java', 'thread'))
            if t == 'gdb':
                cmds += [self.new('lib', '') for _ in range(r.choice([0, 1, 2]))]
                if r.random() < .2: cmds.append(dict(op='funs_text', text=r.choice(['a\nb\n', '', 'a', 'main\nx\n', '?? b\nc', 'f lib\ng\n'])))
            cmds += [self.new('frame', t) for _ in range(r.choice([0, 1, 2]))]
            u = r.choice(TYPES)
            if r.random() < .12: cmds += [self.new('frame', u), self.trace(u)]
            for _ in range(r.randint(5, 14)):
                x = r.random()
                if x < .22: cmds.append(self.set(*r.choice([('frame', t)] * 5 + [('thread' if t in MULTI else 'st', t), ('st', t)] + ([('lib', '')] * 3 if t == 'gdb' else []))))
                elif x < .5: cmds.append(self.edit(r.choice(['thread', 'st'] if t in MULTI else ['st']), t))
                elif x < .58: cmds.append(dict(op='drop', o=sel(r.choice(['any', 'frame', 'thread', 'listed', 'lib']), '', r)))
                else: cmds.append(self.view(t))
        else:
            t = r.choice([x for x in TYPES if x != 'gdb'] * 3 + ['gdb'])
            cmds = [self.report_json() if r.random() < .5 else self.new('report', '')] + ([self.new('report', '')] if r.random() < .2 else [])
            cmds += [self.new('pkg', '') for _ in range(r.choice([0, 1, 2]))] + [self.new('os', '')] * (r.random() < .5) + [self.trace(t)] * (r.random() < .7)
            if r.random() < .7: cmds += [dict(op='attach', o=sel('report', '', r), a='stacktrace', v=sel('st', t, r), none=False), dict(op='set', o=sel('report', '', r), a='report_type', v=txt({'koops': 'kerneloops', 'js': 'javascript'}.get(t, t)))]
            for _ in range(r.randint(4, 11)):
                x = r.random()
                if x < .3: cmds.append(self.set(*r.choice([('report', ''), ('report', ''), ('os', ''), ('pkg', ''), ('st', t), ('frame', t)])))
                elif x < .5: cmds.append(self.edit('report', ''))
                elif x < .6: cmds.append(self.edit(r.choice(['thread', 'st'] if t in MULTI else ['st']), t))
                elif x < .7: cmds.append(dict(op='attach', o=sel('report', '', r), a=r.choice(['stacktrace', 'operating_system']), v=sel(r.choice(['st', 'os', 'os', 'none', 'any'] if r.random() < .5 else ['st', 'os']), '', r), none=r.random() < .7))
                elif x < .78: cmds.append(dict(op='drop', o=sel(r.choice(['any', 'pkg', 'st', 'frame', 'os']), '', r)))
                elif x < .86: cmds.append(dict(op='str', o=sel(r.choice(['report', 'os', 'pkg', 'st']), '', r)))
                else: cmds.append(dict(op='to_json', o=sel('report', '', r)))
            cmds.append(dict(op='to_json', o=sel('report', '', r)))
        return cmds
    def long(self, t):
        # lists longer than those of other histories
        r, n = self.r, self.r.choice([17, 24, 33])
        kind = 'thread' if t in MULTI else 'st'
        cmds = [self.new(kind, t)] * 2 + [self.new('frame', t)] * n
        name = 'name' if t == 'java' else 'function_name'
        for i in range(n):
            cmds += [dict(op='set', o=dict(sel='frame', t=t, n=i), a=name, v=txt(r.choice('abcdefg') + 'x' * (i % 3))),
                     dict(op='edit', o=dict(sel='framed', t=t, n=i % 7 // 6), l='kids', e='append', p=0, v=dict(sel='frame', t=t, n=i))]
        for _ in range(8): cmds.append(self.view(t) if r.random() < .6 else self.edit(kind, t))
        return cmds + [dict(op='equals', o=dict(sel='framed', t=t, n=0), v=dict(sel='framed', t=t, n=1), d=0), dict(op='distance', o=dict(sel='framed', t=t, n=0), v=dict(sel='framed', t=t, n=1), d=r.choice([1, 2, 3]))]
# -- judging
ALIAS = {('lib', 'from'): ['start_address'], ('lib', 'to'): ['end_address'], ('frame', 'name'): ['name', 'function_name']}
REPORT_TYPES = {'koops': 'kerneloops', 'js': 'javascript'}
def as_python(k, name, x):
    if name == 'report_type': return REPORT_TYPES.get(x, x)
    if name == 'auth': return {a: b for a, b in x}
    if isinstance(x, str):
        if x == NULL: return None
        if name in NUMERIC64: return None if x == '0xffffffffffffffff' else int(x, 16)
        if name in NUMERIC: return int(x)
    return x
NUMERIC64 = {f for t in TYPES for f in gen.U64[t]} | {'uptime', 'install_time', 'from', 'to'}
NUMERIC = {f for t in TYPES for f in gen.U32[t]} | {'epoch', 'role', 'serial', 'report_version', 'signal', 'number'}
CLASSES = {'RangeError': ('ValueError', 'OverflowError')}
def near(v, w): return abs(v[0] / v[1] - float(w)) <= 2e-5
def matrix(f, y):
    if (f['m'], f['n']) != (y['m'], y['n']): return 'size: specified %s, code gives %s' % ((f['m'], f['n']), (y['m'], y['n']))
    for i, row in enumerate(f['v']):
        for j, v in enumerate(row):
            if v != [] and not near(v, y['v'][i][j]): return 'distance of %d and %d: specified %s/%s, code gives %s' % (i, i + 1 + j, v[0], v[1], y['v'][i][j])
def part(f, p):
    if [f[k] for k in ('m', 'n', 'i', 'j', 'len', 'd')] != p[:6]: return 'specified %s, code gives %s' % (f, p)
    v = f['done']['v']
    if f['done']['sum'] == [-1]: return None if p[7] is None else 'specified not to be computed'
    if p[7] is None or len(p[7]) != len(v) or not all(map(near, v, p[7])): return 'specified %s, code gives %s' % (v, p[7])
def eq(e, g, c):
    if len(e['outs']) < len(g['outs']): return 'specification stopped early'
    for i, (x, y) in enumerate(zip(e['outs'], g['outs'])):
        cmd = c['cmds'][i]
        at = 'step %d %s: ' % (i + 1, json.dumps({k: v for k, v in cmd.items() if k not in ('doc', 'text')}))
        if x['r'] in ('skip', 'stop'): continue
        if x['r'] != 'ok':
            want = CLASSES.get(x['r'], (x['r'],))
            if y['r'] == 'ok' or not any(w in y['r'] for w in want):
                return at + 'specified %s, code %s' % (x['r'], 'gives %r' % (y.get('val'),) if y['r'] == 'ok' else 'raises %s' % y['r'][0])
            continue
        if y['r'] != 'ok': return at + 'specified to work, code raises %s: %s' % (y['r'][0], y['msg'])
        if x['n'] != y['n']: return at + 'specified %d objects, code gives %d' % (x['n'], y['n'])
        v, w = x['val'], y['val']
        op = cmd['op']
        if op in ('distance', 'quality', 'simple', 'complex'):
            if abs(v[0] / v[1] - float(w)) > 2e-5 * max(1, abs(float(w))): return at + 'specified %s/%s, code gives %s' % (v[0], v[1], w)
        elif op == 'getd':
            if v != [] and not near(v, w): return at + 'specified %s/%s, code gives %s' % (v[0], v[1], w)
        elif op == 'to_json':
            try: doc = jdoc.strict(w)
            except ValueError as ex: return at + 'not a JSON document (%s): %s' % (ex, w[:500])
            want = jdoc.plain(v)
            if not jdoc.same(want, doc): return at + (diff(want, doc, 'doc') or 'differs')
        elif op == 'str':
            if v != NULL and v != w: return at + 'specified %r, code gives %r' % (v, w)
        else:
            m = diff(v, w, '')
            if m: return at + m
    if g['dump'] is None: return 'the history was given up'
    for x, y in zip(e['dump'], g['dump']):
        at = '%s %s (object %d) in the end: ' % (x['t'], x['k'], x['id'])
        for k in ('id', 'k', 't', 'kids', 'libs', 'a', 'b', 'refs'):
            if x[k] != y[k]: return at + '%s: specified %s, code gives %s' % (k, x[k], y[k])
        if x['k'] in ('dist', 'part'):
            m = matrix(x['f'], y) if x['k'] == 'dist' else part(x['f'], y['part'])
            if m: return at + m
            continue
        for name, v in x['f'].items():
            for a in ALIAS.get((x['k'], name), [name]):
                if a in y['f']:
                    m = diff(as_python(x['k'], name, v), y['f'][a], a)
                    if m: return at + m
    if len(e['dump']) != len(g['dump']): return 'specified %d objects in the end, code has %d' % (len(e['dump']), len(g['dump']))
def run(ctx):
    r = ctx.rng
    extra = env()
    drive = lambda cases: ctx.drive(cases, env=extra, exe=DRIVER)
    texts = {t: [TRACES[t](r) for _ in range(60)] for t in TRACES}
    flat = [(t, x) for t in texts for x in texts[t] if '\0' not in x]
    how = ctx.spec_eval('Bind', 'Run', [dict(cmds=[dict(op='text', k='st', t=t, text=x)]) for t, x in flat])
    # texts that end in an object, and a few that are refused
    texts = {t: [] for t in TRACES}
    for (t, x), h in zip(flat, how):
        if h['outs'][0]['r'] == 'ok': texts[t].append(x)
    for (t, x), h in zip(flat, how):
        if h['outs'][0]['r'] not in ('ok', 'stop') and r.random() < .3 * len(texts[t]) / 60: texts[t].append(x)
    g = Gen(r, texts, {'name': 'satyr', 'version': '0.43'})
    cases = [{'cmds': g.history()} for _ in range(ctx.n(1500, 15000))] + [{'cmds': g.long(t)} for t in TYPES for _ in range(ctx.n(3, 20))]
    exp = ctx.spec_eval('Bind', 'Run', cases)
    for c, e in zip(cases, exp): c['outs'] = e['outs']
    ctx.conform('histories', cases, exp, eq, drive=drive)
    # dendrograms
    mats = [c for c in c03.matrices(ctx)]
    mats = r.sample(mats, min(len(mats), ctx.n(500, 4000)))
    cases = [dict(kind='dendro', m=m, n=n, d=[[v / div for v in row] for row in b], at=[r.randint(-1, n) for _ in range(3)], level=r.choice(sum(b, [0])) / div + r.choice([0, 1 / 4096, -1 / 4096]), min=r.choice([1, 1, 2, 3])) for m, n, b, div, scale in mats]
    got = drive(cases)
    ask, cuts, idx = [], [], []
    for i, ((m, n, b, div, scale), g) in enumerate(zip(mats, got)):
        if isinstance(g, dict) and 'order' in g:
            ask.append(dict(m=m, n=n, base=b, scale=scale, order=g['order'], levels=[round(x * div * scale) for x in g['levels']])); idx.append(i)
            cuts.append(dict(order=g['order'], levels=[0 if x <= float(f32(cases[i]['level'])) else 2 for x in g['levels']], level=1, min=cases[i]['min']))
    ans = dict(zip(idx, zip(ctx.spec_eval('Cluster', 'RunExplains', ask), ctx.spec_eval('Cluster', 'RunCut', cuts))))
    def deq(e, g, c):
        n = c['n']
        if not e or not e[0]: return 'no behaviour of the clustering specification ends in order %s with levels %s' % (g['order'], g['levels'])
        if sorted(map(tuple, e[1])) != sorted(map(tuple, g['cut'])): return 'cut: specified %s, code gives %s' % (e[1], g['cut'])
        if g['size'] != n or g['str'] != 'Dendrogram with %d objects' % n: return 'size'
        for i, x, y in zip(c['at'], g['objects'], g['merges']):
            if x != (g['order'][i] if 0 <= i < n else 'ValueError'): return 'object at %d: %s' % (i, x)
            if y != (g['levels'][i] if 0 <= i < n - 1 else 'ValueError'): return 'merge level at %d: %s' % (i, y)
        if not g['kept']: return 'the matrix was changed'
    ctx.conform('dendrograms', cases, [ans.get(i) for i in range(len(cases))], deq, drive=drive)
    for t in ('koops', 'java'): ctx.model('MCBind', MC % (t, 2), part='all short histories of %s objects' % t)
    if ctx.thorough:
        for t in ('gdb', 'core'): ctx.model('MCBind', MC % (t, 2), part='all short histories of %s objects' % t)
        ctx.model('MCBind', MC % ('python', 3), part='longer histories of python objects')
    ctx.assumptions += ['objects that would hold themselves are left out: Python never releases them', 'the text of frames is not judged in str()']
