#!/usr/bin/python3
"""Executes histories of operations on the Python module: which objects take
part is given with each operation; what the calls return and what the objects
look like in the end is reported."""
import json, pickle, signal, sys
import satyr
NAMES = {'core': 'Core', 'gdb': 'Gdb', 'java': 'Java', 'python': 'Python', 'ruby': 'Ruby', 'js': 'JavaScript'}
def cls(k, t):
    if k == 'lib': return satyr.GdbSharedlib
    if k == 'os': return satyr.OperatingSystem
    if k == 'pkg': return satyr.RpmPackage
    if k == 'report': return satyr.Report
    if k == 'dist': return satyr.Distances
    if k == 'part': return satyr.DistancesPart
    if t == 'koops': return satyr.Kerneloops if k == 'st' else satyr.KerneloopsFrame
    return getattr(satyr, NAMES[t] + {'frame': 'Frame', 'thread': 'Thread', 'st': 'Stacktrace'}[k])
KINDS = {cls(k, t): (k, t) for t in list(NAMES) + ['koops'] for k in ('frame', 'st')}
KINDS.update({cls('thread', t): ('thread', t) for t in ('core', 'gdb', 'java')})
KINDS.update({cls(k, ''): (k, '') for k in ('lib', 'os', 'pkg', 'report', 'dist', 'part')})
MULTI = ('core', 'gdb', 'java')
HIDDEN = {'crash_thread', 'crashframe', 'frames', 'threads', 'libs', 'packages', 'operating_system', 'stacktrace', 'modules', 'taint_flags', 'function_name' }
ATTRS = {}
for c, (k, t) in KINDS.items():
    ATTRS[k, t] = [a for a in dir(c) if not a.startswith('__') and type(getattr(c, a)).__name__ == 'getset_descriptor' and (a not in HIDDEN or (a == 'function_name' and k == 'frame'))]
FOREIGN = ['x', 7, 2.5, {'a': 1}]
class Diverged(Exception): pass
def value(v):
    t = v['t']
    if t == 'str': return v['s']
    if t == 'int': return -int(v['x'], 16) if v['neg'] else int(v['x'], 16)
    if t == 'bool': return v['truth']
    if t == 'none': return None
    if t == 'float': return 1.5 if v['truth'] else 0.0
    if t == 'bytes': return b'abc' if v['truth'] else b''
    if t == 'nul': return 'core\0b'
    if t == 'surrogate': return 'a\ud800'
    if t == 'list': return [1] if v['truth'] else []
def plain(x):
    return repr(x) if isinstance(x, float) else x
def kids_of(o, k, t):
    """The objects a new object brings along, in order."""
    if k == 'thread' or (k == 'st' and t not in MULTI): return list(o.frames)
    if k == 'st':
        r = [x for th in o.threads for x in [th] + list(th.frames)]
        if t == 'gdb':
            r += list(o.libs)
            if o.crashframe is not None: r.append(o.crashframe)
        return r
    if k == 'report':
        r = ([o.operating_system] if o.operating_system is not None else []) + list(o.packages)
        if o.stacktrace is not None:
            r.append(o.stacktrace); r += kids_of(o.stacktrace, *KINDS[type(o.stacktrace)])
        return r
    return []
class Heap:
    def __init__(self):
        self.table, self.ids = [], {}
    def add(self, o):
        self.table.append(o); self.ids[id(o)] = len(self.table)
    def new(self, o):
        self.add(o)
        for x in kids_of(o, *KINDS[type(o)]): self.add(x)
    def which(self, o):
        return 0 if o is None else self.ids.get(id(o), -1) if type(o) in KINDS else -1
    def step(self, c, x):
        op, ids = c['op'], x['ids']
        T = self.table
        o = T[ids[0] - 1] if ids and op not in ('new', 'text', 'funs_text', 'json', 'report_json', 'distances', 'matrix', 'parts', 'merge') else None
        ts = [T[j - 1] if j else FOREIGN[0] for j in (ids[1:] if op == 'compute' else ids)] if 'ts' in c else None
        v = T[ids[1] - 1] if len(ids) > 1 and ids[1] and op in ('edit', 'attach', 'equals', 'distance') else FOREIGN[c['v']['n'] % len(FOREIGN)] if op in ('edit', 'attach') and 'v' in c else None
        if op == 'new':
            a = list(c['args'])
            if c['k'] == 'pkg': a[1] = int(a[1])
            self.new(cls(c['k'], c['t'])(*a)); return ''
        if op == 'text': self.new(cls(c['k'], c['t'])(c['text'])); return ''
        if op == 'funs_text': self.new(satyr.GdbThread(c['text'], True)); return ''
        if op == 'json': self.new(cls('st', c['t'])(c['text']) if c['ctor'] else cls('st', c['t']).from_json(c['text'])); return ''
        if op == 'report_json': self.new(satyr.Report(c['text'])); return ''
        if op == 'set':
            if c['v']['t'] == 'del': delattr(o, c['a'])
            else: setattr(o, c['a'], value(c['v']))
            return ''
        if op == 'edit':
            k, t = KINDS[type(o)]
            n = 'libs' if c['l'] == 'libs' else 'packages' if k == 'report' else 'threads' if k == 'st' and t in MULTI else 'frames'
            l, e, p = getattr(o, n), c['e'], c['p']
            if e == 'append': l.append(v)
            elif e == 'insert': l.insert(p % (len(l) + 1), v)
            elif e == 'pop': l.pop(p % len(l))
            elif e == 'clear': l.clear()
            elif e == 'reverse': l.reverse()
            elif e == 'assign': setattr(o, n, l[:p] + [v])
            elif e == 'cut': setattr(o, n, l[:p])
            elif e == 'set': l[p % len(l)] = v
            return ''
        if op == 'attach':
            setattr(o, c['a'], None if not ids[1] and c['none'] else v); return ''
        if op == 'distances': self.new(satyr.Distances(ts, c['m'], c['d']) if c['d'] != 2 or c['m'] % 2 else satyr.Distances(ts, c['m'])); return ''
        if op == 'matrix': self.new(satyr.Distances(c['m'], c['n'])); return ''
        if op == 'parts':
            for y in satyr.DistancesPart.create(c['n'], c['nparts'], m=c['m'], dist_type=c['d']) if c['m'] else satyr.DistancesPart.create(c['n'], c['nparts'], dist_type=c['d']): self.add(y)
            return ''
        if op == 'merge': self.new(satyr.Distances.merge_parts(ts)); return ''
        if op == 'compute': o.compute(ts); return ''
        if op == 'pickle': self.new(pickle.loads(pickle.dumps(o, c['p'] % 6))); return ''
        if op == 'getd': return o.get_distance(c['i'], c['j'])
        if op == 'setd': o.set_distance(c['i'], c['j'], c['v'][0] / c['v'][1]); return ''
        if op == 'size': return list(o.get_size())
        if op == 'drop': T[ids[0] - 1] = None; return ''
        if op == 'dup': self.new(o.dup()); return ''
        if op == 'equals': return o.equals(v)
        if op == 'distance': return o.distance(v, c['d'])
        if op == 'frametext': return o.short_string()
        if op == 'calls': return o.calls_func(c['name']) if c['file'] == '@null' else o.calls_func_in_file(c['name'], c['file'])
        if op in ('normalize', 'limit', 'libnames', 'findcrash'):
            if op == 'limit': o.limit_frame_depth(c['n'])
            elif op == 'libnames': o.set_libnames()
            elif op == 'findcrash': self.add(o.find_crash_frame())
            else: o.normalize()
            if op in ('limit', 'normalize'):
                for y in kids_of(o, *KINDS[type(o)]) if type(o) is satyr.Kerneloops else [z for th in o.threads for z in [th] + list(th.frames)]: self.add(y)
            return ''
        if op == 'to_json': return o.to_json()
        if op == 'str': return str(o)
        if op == 'duphash':
            return o.get_duphash(frames=c['n'], flags=satyr.DUPHASH_NOHASH | (satyr.DUPHASH_NONORMALIZE if c['nonorm'] else 0) | (satyr.DUPHASH_KOOPS_COMPAT if c['compat'] else 0), prefix=c['prefix'])
        if op == 'bthash': return o.get_bthash(satyr.BTHASH_NOHASH)
        if op == 'short': return o.to_short_text(c['n'])
        if op == 'crash': return self.which(o.crash_thread)
        if op == 'counts': return list(o.quality_counts())
        if op == 'quality': return o.quality()
        if op == 'funs': return o.format_funs()
        if op == 'simple': return o.quality_simple()
        if op == 'complex': return o.quality_complex()
        if op == 'address': return self.which(o.find_address(value(c['v'])))
        raise RuntimeError('HARNESS: ' + op)
    def dump(self):
        out = []
        for i in range(len(self.table)):
            o = self.table[i]
            if o is None: continue
            refs = sys.getrefcount(o) - 2
            k, t = KINDS[type(o)]
            d = {'id': i + 1, 'k': k, 't': t, 'refs': refs, 'f': {a: getattr(o, a) for a in ATTRS[k, t]}, 'libs': [], 'kids': [], 'a': 0, 'b': 0}
            if k == 'thread' or k == 'st': d['kids'] = [self.which(x) if type(x) in KINDS else 0 for x in (o.threads if k == 'st' and t in MULTI else o.frames)]
            if k == 'st' and t == 'gdb': d['libs'] = [self.which(x) if type(x) in KINDS else 0 for x in o.libs]; d['a'] = self.which(o.crashframe)
            if k == 'report':
                d['kids'] = [self.which(x) if type(x) in KINDS else 0 for x in o.packages]
                d['a'], d['b'] = self.which(o.operating_system), self.which(o.stacktrace)
            if k == 'dist': d['m'], d['n'] = o.get_size(); d['v'] = [[o.get_distance(i, j) for j in range(i + 1, d['n'])] for i in range(d['m'])]
            if k == 'part': d['part'] = list(o.__reduce__()[1]); d['part'][6] = 0
            out.append(d)
        return out
def run(case):
    h, outs = Heap(), []
    for c, x in zip(case['cmds'], case['outs']):
        if x['r'] in ('skip', 'stop'): outs.append({'r': x['r']}); continue
        o = {}
        try:
            val = h.step(c, x); o = {'r': 'ok', 'val': plain(val)}
        except Exception as e:
            o = {'r': [k.__name__ for k in type(e).__mro__], 'msg': str(e).encode('utf-8', 'replace').decode()}
            del e
        o['n'] = len(h.table); outs.append(o)
        if (o['r'] == 'ok') != (x['r'] == 'ok') or o['n'] != x['n']: return {'outs': outs, 'dump': None}
    return {'outs': outs, 'dump': h.dump()}
def main():
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    with open(sys.argv[1]) as f: cases = f.read().split('\n')[:-1]
    with open(sys.argv[2], 'a') as out:
        for line in cases[int(sys.argv[3]):]:
            signal.alarm(30)
            case = json.loads(line)
            try:
                text = json.dumps(run(case) if 'cmds' in case else METRICS[case['kind']](case))
            except Exception as e:
                import traceback; traceback.print_exc()
                print('HARNESS: %r' % e, file=sys.stderr); sys.exit(3)
            signal.alarm(0)
            out.write(text + '\n'); out.flush()
def attempt(f, *a):
    try: return f(*a)
    except Exception as e: return type(e).__name__
def dendro(c):
    d = satyr.Distances(c['m'], c['n'])
    for i, row in enumerate(c['d']):
        for j, v in enumerate(row): d.set_distance(i, i + 1 + j, v) if (i + j) % 2 else d.set_distance(i + 1 + j, i, v) if i + 1 + j < d.get_size()[0] else d.set_distance(i, i + 1 + j, v)
    view = lambda: [[d.get_distance(i, j) for j in range(d.get_size()[1])] for i in range(d.get_size()[0])]
    before = view()
    g = satyr.Dendrogram(d)
    n = g.get_size()
    return {'size': n, 'str': str(g), 'order': [g.get_object(i) for i in range(n)], 'levels': [g.get_merge_level(i) for i in range(n - 1)], 'cut': g.cut(c['level'], c['min']),
            'objects': [attempt(g.get_object, i) for i in c['at']], 'merges': [attempt(g.get_merge_level, i) for i in c['at']], 'kept': view() == before}
METRICS = {'dendro': dendro}
if __name__ == '__main__':
    main()
