"""JSON documents: between Python values and the nodes of the specification."""
import json
def node(x):
    """Python value -> specification node."""
    if x is None: return {'t': 'null', 'v': ''}
    if isinstance(x, bool): return {'t': 'bool', 'v': x}
    if isinstance(x, int): return {'t': 'int', 'x': hex(x % 2**64), 'd': str(x)}
    if isinstance(x, float): return {'t': 'dbl', 'v': ''}
    if isinstance(x, str): return {'t': 'str', 'v': x}
    if isinstance(x, list): return {'t': 'arr', 'v': [node(y) for y in x]}
    return {'t': 'obj', 'v': [[k, node(v)] for k, v in x.items()]}
def plain(n):
    """Specification node -> Python value."""
    t = n['t']
    if t == 'obj':
        d = {}
        for k, v in n['v']:
            assert k not in d
            d[k] = plain(v)
        return d
    if t == 'arr': return [plain(v) for v in n['v']]
    if t == 'int': return int(n['x'], 16) if n['x'] else int(n['d'])
    if t == 'null': return None
    return n['v']
def pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise ValueError('key %r twice' % k)
        d[k] = v
    return d
def strict(text):
    """Parse JSON text as the standard has it (no duplicate keys)."""
    return json.loads(text, object_pairs_hook=pairs, parse_constant=lambda c: (_ for _ in ()).throw(ValueError(c)))
def same(a, b):
    return type(a) is type(b) and (len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items()) if isinstance(a, dict)
           else len(a) == len(b) and all(map(same, a, b)) if isinstance(a, list) else a == b)
def places(x, path=()):
    """All paths into a Python JSON value, the value itself included."""
    yield path
    if isinstance(x, dict):
        for k in x: yield from places(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)): yield from places(x[i], path + (i,))
def put(x, path, v):
    x = json.loads(json.dumps(x))
    if not path: return v
    y = x
    for k in path[:-1]: y = y[k]
    y[path[-1]] = v
    return x
def at(x, path):
    for k in path: x = x[k]
    return x
