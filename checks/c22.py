"""C22: the scanner all readers are made of."""
import itertools
from vlib.gen import NULL
from vlib.core import diff
MC = 'SPECIFICATION Spec\nCONSTANT Alphabet = {%s}\nCONSTANT MaxLen = %d\nINVARIANTS Bounded Located Unmoved\n'
PLAIN = 'eat parse_digit skip_uint parse_uint32 parse_uint64 skip_hexadecimal_uint skip_hexadecimal_0xuint parse_hexadecimal_uint64 parse_hexadecimal_0xuint64 skip_whitespace skip_non_whitespace skip_to_next_line anonymize_path bin2hex'.split()
CHAR = 'skip_char skip_char_sequence strchr'.split()
SETS = 'skip_char_limited parse_char_limited skip_char_span skip_char_span_location strspn parse_char_span skip_char_cspan parse_char_cspan'.split()
STRS = 'skip_string parse_string strstr'.split()
b = lambda s: list(s.encode('latin-1'))
def call(op, c=0, set=(), **kw): return dict(op=op, c=c, set=list(set), **kw)
def every(text):
    out = []
    al = sorted({*text[:6], 48, 10})[:4]
    for p in range(len(text) + 1):
        here = [call(n) for n in PLAIN] + [call(n, c=c) for n in CHAR for c in al] + [call('indent', c=2), call('indent_rest', c=1)]
        for n in SETS: here += [call(n, set=s) for s in ([], al[:1], al[:2], al)]
        for n in STRS: here += [call(n, set=s) for s in ([], text[p:p + 1], text[p:p + 2], text[p + 1:p + 3], al[:2], text[p:] + [48])]
        for h in here: out += [call('goto', c=p), h]
    return {'text': text, 'calls': out}
PIECES = ['0x', '0', '00', '1f', 'F', '4294967295', '4294967296', '18446744073709551615', '18446744073709551616', '99999999999999999999', 'ffffffffffffffff', '10000000000000000', '0000000000000000000000001', '0xFFFFffff', '\n', '\n\n', ' ', '\t', '\v\f\r', 'abc', '/home/', '/home/u/x', '/', '-', '+', '\xe9', '\xff', 'Thread', '"', 'x', 'g', '9']
def script(r):
    text = b(''.join(r.choice(PIECES) for _ in range(r.randint(0, 12))))
    calls = []
    def cut():
        i = r.randint(0, len(text)); return text[i:i + r.randint(0, 5)]
    for _ in range(r.randint(4, 25)):
        x = r.random()
        if x < .15: calls.append(call('goto', c=r.randint(0, len(text))))
        elif x < .45: calls.append(call(r.choice(PLAIN)))
        elif x < .55: calls.append(call(r.choice(CHAR), c=r.choice(text or [1]) if r.random() < .8 else r.randint(1, 255)))
        elif x < .75: calls.append(call(r.choice(SETS), set=cut() + r.choice([[], b('0123456789'), b(' \n')])))
        elif x < .88: calls.append(call(r.choice(STRS), set=cut()))
        elif x < .92: calls.append(call(r.choice(['indent', 'indent_rest']), c=r.randint(0, 5)))
        elif x < .94: calls.append(call('build_path', list=[r.choice([b('a'), b(''), b('/x'), cut()]) for _ in range(r.randint(1, 3))]))
        elif x < .96: calls.append(call('struniq', list=[r.choice([b('a'), b('b'), b(''), b('ab')]) for _ in range(r.randint(0, 7))]))
        else:
            n = lambda: r.choice([0, 1, 2, 7, 100000])
            c = dict(op='location_cmp' if r.random() < .7 else 'location_string', line=n(), c=n(), line2=n(), c2=n(), messages=r.random() < .5)
            for k in ('set', 'set2'):
                if r.random() < .7: c[k] = r.choice([b(''), b('a'), b('ab'), b('b'), b('Expected a thing, and quite a long one')])
            calls.append(c)
    return {'text': text, 'calls': calls}
def every_long(r, text, set):
    out = []
    for p in (0, 1, len(text) // 2):
        for h in [call(n) for n in PLAIN] + [call(n, c=c) for n in CHAR for c in {set[0], 122}] + [call(n, set=s) for n in SETS for s in (set, [122], [])] + [call(n, set=s) for n in STRS for s in (text[p:], text[p:] + [48], set)] + [call('indent', c=len(text)), call('indent_rest', c=3)]:
            out += [call('goto', c=p), h]
    return {'text': text, 'calls': out}
def files(r):
    t = lambda: [r.choice([10, 32, 97, 255, 1]) for _ in range(r.choice([0, 1, 3, 40, 5000]))]
    return {'calls': [dict(op='write', name=n, text=t()) if r.random() < .5 else dict(op='read', name=n) for n in (r.choice(['a', 'a', 'a', 'b', '.', 'no/x']) for _ in range(r.randint(1, 6)))]}
def eq(e, g, c):
    e = e if isinstance(e, list) else []
    for x, y, o in zip(e, g[0], c['ops'][0]['calls']):
        if isinstance(x.get('val'), dict): x['val'] = []
        m = diff(x, y)
        if m: return 'in the text %r, %r: %s' % (bytes(c['ops'][0].get('text', [])), o, m)
    return None if len(e) == len(g[0]) else 'number of steps: %r' % g
def run(ctx):
    r = ctx.rng
    ctx.model('MCScan', MC % ('10, 48, 120', 4), part='texts of newlines, 0 and x up to 4 long')
    if ctx.thorough: ctx.model('MCScan', MC % ('9, 10, 48, 49, 120', 4), part='texts over five characters up to 4 long')
    texts = [list(t) for n in range(ctx.n(4, 6)) for t in itertools.product([10, 48, 120], repeat=n)] + [list(t) for n in range(ctx.n(3, 5)) for t in itertools.product([9, 102, 57, 34, 255], repeat=n)]
    texts += [b(s) for s in ('/home/u/x', '/home/', '/home/u', '/home//', 'x/home/u/x', '4294967295', '4294967296', '18446744073709551615', '18446744073709551616', '0x' + 'f' * 16, '0x1' + '0' * 16, '0x' + '0' * 20 + '7', '0' * 30 + '9')]
    xs = [every(t) for t in texts]
    for part, xs in (('every step at every place of short texts', xs), ('scripts of steps', [script(r) for _ in range(ctx.n(4000, 60000))])):
        ctx.conform(part, [{'ops': [dict(op='scan', **x)]} for x in xs], ctx.spec_eval('Scan', 'RunScan', xs), eq)
    # long texts
    xs = []
    for n in (31, 64, 100, 127, 128, 130, 255, 256, 257):
        for p in ('7', '0', ' ', '\n', 'a', '\xe9', 'ab', '/', '/home/u'):
            t = b((p * n)[:n] + r.choice(['', 'z', '\n', ' z']))
            xs.append(every_long(r, t, b(p)))
        xs.append({'text': [], 'calls': [call('struniq', list=[b(r.choice('abcdefgh')) for _ in range(n)]), call('build_path', list=[b('x' * n), b('/y' * n), b('')])]})
    ctx.conform('long texts', [{'ops': [dict(op='scan', **x)]} for x in xs], ctx.spec_eval('Scan', 'RunScan', xs), eq)
    xs = [files(r) for _ in range(ctx.n(300, 3000))]
    ctx.conform('files written and read', [{'ops': [dict(op='file', **x)]} for x in xs], ctx.spec_eval('Scan', 'RunFiles', xs), eq)
