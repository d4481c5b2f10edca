"""Spoiling text: what readers meet besides what writers write."""
import re
from vlib.core import diff
from vlib.gen import NULL
FREE = 'ab:;=/\\"\' .,-_()[]<>{}#%+@~!?*&|^$1092xX\t'
def word(r, n=8, chars=FREE):
    return ''.join(r.choice(chars) for _ in range(r.randint(0, n)))
def spoil(r, text, extra=(), free=FREE):
    """one random change of a text"""
    ls = text.split('\n')
    i = r.randrange(len(ls))
    x = r.random()
    if x < .12: return text[:r.randint(0, len(text))]
    if x < .22: del ls[i]
    elif x < .28: ls.insert(i, ls[r.randrange(len(ls))])
    elif x < .36: ls.insert(i, r.choice(list(extra) + ['', ' ', word(r, 12, free)]))
    elif x < .40 and len(ls) > 1:
        j = r.randrange(len(ls)); ls[i], ls[j] = ls[j], ls[i]
    elif x < .44: return text + r.choice(['\n', '\n\n', ' ', '\t\n', ' \n \n', 'x', '\nx', '\n x\n', '\r\n'])
    elif x < .48: return text.rstrip('\n')
    elif x < .50: return r.choice(['\n', ' ', '\n\n', 'x\n', 'x', '\t']) + text
    else:
        l = ls[i]
        k = r.randint(0, len(l))
        y = r.random()
        if y < .3: l = l[:k] + l[k + 1:]
        elif y < .55: l = l[:k] + r.choice(free) + l[k:]
        elif y < .7: l = l[:k] + r.choice(free) + l[k + 1:]
        elif y < .8: l = l[:k]
        elif y < .9: l = l[k:]
        else: l = l[:k] + word(r, 6, free) + l[k:]
        ls[i] = l
    return '\n'.join(ls)
def spoilt(r, text, most=3, **kw):
    for _ in range(r.choice([0] * 3 + list(range(1, most + 1)) * 2)):
        text = spoil(r, text, **kw)
    return text
def prefixes(text):
    return [text[:i] for i in range(len(text) + 1)]
def without_each_line(text):
    ls = text.splitlines(True)
    return [''.join(ls[:i] + ls[i + 1:]) for i in range(len(ls))]
def read_texts(ctx, typ, part, texts, exp, expect):
    """Texts of a format: read as specified, or refused; whatever is no such text at all is read or refused."""
    def eq(e, g, c):
        g = g[0]
        if e is None:
            return None if g['st'] == NULL and g['err'] not in (None, NULL, '') else 'to be refused with a message: %r\n got %r' % (c['ops'][0]['text'], g)
        if g['st'] == NULL:
            return 'to be read: %r\n refused: %r' % (c['ops'][0]['text'], g['err'])
        m = diff(e, g['st'])
        return m and 'reading %r\n %s' % (c['ops'][0]['text'], m)
    case = lambda t: {'ops': [{'op': 'parse', 'type': typ, 'text': t}]}
    judged = [(t, x) for t, x in zip(texts, exp) if x['how'] != 'any']
    ctx.conform(part, [case(t) for t, x in judged], [expect(x) if x['how'] == 'ok' else None for t, x in judged], eq)
    other = [t for t, x in zip(texts, exp) if x['how'] == 'any']
    if other:
        ctx.conform(part + ': texts that are no such trace', [case(t) for t in other], ['read or refused'] * len(other),
                    lambda e, g, c: None if (g[0]['st'] == NULL) == (g[0]['err'] not in (None, NULL, '')) else 'neither read nor refused with a message: %r\n %r' % (c['ops'][0]['text'], g))
def edits(text, chars=FREE + '\n'):
    """every text one character away"""
    out = [text[:i] + text[i + 1:] for i in range(len(text))]
    for c in dict.fromkeys(chars):
        out += [text[:i] + c + text[i + 1:] for i in range(len(text))] + [text[:i] + c + text[i:] for i in range(len(text) + 1)]
    return list(dict.fromkeys(out))
TIMES = [33, 65, 127, 128, 129, 130, 255, 256, 257, 300]
def stretch(r, text, most=300, long=5000):
    """the text with something in it many times: a line, a run of lines, a word, or a character"""
    ls = text.splitlines(True) or ['']
    k = r.choice([n for n in TIMES if n <= most])
    i = r.randrange(len(ls))
    x = r.random()
    if x < .3: return ''.join(ls[:i] + [ls[i] if ls[i].endswith('\n') else ls[i] + '\n'] * k + ls[i + 1:])
    if x < .45:
        j = min(len(ls), i + r.choice([2, 2, 3]))
        return ''.join(ls[:i] + ls[i:j] * (k // 2) + ls[j:])
    l = ls[i]
    a = r.randrange(len(l) + 1)
    b = min(len(l), a + r.choice([1, 1, 1, 2, 3, 5, 8]))
    if x < .7:   # a word
        w = [m.span() for m in re.finditer(r'\w+', l)]
        if w: a, b = r.choice(w)
    if x > .95: k = long // max(1, b - a)
    ls[i] = l[:a] + l[a:b] * k + l[b:]
    return ''.join(ls)
def numbered(text, n):
    """the text n times, with @@ being the numbers from 0"""
    return ''.join(text.replace('@@', str(i)) for i in range(n))
def large(r, fulls, trace, n, spoil=spoilt):
    """texts with much in them: of whole ones, and of others"""
    out = []
    for i in range(n):
        t = r.choice(fulls) if i % 3 else trace(r)
        t = stretch(r, t, long=3000)
        if r.random() < .2: t = stretch(r, t, 40, 300) if len(t) < 20000 else t
        if r.random() < .2: t = spoil(r, t, 1)
        out.append(t)
    return [t for t in out if len(t) < 60000 and nesting(t)]
def nesting(t, most=40):
    """at most so many open brackets"""
    for a, b in ('()', '<>', '[]'):
        d = 0
        for c in t:
            d = 0 if c == '\n' else d + 1 if c == a else max(0, d - 1) if c == b else d
            if d > most: return False
    return True
