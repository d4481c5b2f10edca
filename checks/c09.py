"""C09: a backtrace by gdb is read as it is written."""
from vlib.gen import NULL, U32MAX, st, from_spec
from vlib import textgen
MC = 'SPECIFICATION Spec\nCONSTANTS MaxThreads = %d MaxFrames = %d\nCONSTANT Names <- %s\nCONSTANT Params0 <- %s\nCONSTANT Sites <- %s\nINVARIANTS %s\n'
w = textgen.word
OPS = '>>= >> >= > <<= << <= < ->* -> - == = && &= & || |= | ++ += + -- -= - /= / *= * %= % != ! ~ () [] , ^= ^'.split() + [' new[]', ' new', ' delete[]', ' delete']
NCH = 'abxo1_@.:=!*+-[]~&/%^|,<>() '
def name(r, deep=0):
    x = r.random()
    if x < .3: return r.choice(['raise', 'main', '__GI_abort', 'a::b', '.generic_start', '~x', '*y', 'f@@GLIBC_2.3', 'o', 'operator', 'const_f', 'construct', 'vtable_init', 'in_f', 'for_x', 'at', 'from'])
    if x < .4: return r.choice(['a::', '', 'std::']) + 'operator' + r.choice(OPS) + r.choice(['', '', '', ' ', ' <a>', '<b>', ' bool'])
    if x < .5: return '(anonymous namespace)::' + r.choice(['f', 'g<a>', '~h'])
    if x < .75 and deep < 3: return r.choice(['a', 'b::c', '']) + '<' + ', '.join(name(r, deep + 1) + r.choice(['', '', '*', ' const', ' [with T = int]', ' [with T = a[3]; U = <b>]', '(c)']) for _ in range(r.randint(0, 2))) + r.choice(['', ' ']) + '>' + r.choice(['', '', '::d', '()'])
    if x < .85 and deep < 3: return r.choice(['a', 'b']) + '(' + ', '.join(name(r, deep + 1) for _ in range(r.randint(0, 2))) + ')' + r.choice(['', '::x', '::<lambda()>'])
    return w(r, 8, NCH)
def full_name(r):
    if r.random() < .06: return r.choice(['??', '??x', '???'])
    s = name(r)
    if r.random() < .2: s = r.choice(['void', 'int', 'a<b, c>', 'T*', name(r)]) + r.choice([' ', ' ', ' const ', '  ']) + s
    if r.random() < .15: s += r.choice([' const', ' const', ' constx', ' const const', '  const', ' const '])
    return s
def string(r): return '"' + ''.join(r.choice(['a', ' ', '(', ')', '\\"', '\\\\', '\\n', "'", '#', '...']) for _ in range(r.randint(0, 5))) + '"'
def value(r, deep=0):
    x = r.random()
    if x < .25: return r.choice(['1', '0x7f', '<optimized out>', '<value optimized out>', '@0x1: 3', '...'])
    if x < .5: return r.choice(['0x1 ', '']) + string(r) + r.choice(['', '', '...', ', \'x\' <repeats 20 times>'])
    if x < .65: return r.choice(['34 \'"\'', "40 '('", "41 ')'", "39 '\\''", "92 '\\\\'", "0 '\\000'", "'"])
    if x < .8 and deep < 3: return '{' + ', '.join('m = ' + value(r, deep + 1) for _ in range(r.randint(0, 3))) + '}'
    if x < .9 and deep < 3: return '0x1 <' + r.choice(['g(int)', 'h()', 'k<a>(b)']) + '+5>'
    if x < .94: return '[' + r.choice(['(', '"', "'", '']) + 'abc...(truncated)'
    return w(r, 6)
def params(r): return ', '.join(r.choice(['x', 'this', 'a_b']) + '=' + value(r) for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
def place(r):
    f = r.choice(['a.c', '../sysdeps/unix/x-y.S', '/usr/include/c++/4.6/a+b.h', 'C:\\x.c', '/lib64/libc.so.6', '/usr/lib/libx.so', 'libx.so.1', '/x/lib', '/lib/so', 'a b.c', 'x,y', '', '/usr/libexec/a.so.c', w(r, 5)])
    return r.choice([' at ', ' at ', ' at ', ' from ', '\n    at ', ' at  ', '  from ', ' in ', 'at ', ' at'] if r.random() < .3 else [' at ']) + f + r.choice(['', ':1', ':77', ':4294967295', ':4294967296', ':', ':x', ':007'] if r.random() < .4 else [':12'])
def a_frame(r, n):
    s = '#%s' % n + r.choice(['  ', ' ', '\t', ''] if r.random() < .05 else ['  ', ' '])
    x = r.random()
    if x < .06: return s + r.choice(['<signal handler called>'] * 4 + ['<signal handler called', '<function called from gdb>']) + r.choice(['', '', ' '])
    if x < .8: s += r.choice(['0x7f00001234', '0xc01', '0xFFFFFFFFFFFFFFFF', '0x0', '0x0000000000000007'] + (['0x', '0x10000000000000000', '12', '0xg'] if r.random() < .05 else [])) + (r.choice([' in ', '  in  ', ' in', 'in ', ' ', ' for ', ' in vtable for ', ' in vtable ', ' in  vtable  for  ', ' in VTT for ']) if r.random() < .2 else ' in ')
    s += full_name(r) + r.choice([' ', ' ', ' ', ' ', '\n    ', '  ', '']) + '(' + params(r) + r.choice([')'] * 20 + ['', '))'])
    if r.random() < .8: s += place(r)
    return s
def a_vars(r): return ''.join(r.choice(['        x = 1\n', 'No locals.\n', 'No symbol table info available.\n', '        s = "\\n#1"\n', '\n', '  #3\n', '        Thread = 3\n', 'x Thread\n', w(r) + '\n']) for _ in range(r.choice([0, 0, 1, 2])))
def head(r):
    h = 'Thread ' + r.choice(['1', '2', '33'] + (['', 'x', '4294967296', '007'] if r.random() < .1 else [])) + r.choice([' '] * 9 + ['  ', ''])
    l = lambda: '(LWP %s)' % r.choice(['7', '8', '4294967294', '4294967296', '', 'x', '1 ', '0'] if r.random() < .15 else ['7', '8', '123'])
    x = r.random()
    if x < .6: h += '(Thread %s%s%s)' % (r.choice(['0x7f00', '123', '0xAb'] + (['', '0x', 'x', '0x1g'] if r.random() < .1 else [])), r.choice([' ', ' ', ' ', '', '  ']), l() if r.random() < .85 else '')
    elif x < .8: h += l()
    elif x < .85: h += l() + r.choice(['', ' ']) + '(Thread 12)'
    elif x < .9: h += '(' + w(r, 5) + ')'
    return h + r.choice([':\n'] * 20 + [': \n', '\n', ':'])
LIBS = 'From                To                  Syms Read   Shared Object Library\n0x000a000  0x00b000  Yes         /lib64/libc.so.6\n                        No          linux-gate.so.1\n0xc000  0xd000  Yes (*)     /x y\n'
def trace(r):
    s = r.choice(['', 'Core was generated by `x\'.\n', '[New Thread 3575]\n', w(r) + '\n', '[Thread debugging using libthread_db enabled]\n#'] if r.random() < .9 else ['x'])
    if r.random() < .15: s += LIBS
    if r.random() < .6: s += a_frame(r, 0) + '\n' + r.choice(['', 'x\n', '\n'])
    for t in range(r.choice([0, 1, 1, 1, 2, 3])):
        s += r.choice(['\n', '\n', '\n', '']) + (head(r) if r.random() < .93 else '')
        for n in range(r.choice([1, 1, 2, 3] + [0] * (r.random() < .3))):
            s += a_frame(r, n if r.random() < .97 else r.choice(['4294967295', '4294967296', '-1', 'x', ''])) + '\n' + a_vars(r)
    if r.random() < .25: s += r.choice(['', '\n']) + LIBS + r.choice(['', 'No symbol "__abort_msg" in current context.\n'])
    return s if r.random() < .9 else s.rstrip('\n')
FULL = "Core\n#0  0xc01 in raise (sig=6) at ../x/raise.c:64\n\nThread 2 (Thread 0x7f (LWP 8)):\n#0  0xc02 in wait () from /lib64/libc.so.6\nNo locals.\n#1  void a<b, c>::d(int) const (this=0x1, s=0x2 \"(\\\"\", c=34 '\"') at a.cc:7\n        x = 1\n\nThread 1 (LWP 7):\n#0  0xc01 in raise (sig=6) at ../x/raise.c:64\n#1  <signal handler called>\n#2  0xc03 in operator<< <a> ()\n" + LIBS
SHORT = ['\nThread 1 (Thread 0x1 (LWP 2)):\n#0  f () at a:1\n', '\nThread 1 (LWP 2):\n#0 f ()', '\n#0 0x1 in a b (c=(")\\"")) from d:2\n#1 g ()', '\nThread 1 :\n#0 a const b const (c)\n#2 <signal handler called>']
def expect(x):
    return from_spec(st('gdb', threads=x['threads'], crash=x['crash'], libs=x['libs']))
def run(ctx):
    r = ctx.rng
    ctx.model('MCGdbText', MC % (1, 1, 'NamesV', 'ParamsV', 'SitesV', 'Back Listed After0'), part='a thread of one frame, of every sort')
    ctx.model('MCGdbText', MC % (2, ctx.n(1, 2), 'NamesF', 'ParamsF', 'SitesF', 'Back Listed After0'), part='two threads of up to %d frames' % ctx.n(1, 2))
    texts = [textgen.spoilt(r, trace(r), extra=['#0  f () at a.c:1', 'Thread 7 (LWP 7):', '#1  <signal handler called>'], free=textgen.FREE + NCH) for _ in range(ctx.n(7000, 70000))]
    texts += textgen.prefixes(FULL) + textgen.without_each_line(FULL)
    for s in SHORT:
        texts += textgen.edits(s)
    texts += textgen.large(r, [FULL] + SHORT, trace, ctx.n(500, 5000)) + ['\n\nThread 1 (LWP 7):\n' + textgen.numbered('#@@  0xc0@@ in f@@ (a=1) at x.c:@@\n', n) for n in textgen.TIMES] + ['Core\n' + textgen.numbered('\nThread @@ (LWP 1@@):\n#0  0xc0@@ in f@@ (a=1) at x.c:@@\n', n) + LIBS for n in textgen.TIMES]
    texts = [t for t in dict.fromkeys(texts) if '\v' not in t]
    textgen.read_texts(ctx, 'gdb', 'backtraces as text', texts, ctx.spec_eval('GdbText', 'RunGdb', [{'text': t} for t in texts]), expect)
