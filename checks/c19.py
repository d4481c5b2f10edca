"""C19: the operating system is identified from os-release and system-release texts."""
from vlib.core import diff
MC = 'SPECIFICATION Spec\nCONSTANT MaxLines = %d\nINVARIANTS Newline Names Rawhide Versions First Noise Quotes\n'
KEYS = ['ID', 'ID', 'VERSION_ID', 'VERSION_ID', 'VERSION', 'CPE_NAME', 'VARIANT_ID', 'NAME', 'PRETTY_NAME', 'id', 'ID ', ' ID', 'XID', 'VERSION_I', 'VERSION_IDS', '', 'HOME_URL', 'VARIANT']
VALS = ['fedora', '"fedora"', "'rhel'", '20', '"7.0"', '"20 (Heisenbug)"', '"21 (Rawhide)"', '(Rawhide)', '"(rawhide)"', 'cpe:/o:fedoraproject:fedora:20', '', '""', '\\', '\\\\', 'a\\', '"a\\"b"', "a\\'b", "it's", '"', '\\n', 'a=b', '=', '#x', 'a b ', '\\"', '\\\\"x"', '(\\Rawhide)', "(Raw'hide)", 'Fedora release 20', 'workstation']
def os_line(r):
    x = r.random()
    if x < .12:
        return r.choice(['', '#', '#ID=x', ' ', 'x', 'ID', '=', '=x', '=ID=x', '==', '# comment', '#VERSION=(Rawhide)', 'noise without equals', '\\', '"'])
    return r.choice(KEYS) + '=' + (''.join(r.choice(VALS) + r.choice(['', ' ', 'x']) for _ in range(r.choice([1, 2, 3]))) if r.random() < .4 else r.choice(VALS) if r.random() < .7 else ''.join(r.choice('ab1\\\'"= (#') for _ in range(r.randint(0, 6))))
def os_release(r):
    return '\n'.join(os_line(r) for _ in range(r.choice([1, 2, 3, 4, 6, 9]))) + r.choice(['\n', '\n', '', '\n\n'])
def good_os(r):
    ls = ['ID=' + r.choice(VALS), r.choice(['VERSION_ID=20', 'VERSION="21 (Rawhide)"', 'VERSION=' + r.choice(['', '"']) + r.choice(['', '41 ']) + '(Rawhide)' + r.choice(['', ' ', ' Prerelease', '"', ')'])])] + [os_line(r) for _ in range(r.randint(0, 4))]
    r.shuffle(ls)
    return '\n'.join(ls) + r.choice(['\n', ''])
def system_release(r):
    return r.choice(['Fedora', 'Red Hat Enterprise Linux Server', 'RED HAT enterprise LINUX', 'red hat enterprise linu', 'CentOS Linux', '', ' ', 'A release B', 'X', 'Scientific Linux', 'Red Hat Enterprise Linux']) + \
        r.choice([' release ', ' release ', ' release ', ' Release ', ' release', 'release ', ' release  ', ' ']) + r.choice(['20', '7.0', '7.0 (Maipo)', '20 (Heisenbug)', '', 'Rawhide', '.', '..5x', '1.2.3-4', ' 7', '20\n', 'x\n', ' release 9']) + r.choice(['', '', '\n', ' (Core)\n'])
def run(ctx):
    r = ctx.rng
    ctx.model('MCOs', MC % ctx.n(3, 4), part='os-release files of up to %d lines' % ctx.n(3, 4))
    texts = ['', '\n', '='] + [f(r) for f in (os_release, good_os, system_release) for _ in range(ctx.n(1200, 15000))]
    # every prefix of a full file: text may end anywhere
    full = 'NAME=Fedora\n#x=y\nVERSION="20 (Heisenbug)"\nID=fedora\nnoise\nVERSION_ID=20\nVARIANT_ID="w\\"x"\nCPE_NAME="cpe:/o:f:f:20"\n'
    texts += [full[:i] for i in range(len(full) + 1)] + ['Red Hat Enterprise Linux release 7.0 (Maipo)\n'[:i] for i in range(47)]
    # long texts, long values
    texts += ['\n'.join(os_line(r) for _ in range(n)) + '\n' + good_os(r) for n in [20, 40, 70, 130] for _ in range(3)]
    texts += ['%s=%s\n%s' % (k, v, good_os(r)) for k in ('ID', 'VERSION_ID', 'CPE_NAME', 'VERSION', 'X', 'X' * 300) for n in (63, 64, 100, 255, 256, 300) for v in ('a' * n, '"' + 'b' * n + '"', '\\' * n, ' ' * n + '(Rawhide)')]
    texts += ['a' * n + ' release ' + '7' * m + t for n in (64, 255, 300) for m in (1, 64, 300) for t in ('', '\n', ' (Core)\n')]
    texts = list(dict.fromkeys(texts))
    exp = ctx.spec_eval('Os', 'RunOs', [dict(text=t) for t in texts])
    ctx.conform('texts', [{'ops': [dict(op='os_parse', text=t)]} for t in texts], exp, lambda e, g, c: diff(e, g[0]))
