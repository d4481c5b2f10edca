"""ownlines.py: planted bugs that change only lines added by own commits to /repo"""
import subprocess, re, glob, os
git = lambda *a: subprocess.run(['git', '-C', '/repo', *a], capture_output=True, text=True).stdout
base = [l for l in git('log', '--format=%H %s').splitlines()]
own = set()
for l in base:
    h, s = l.split(' ', 1)
    if not (s.startswith('fix:') or s.startswith('hook')): break
    own.add(h)
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f = None; kinds = set()
    for l in open(p):
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)); blame = [x.split()[0] for x in git('blame', '-l', '-s', 'HEAD', '--', f).splitlines()]
        elif l.startswith('-') and not l.startswith('---'):
            kinds.add(blame[n - 1] in own); n += 1
        elif l.startswith(' '): n += 1
    if False not in kinds: print(os.path.basename(os.path.dirname(p)), 'own' if kinds else 'only additions')
