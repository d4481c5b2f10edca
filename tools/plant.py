#!/usr/bin/python3
"""tools/plant.py [--nocheck] ID...: confirm planted bugs (applies to /repo, tests pass, demo, check) and undo them."""
import json, os, subprocess, sys, time
S = '/verif/seeded'
def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(S))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert not run('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
    run('bash /opt/vp/build.sh')
    for b in ids:
        d = '%s/%s' % (S, b)
        prop = json.load(open(d + '/meta.json'))['property']
        out = []
        clean = run('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        out.append('demo-clean:%s' % ('ok' if clean.returncode == 0 else 'FAILS ' + (clean.stdout + clean.stderr)[-600:]))
        a = run('git -C /repo apply %s/patch.diff' % d)
        try:
            if a.returncode:
                print(b, 'patch does not apply', a.stderr); continue
            r = run('bash /opt/vp/build.sh')
            if r.returncode:
                print(b, 'build fails', r.stderr[-800:]); continue
            if '--notest' not in sys.argv:
                run('bash /opt/vp/test.sh /tmp/plant.json')
                miss = base - set(json.load(open('/tmp/plant.json'))['passed'])
                out.append('tests:%s' % ('ok' if not miss else 'BROKEN %s' % sorted(miss)[:4]))
            dm = run('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            out.append('demo:%s' % ('detects' if dm.returncode else 'MISSES'))
            if '--nocheck' not in sys.argv:
                t = time.time()
                c = run('bin/check %s' % prop, cwd='/verif', timeout=900, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                caught = c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout
                out.append('check %s:%s (%.0fs)' % (prop, 'CAUGHT' if caught else 'MISSED rc=%d %s' % (c.returncode, c.stderr[-300:]), time.time() - t))
                rp = '/verif/tools/plant_results.json'
                allr = json.load(open(rp)) if os.path.exists(rp) else {}
                allr[b] = {'result': prop + (' quick' if caught else ' (missed)')}
                allr = {k: v for k, v in allr.items() if os.path.isdir(S + '/' + k)}
                json.dump(allr, open(rp, 'w'), indent=1, sort_keys=True)
                if '-v' in sys.argv:
                    out.append(c.stdout[:600])
        finally:
            run('git -C /repo checkout -- .')
            run('bash /opt/vp/build.sh')
        print(b, '; '.join(out), flush=True)
main()
