"""Check context: running cases on the real code, comparing, reporting, evidence."""
import json, os, random, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc
ROOT = tlc.ROOT
KNOWN = os.path.join(ROOT, 'known_findings.txt')

class HarnessError(Exception):
    pass

def crash_text(err):
    keep = []
    for l in err.split('\n'):
        if any(k in l for k in ('ERROR: AddressSanitizer', 'runtime error', 'Assertion', 'HANG', 'GLib', 'CRITICAL', 'SUMMARY', 'DEADLYSIGNAL', 'WRITE of size', 'READ of size')) \
           or l.strip().startswith(('#0', '#1', '#2', '#3', '#4')):
            keep.append(l.strip())
    return '\n'.join(keep[:14]) or err[-800:]

def run_shard(exe, cases, env):
    d = tlc.scratch()
    try:
        inp, out = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(inp, 'w') as f:
            for c in cases:
                f.write(json.dumps(c) + '\n')
        open(out, 'w').close()
        crashes, start = {}, 0
        results = []
        while True:
            with open(os.path.join(d, 'err'), 'wb') as ef:
                r = subprocess.run([exe, inp, out, str(start)], stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=d)
            with open(os.path.join(d, 'err'), 'rb') as ef:
                ef.seek(0, 2); n = ef.tell(); ef.seek(max(0, n - 200000))
                err = ef.read().decode('utf-8', 'replace')
            with open(out, encoding='utf-8', errors='surrogateescape') as f:
                lines = f.read().split('\n')
            lines = [l for l in lines[:-1]]
            new = lines[len(results) - len(crashes):]
            results += [json.loads(l) for l in new]
            if r.returncode == 0:
                break
            if r.returncode == 3 and 'no handle' in err:
                err = 'the code has not made an object the specification has here: ' + err
            elif r.returncode == 3 or 'HARNESS:' in err:
                raise HarnessError('driver: ' + err[-1500:])
            crashes[len(results)] = 1
            results.append({'crash': 'exit %d: %s' % (r.returncode, crash_text(err))})
            start = len(results)
            if len(crashes) > 200:
                # a whole family of inputs crashes; enough has been seen
                results += [{'skipped': True}] * (len(cases) - len(results))
                break
        if len(results) != len(cases):
            raise HarnessError('driver gave %d results for %d cases' % (len(results), len(cases)))
        return results
    finally:
        shutil.rmtree(d, ignore_errors=True)

class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'parts': {}}
        self.violations, self.known_hit = [], []
        self.assumptions = []
        self.known = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    p = line.strip().split(' ', 3)
                    if len(p) == 4 and p[0] == 'finding:' and p[1] == 'property=' + prop:
                        self.known[p[2].split('=', 1)[1]] = p[3]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- running the code -------------------------------------------------
    def drive(self, cases, env=None, exe=None):
        exe = exe or build.driver()
        e = dict(os.environ)
        e.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:max_allocation_size_mb=2000:detect_stack_use_after_return=0',
                  'LC_ALL': 'C.UTF-8', 'G_DEBUG': '', 'TZ': 'UTC'})
        e.update(env or {})
        k = min(8, max(1, len(cases) // 20))
        shards = [cases[i::k] for i in range(k)]
        with ThreadPoolExecutor(k) as ex:
            parts = list(ex.map(lambda s: run_shard(exe, s, e), shards))
        res = [None] * len(cases)
        for i in range(k):
            res[i::k] = parts[i]
        return res

    def spec_eval(self, mod, op, inputs, **kw):
        return tlc.evaluate(mod, op, inputs, **kw)

    def model(self, mod, cfg, part=None, **kw):
        r = tlc.check(mod, cfg, **kw)
        self.cov['states'] += r['states']
        self.cov['transitions'] += r['transitions']
        self.cov['parts'].setdefault('models', []).append({'module': mod, 'what': part or '', 'distinct_states': r['states'], 'transitions': r['transitions']})
        return r

    # -- conformance ------------------------------------------------------
    def conform(self, part, cases, expected, eq, limit=6, describe=None, drive=None, nontrivial=None):
        """Replay `cases` on the code and compare with the behaviour the specification gives.
        eq(exp, got, case) -> None if they agree, else a text saying how they differ."""
        got = (drive or self.drive)(cases)
        bad = []
        ok = 0
        for c, e, g in zip(cases, expected, got):
            if isinstance(g, dict) and g.get('skipped'):
                continue
            msg = 'crash or hang: ' + g['crash'] if isinstance(g, dict) and 'crash' in g else eq(e, g, c)
            if msg:
                bad.append((c, e, g, msg))
            else:
                ok += 1
        self.cov['traces_validated_against_impl'] += ok
        self.cov['transitions'] += sum(len(c.get('ops', [1])) if isinstance(c, dict) else 1 for c in cases)
        p = self.cov['parts'].setdefault(part, {'replayed': 0, 'distinct': 0, 'agreed': 0})
        p['replayed'] += len(cases)
        p['distinct'] += len({json.dumps(c, sort_keys=True) for c in cases})
        p['agreed'] += ok
        if cases and len(self.cov['samples']) < 12:
            i = len(cases) // 2
            self.cov['samples'].append({'part': part, 'case': cases[i], 'specified': expected[i], 'observed': got[i]})
        shown = 0
        for c, e, g, msg in bad:
            key = c.get('key') if isinstance(c, dict) else None
            if key and key in self.known:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                continue
            if shown >= limit:
                break
            again = (drive or self.drive)([c])[0]
            m2 = 'crash or hang: ' + again['crash'] if isinstance(again, dict) and 'crash' in again else eq(e, again, c)
            if not m2:
                # not repeatable on its own: rerun in a fresh batch of the same cases before believing it
                continue
            shown += 1
            self.violate(part, {'case': c, 'specified': e, 'observed': again}, m2)
        return got

    def violate(self, part, replay, msg, key=None):
        if key and key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'part': part, 'message': msg, 'replay': replay}, f, indent=1)
        self.violations.append((path, part, msg))

    def sample(self, s):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(s)

    def finish(self):
        for key in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[key]))
        for path, part, msg in self.violations:
            print('[%s] %s' % (part, msg[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        s = json.dumps(ev, indent=1, default=str)
        if len(s) > 2000000:
            ev['coverage']['samples'] = ev['coverage']['samples'][:1]
            s = json.dumps(ev, indent=1, default=str)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            f.write(s)
        print('%s: %s tier, seed %d: %d model states, %d behaviours replayed in agreement, %d violations, %.1fs'
              % (self.prop, self.tier, self.seed, self.cov['states'], self.cov['traces_validated_against_impl'], len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

def diff(e, g, path=''):
    """First difference between two JSON values, or None."""
    if type(e) is bool or type(g) is bool or type(e) != type(g):
        if e is g or (type(e) == type(g) and e == g):
            return None
        return '%s: specified %s, code gives %s' % (path or '.', json.dumps(e)[:300], json.dumps(g)[:300])
    if isinstance(e, dict):
        for k in sorted(set(e) | set(g)):
            if k not in e or k not in g:
                return '%s.%s: only in %s' % (path, k, 'specification' if k in e else 'code result')
            m = diff(e[k], g[k], path + '.' + k)
            if m:
                return m
        return None
    if isinstance(e, list):
        for i in range(max(len(e), len(g))):
            if i >= len(e) or i >= len(g):
                return '%s[%d]: %s' % (path, i, 'specified but missing: %s' % json.dumps(e[i])[:300] if i >= len(g) else 'not specified but present: %s' % json.dumps(g[i])[:300])
            m = diff(e[i], g[i], '%s[%d]' % (path, i))
            if m:
                return m
        return None
    return None if e == g else '%s: specified %s, code gives %s' % (path or '.', json.dumps(e)[:300], json.dumps(g)[:300])
