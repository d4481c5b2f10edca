"""Running TLC: model checking of the specifications, and evaluation of a
specification's transition relation over scripts of commands (behaviours that
are then replayed on the code)."""
import json, os, re, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, 'specs')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TlcError(Exception):
    pass

def scratch():
    base = os.path.join(ROOT, '.build', 'run')
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(dir=base)

def java(args, cwd, env=None, heap='6g', timeout=800, props=()):
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dfile.encoding=UTF-8', '-DTLA-Library=' + SPECS, *props,
           '-cp', CP, 'tlc2.TLC'] + args
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)

EVAL = r'''---- MODULE %(mod)s_Eval ----
EXTENDS %(mod)s, IOUtils, Json
\* Evaluates the specification over scripts of commands; worker c takes file c.
VARIABLES ev_c, ev_done
EvInit == ev_c \in 0..%(k)d /\ ev_done = FALSE
EvNext == /\ ~ev_done /\ ev_done' = TRUE /\ ev_c' = ev_c
          /\ LET in == ndJsonDeserialize(IOEnv.VIN \o "." \o ToString(ev_c))
             IN ndJsonSerialize(IOEnv.VOUT \o "." \o ToString(ev_c), [j \in DOMAIN in |-> [r |-> %(op)s(in[j])]])
====
'''

def evaluate(mod, op, inputs, extra_cfg='', k=8, heap='8g', timeout=850):
    '''[op(x) for x in inputs], evaluated by TLC in parallel.'''
    if not inputs:
        return []
    k = min(k, len(inputs))
    d = scratch()
    try:
        with open(os.path.join(d, mod + '_Eval.tla'), 'w') as f:
            f.write(EVAL % dict(mod=mod, op=op, k=k - 1))
        with open(os.path.join(d, mod + '_Eval.cfg'), 'w') as f:
            f.write('INIT EvInit\nNEXT EvNext\n' + extra_cfg)
        for c in range(k):
            with open(os.path.join(d, 'in.%d' % c), 'w') as f:
                for x in inputs[c::k]:
                    f.write(json.dumps(x) + '\n')
        r = java(['-deadlock', '-noTE', '-workers', '8', '-config', mod + '_Eval.cfg', mod + '_Eval.tla'], d,
                 {'VIN': os.path.join(d, 'in'), 'VOUT': os.path.join(d, 'out')}, heap, timeout)
        if 'Model checking completed. No error' not in r.stdout:
            raise TlcError('evaluation of %s!%s failed:\n%s' % (mod, op, r.stdout[-5000:]))
        res = [None] * len(inputs)
        for c in range(k):
            with open(os.path.join(d, 'out.%d' % c), encoding='utf-8') as f:
                res[c::k] = [json.loads(l)['r'] for l in f.read().split('\n') if l]
        if any(x is None for x in res):
            raise TlcError('missing evaluation results of %s!%s' % (mod, op))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(mod, cfg, env=None, args=(), heap='8g', timeout=850, workers=8, files=(), ok=True, props=()):
    """Model-check specs/<mod>.tla with the given configuration text.
    Returns dict(states, distinct, depth, out, dir-less)."""
    d = scratch()
    try:
        with open(os.path.join(d, mod + '.cfg'), 'w') as f:
            f.write(cfg)
        shutil.copy(os.path.join(SPECS, mod + '.tla'), d)
        for name, text in files:
            with open(os.path.join(d, name), 'w') as f:
                f.write(text)
        e = {'VDIR': d}
        e.update(env or {})
        r = java(['-noTE', '-deadlock', '-workers', str(workers), '-config', mod + '.cfg', *args, mod + '.tla'], d, e, heap, timeout, props)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
        good = 'Model checking completed. No error' in r.stdout or 'Finished in' in r.stdout and 'Error:' not in r.stdout
        if ok and not good:
            raise TlcError('model checking of %s failed:\n%s' % (mod, r.stdout[-6000:]))
        dep = re.findall(r'depth of the complete state graph search is (\d+)', r.stdout)
        out = {'states': int(m[-1][1]) if m else 0, 'transitions': int(m[-1][0]) if m else 0, 'depth': int(dep[-1]) if dep else 0,
               'ok': good, 'log': r.stdout, 'files': {}}
        for name in os.listdir(d):
            if name.startswith('out'):
                with open(os.path.join(d, name)) as f:
                    out['files'][name] = f.read()
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
