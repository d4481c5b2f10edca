"""Out-of-tree builds of /repo's current sources (never writes into /repo)."""
import hashlib, os, subprocess, shutil, glob, fcntl, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SATYR_REPO', '/repo')
CACHE = os.path.join(ROOT, '.build')
CONFIG = '''
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBBFD 1
#define HAVE_LIBDL 1
#define HAVE_LIBDW 1
#define HAVE_LIBELF 1
#define HAVE_LIBRPM 1
#define HAVE_LIBSTDC__ 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "satyr"
#define PACKAGE_BUGREPORT "crash-catcher@fedorahosted.org"
#define PACKAGE_NAME "satyr"
#define PACKAGE_STRING "satyr 0.43"
#define PACKAGE_TARNAME "satyr"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "0.43"
#define STDC_HEADERS 1
#define VERSION "0.43"
#define WITH_LIBDWFL 1
'''

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s\n%s' % (' '.join(cmd), r.stdout[-2000:], r.stderr[-6000:]))
    return r.stdout

def pkg(*a):
    return sh(['pkg-config', *a]).split()

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read() + b'\0')
    return h.hexdigest()[:20]

GENERATED = {'config.h', 'normalize_hash.h'}
def sources(*dirs):
    out = []
    for d in dirs:
        for base, _, fs in os.walk(os.path.join(REPO, d)):
            if os.sep + '.' in base[len(REPO):]:
                continue
            out += [os.path.join(base, f) for f in fs
                    if f.endswith(('.c', '.h', '.gperf')) and f not in GENERATED]
    return out

def _compile(jobs):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: sh(c), jobs))

def _prepare(tmp):
    with open(os.path.join(tmp, 'config.h'), 'w') as f:
        f.write(CONFIG)
    sh(['gperf', '--output-file=' + os.path.join(tmp, 'normalize_hash.h'), os.path.join(REPO, 'lib/normalize_hash.gperf')])
    # copies, so that quote-includes find our generated headers, never stale build products of /repo
    src = os.path.join(tmp, 'lib')
    os.makedirs(src)
    for p in glob.glob(os.path.join(REPO, 'lib', '*.[ch]')):
        if os.path.basename(p) not in GENERATED:
            shutil.copy(p, src)
    for g in GENERATED:
        shutil.move(os.path.join(tmp, g), src)
    return src

def _locked(name, key, fn):
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, '%s-%s' % (name, key))
    with open(os.path.join(CACHE, name + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, 'ok')):
            return final
        tmp = final + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        fn(tmp)
        open(os.path.join(tmp, 'ok'), 'w').close()
        shutil.rmtree(final, ignore_errors=True)
        os.rename(tmp, final)
        # keep the cache small: drop all but the newest few builds of this kind
        olds = sorted((p for p in glob.glob(os.path.join(CACHE, name + '-*')) if p != final and not p.endswith('.tmp')), key=os.path.getmtime)
        for p in olds[:-3]:
            shutil.rmtree(p, ignore_errors=True)
        return final

PKGS = ['glib-2.0', 'json-c', 'libdw', 'libelf', 'rpm']
LIBS = ['-ldw', '-lelf', '-lrpm', '-lrpmio', '-lstdc++', '-lbfd', '-lopcodes', '-ldl', '-lm']

def driver():
    """The conformance driver, linked statically with the library's own sources (ASan)."""
    hs = glob.glob(os.path.join(ROOT, 'harness', '*.[ch]'))
    key = digest(sources('lib', 'include') + hs, CONFIG + 'v2')
    def fn(tmp):
        src = _prepare(tmp)
        flags = ['gcc', '-std=gnu99', '-D_GNU_SOURCE', '-w', '-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer',
                 '-I' + src, '-I' + os.path.join(REPO, 'include')] + pkg('--cflags', *PKGS)
        jobs, objs = [], []
        for c in sorted(glob.glob(os.path.join(src, '*.c'))) + sorted(glob.glob(os.path.join(ROOT, 'harness', '*.c'))):
            o = os.path.join(tmp, os.path.basename(os.path.dirname(c)) + '_' + os.path.basename(c)[:-2] + '.o')
            if os.path.basename(c) == 'core_unwind_libunwind.c' or os.path.basename(c) == 'deb.c':
                pass
            jobs.append(flags + ['-c', c, '-o', o]); objs.append(o)
        _compile(jobs)
        sh(['gcc', '-fsanitize=address', '-o', os.path.join(tmp, 'driver')] + objs + LIBS + pkg('--libs', *PKGS))
        for o in objs:
            os.unlink(o)
    return os.path.join(_locked('driver', key, fn), 'driver')

def pyext(asan=False):
    """The Python extension package `satyr`, linked statically with the library."""
    key = digest(sources('lib', 'include', 'python') + [os.path.join(REPO, 'python/__init__.py')], CONFIG + 'p1')
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
    def fn(tmp):
        src = _prepare(tmp)
        inc = sh(['/usr/bin/python3', '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])']).strip()
        flags = ['gcc', '-std=gnu99', '-D_GNU_SOURCE', '-w', '-O1', '-g', '-fPIC', '-fno-strict-aliasing', *san,
                 '-I' + src, '-I' + os.path.join(REPO, 'include'), '-I' + inc] + pkg('--cflags', *PKGS)
        jobs, objs = [], []
        for c in sorted(glob.glob(os.path.join(src, '*.c'))) + sorted(glob.glob(os.path.join(REPO, 'python', '*.c'))):
            o = os.path.join(tmp, os.path.basename(os.path.dirname(c)) + '_' + os.path.basename(c)[:-2] + '.o')
            jobs.append(flags + ['-c', c, '-o', o]); objs.append(o)
        _compile(jobs)
        os.makedirs(os.path.join(tmp, 'py', 'satyr'))
        sh(['gcc', '-shared', *san, '-o', os.path.join(tmp, 'py', 'satyr', '_satyr3.so')] + objs + LIBS + pkg('--libs', *PKGS))
        shutil.copy(os.path.join(REPO, 'python/__init__.py'), os.path.join(tmp, 'py', 'satyr'))
        for o in objs:
            os.unlink(o)
    return os.path.join(_locked('pyasan' if asan else 'pyext', key, fn), 'py')

def cli():
    """The command line tool, linked statically with the library's own sources (ASan)."""
    key = digest(sources('lib', 'include') + [os.path.join(REPO, 'satyr.c')], CONFIG + 'c1')
    def fn(tmp):
        src = _prepare(tmp)
        flags = ['gcc', '-std=gnu99', '-D_GNU_SOURCE', '-w', '-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer',
                 '-I' + src, '-I' + os.path.join(REPO, 'include')] + pkg('--cflags', *PKGS)
        shutil.copy(os.path.join(REPO, 'satyr.c'), os.path.join(tmp, 'satyr.c'))
        jobs, objs = [], []
        for c in sorted(glob.glob(os.path.join(src, '*.c'))) + [os.path.join(tmp, 'satyr.c')]:
            o = os.path.join(tmp, os.path.basename(os.path.dirname(c)) + '_' + os.path.basename(c)[:-2] + '.o')
            jobs.append(flags + ['-c', c, '-o', o]); objs.append(o)
        _compile(jobs)
        sh(['gcc', '-fsanitize=address', '-o', os.path.join(tmp, 'satyr')] + objs + LIBS + pkg('--libs', *PKGS))
        for o in objs:
            os.unlink(o)
    return os.path.join(_locked('cli', key, fn), 'satyr')

if __name__ == '__main__':
    print(driver())
    print(cli())
    print(pyext())
