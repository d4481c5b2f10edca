"""Random abstract values (frames, threads, stack traces) from small vocabularies."""
NULL = '@null'
U32MAX = '4294967295'
TYPES = ['core', 'python', 'koops', 'java', 'gdb', 'ruby', 'js']
MULTI = {'core', 'java', 'gdb'}
DEFAULTS = {
    'core': dict(address='0x0', build_id=NULL, build_id_offset='0x0', function_name=NULL, file_name=NULL, fingerprint=NULL, fingerprint_hashed=True),
    'python': dict(special_file=False, file_name=NULL, file_line='0', special_function=False, function_name=NULL, line_contents=NULL),
    'koops': dict(address='0x0', reliable=False, function_name=NULL, function_offset='0x0', function_length='0x0', module_name=NULL, from_address='0x0',
                  from_function_name=NULL, from_function_offset='0x0', from_function_length='0x0', from_module_name=NULL, special_stack=NULL),
    'java': dict(name=NULL, file_name=NULL, file_line='0', class_path=NULL, is_native=False, is_exception=False, message=NULL),
    'gdb': dict(function_name=NULL, function_type=NULL, number='0', source_file=NULL, source_line=U32MAX, signal_handler_called=False, address='0xffffffffffffffff', library_name=NULL),
    'ruby': dict(file_name=NULL, file_line='0', special_function=False, function_name=NULL, block_level='0', rescue_level='0'),
    'js': dict(file_name=NULL, file_line='0', line_column='0', function_name=NULL),
}
STR = {k: [f for f, v in d.items() if v == NULL] for k, d in DEFAULTS.items()}
U64 = {k: [f for f, v in d.items() if isinstance(v, str) and v.startswith('0x')] for k, d in DEFAULTS.items()}
U32 = {k: [f for f, v in d.items() if isinstance(v, str) and v[0].isdigit() and not v.startswith('0x')] for k, d in DEFAULTS.items()}
BOOL = {k: [f for f, v in d.items() if isinstance(v, bool)] for k, d in DEFAULTS.items()}
NAMEFIELD = {'java': 'name'}

def mk(t, **kw):
    d = dict(DEFAULTS[t])
    d.update(kw)
    return d

def named(t, name, **kw):
    return mk(t, **{NAMEFIELD.get(t, 'function_name'): name}, **kw)

VALS64 = ['0x0', '0x1', '0x10', '0xffffffff', '0x100000000', '0x100000001', '0x200000000', '0x7fffffffffffffff', '0x8000000000000000', '0xffffffff81000000', '0xffffffffffffffff']
VALS32 = ['0', '1', '2', '42', '2147483647', '2147483648', '4294967294', '4294967295']

def frame(r, t, names=('a', 'b', 'c'), strs=(NULL, 'x', 'y'), u64=('0x0', '0x1', '0x100000000'), u32=('0', '1'), pnull=0.1):
    d = mk(t)
    nf = NAMEFIELD.get(t, 'function_name')
    for f in STR[t]:
        d[f] = r.choice(strs)
    d[nf] = NULL if r.random() < pnull else r.choice(names)
    for f in U64[t]:
        d[f] = r.choice(u64)
    for f in U32[t]:
        d[f] = r.choice(u32)
    for f in BOOL[t]:
        d[f] = r.random() < 0.3
    return d

def frames(r, t, n, **kw):
    return [frame(r, t, **kw) for _ in range(n)]

STDEF = {
    'core': dict(signal='0', executable=NULL, only_crash_thread=False),
    'python': dict(exception_name=NULL),
    'koops': dict(version=NULL, raw_oops=NULL, reason=NULL, modules=NULL, **{'taint_' + k: False for k in
                  'module_proprietary module_out_of_tree forced_module forced_removal smp_unsafe mce page_release userspace died_recently acpi_overridden warning staging_driver firmware_workaround unsigned_module soft_lockup live_patched'.split()}),
    'java': {}, 'gdb': dict(crash_tid=U32MAX, crash=NULL, libs=[]), 'ruby': dict(exception_name=NULL), 'js': dict(exception_name=NULL, platform='0'),
}
TAINTS = [k for k in STDEF['koops'] if k.startswith('taint_')]
def st(t, threads=None, frames=None, **kw):
    d = dict(type=t)
    d.update({k: (list(v) if isinstance(v, list) else v) for k, v in STDEF[t].items()})
    if t in MULTI:
        d['threads'] = threads or []
        if t == 'core':
            d['crash_thread'] = -1
    else:
        d['frames'] = frames or []
    d.update(kw)
    return d
def thread(t, frames=None, **kw):
    d = {'frames': frames or []}
    if t == 'gdb':
        d.update(number=U32MAX, tid=U32MAX)
    if t == 'java':
        d.update(name=NULL)
    d.update(kw)
    return d

def scales(r, t, n=300, long=(300, 5000)):
    """Stack traces much larger than usual: many frames, many threads, many libraries or modules, long texts."""
    nf = NAMEFIELD.get(t, 'function_name')
    def fr(i):
        f = frame(r, t, strs=('s%d' % (i % 7), 'x'), u64=('0x%x' % (i * 4097), '0x10'), u32=(str(i), '7'), pnull=0)
        f[nf] = 'fn%d' % i
        return dict(f, **{k: False for k in BOOL[t] if k in ('signal_handler_called', 'special_file', 'special_function')})
    out = []
    def add(ths, **kw):
        if t in MULTI:
            out.append(st(t, threads=[thread(t, frames=f, **({'number': str(i), 'tid': str(i + 1)} if t == 'gdb' else {'name': 't%d' % i} if t == 'java' else {})) for i, f in enumerate(ths)], **kw))
        else:
            out.append(st(t, frames=ths[0], **kw))
    add([[fr(i) for i in range(n)]])
    if t in MULTI:
        add([[fr(i), fr(i + 1)] for i in range(n // 2)], **(dict(crash_thread=n // 2 - 2) if t == 'core' else dict(crash_tid=str(n // 2 - 1)) if t == 'gdb' else {}))
    for l in long:
        big = lambda c: (c * 9 + '/') * (l // 10)
        f = fr(1)
        for k in STR[t]:
            add([[fr(0), dict(f, **{k: big('L')}), fr(2)]])
        for k, v in STDEF[t].items():
            if v == NULL and k != 'crash' and k != 'modules':
                add([[fr(0)]], **{k: big('K')})
    if t == 'gdb':
        add([[fr(0)]], libs=[{'from': '0x%x' % (i * 4096), 'to': '0x%x' % (i * 4096 + 100), 'symbols': i % 3, 'soname': '/lib/lib%d.so.1' % i} for i in range(n)])
    if t == 'koops':
        add([[fr(0)]], modules=['mod%d' % i for i in range(n)])
    return out

def to_spec(s):
    """The crash frame of a gdb stack trace is a sequence of at most one frame in the specification."""
    return dict(s, crash=[] if s['crash'] == NULL else [s['crash']]) if s.get('type') == 'gdb' else s
def from_spec(s):
    return dict(s, crash=s['crash'][0] if s['crash'] else NULL) if isinstance(s, dict) and s.get('type') == 'gdb' else s
