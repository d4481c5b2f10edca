#include "h.h"
#define S(t, m) { #m, F_STR, offsetof(struct t, m) }
#define U8_(t, m) { #m, F_U64, offsetof(struct t, m) }
#define U4(t, m) { #m, F_U32, offsetof(struct t, m) }
#define U2(t, m) { #m, F_U16, offsetof(struct t, m) }
#define B(t, m) { #m, F_BOOL, offsetof(struct t, m) }
#define END { NULL, 0, 0 }

static const struct fld f_core[] = { U8_(sr_core_frame, address), S(sr_core_frame, build_id), U8_(sr_core_frame, build_id_offset),
    S(sr_core_frame, function_name), S(sr_core_frame, file_name), S(sr_core_frame, fingerprint), B(sr_core_frame, fingerprint_hashed), END };
static const struct fld f_python[] = { B(sr_python_frame, special_file), S(sr_python_frame, file_name), U4(sr_python_frame, file_line),
    B(sr_python_frame, special_function), S(sr_python_frame, function_name), S(sr_python_frame, line_contents), END };
static const struct fld f_koops[] = { U8_(sr_koops_frame, address), B(sr_koops_frame, reliable), S(sr_koops_frame, function_name),
    U8_(sr_koops_frame, function_offset), U8_(sr_koops_frame, function_length), S(sr_koops_frame, module_name),
    U8_(sr_koops_frame, from_address), S(sr_koops_frame, from_function_name), U8_(sr_koops_frame, from_function_offset),
    U8_(sr_koops_frame, from_function_length), S(sr_koops_frame, from_module_name), S(sr_koops_frame, special_stack), END };
static const struct fld f_java[] = { S(sr_java_frame, name), S(sr_java_frame, file_name), U4(sr_java_frame, file_line), S(sr_java_frame, class_path),
    B(sr_java_frame, is_native), B(sr_java_frame, is_exception), S(sr_java_frame, message), END };
static const struct fld f_gdb[] = { S(sr_gdb_frame, function_name), S(sr_gdb_frame, function_type), U4(sr_gdb_frame, number), S(sr_gdb_frame, source_file),
    U4(sr_gdb_frame, source_line), B(sr_gdb_frame, signal_handler_called), U8_(sr_gdb_frame, address), S(sr_gdb_frame, library_name), END };
static const struct fld f_ruby[] = { S(sr_ruby_frame, file_name), U4(sr_ruby_frame, file_line), B(sr_ruby_frame, special_function),
    S(sr_ruby_frame, function_name), U4(sr_ruby_frame, block_level), U4(sr_ruby_frame, rescue_level), END };
static const struct fld f_js[] = { S(sr_js_frame, file_name), U4(sr_js_frame, file_line), U4(sr_js_frame, line_column), S(sr_js_frame, function_name), END };
static const struct fld *frame_flds[] = { NULL, f_core, f_python, f_koops, f_java, f_gdb, f_ruby, f_js };

static const struct fld t_none[] = { END };
static const struct fld t_gdb[] = { U4(sr_gdb_thread, number), U4(sr_gdb_thread, tid), END };
static const struct fld t_java[] = { S(sr_java_thread, name), END };

static const struct fld s_core[] = { U2(sr_core_stacktrace, signal), S(sr_core_stacktrace, executable), B(sr_core_stacktrace, only_crash_thread), END };
static const struct fld s_python[] = { S(sr_python_stacktrace, exception_name), END };
#define T(m) B(sr_koops_stacktrace, taint_##m)
static const struct fld s_koops[] = { S(sr_koops_stacktrace, version), T(module_proprietary), T(module_out_of_tree), T(forced_module), T(forced_removal), T(smp_unsafe),
    T(mce), T(page_release), T(userspace), T(died_recently), T(acpi_overridden), T(warning), T(staging_driver), T(firmware_workaround),
    T(unsigned_module), T(soft_lockup), T(live_patched), S(sr_koops_stacktrace, raw_oops), S(sr_koops_stacktrace, reason), END };
static const struct fld s_gdb[] = { U4(sr_gdb_stacktrace, crash_tid), END };
static const struct fld s_ruby[] = { S(sr_ruby_stacktrace, exception_name), END };
static const struct fld s_js[] = { S(sr_js_stacktrace, exception_name), { "platform", F_U32, offsetof(struct sr_js_stacktrace, platform) }, END };
static const struct fld *st_flds[] = { NULL, s_core, s_python, s_koops, t_none, s_gdb, s_ruby, s_js };

static const char *tn[] = { "invalid", "core", "python", "koops", "java", "gdb", "ruby", "js" };
enum sr_report_type typ(J *op, const char *k)
{
    const char *s = jstr(op, k);
    for (int i = 1; i < 8; i++) if (s && !strcmp(tn[i], s)) return i;
    if (s && !strcmp(s, "invalid")) return 0;
    fprintf(stderr, "HARNESS: bad type %s\n", s); exit(3);
}
const char *typname(enum sr_report_type t) { return (unsigned)t < 8 ? tn[t] : "out-of-range"; }
bool multi(enum sr_report_type t) { return t == SR_REPORT_CORE || t == SR_REPORT_JAVA || t == SR_REPORT_GDB; }

struct sr_frame *frame_make(enum sr_report_type t, J *spec)
{
    void *f = NULL;
    switch (t) {
    case SR_REPORT_CORE: f = sr_core_frame_new(); break;
    case SR_REPORT_PYTHON: f = sr_python_frame_new(); break;
    case SR_REPORT_KERNELOOPS: f = sr_koops_frame_new(); break;
    case SR_REPORT_JAVA: f = sr_java_frame_new(); break;
    case SR_REPORT_GDB: f = sr_gdb_frame_new(); break;
    case SR_REPORT_RUBY: f = sr_ruby_frame_new(); break;
    case SR_REPORT_JAVASCRIPT: f = sr_js_frame_new(); break;
    default: exit(3);
    }
    flds_load(frame_flds[t], f, spec);
    return f;
}
J *frame_dump(struct sr_frame *f)
{
    if (!f) return s2j(NULL);
    J *o = json_object_new_object();
    if ((unsigned)f->type < 1 || (unsigned)f->type > 7) return s2j("bad-type");
    flds_dump(frame_flds[f->type], f, o);
    return o;
}
J *frames_dump(struct sr_frame *f)
{
    J *a = json_object_new_array(); int n = 0;
    for (; f; f = sr_frame_next(f)) { json_object_array_add(a, frame_dump(f)); if (++n > 100000) { json_object_array_add(a, s2j("cycle")); break; } }
    return a;
}
static struct sr_frame *frames_make(enum sr_report_type t, J *arr)
{
    struct sr_frame *first = NULL, *last = NULL;
    for (size_t i = 0; arr && i < json_object_array_length(arr); i++) {
        struct sr_frame *f = frame_make(t, json_object_array_get_idx(arr, i));
        if (last) sr_frame_set_next(last, f); else first = f;
        last = f;
    }
    return first;
}
static void *st_new(enum sr_report_type t)
{
    switch (t) {
    case SR_REPORT_CORE: return sr_core_stacktrace_new();
    case SR_REPORT_PYTHON: return sr_python_stacktrace_new();
    case SR_REPORT_KERNELOOPS: return sr_koops_stacktrace_new();
    case SR_REPORT_JAVA: return sr_java_stacktrace_new();
    case SR_REPORT_GDB: return sr_gdb_stacktrace_new();
    case SR_REPORT_RUBY: return sr_ruby_stacktrace_new();
    case SR_REPORT_JAVASCRIPT: return sr_js_stacktrace_new();
    default: exit(3);
    }
}
struct sr_thread *thread_make(enum sr_report_type t, J *spec)
{
    struct sr_thread *th;
    if (t == SR_REPORT_CORE) th = (void *)sr_core_thread_new();
    else if (t == SR_REPORT_GDB) { th = (void *)sr_gdb_thread_new(); flds_load(t_gdb, th, spec); }
    else if (t == SR_REPORT_JAVA) { th = (void *)sr_java_thread_new(); flds_load(t_java, th, spec); }
    else return (struct sr_thread *)st_make(t, spec);
    sr_thread_set_frames(th, frames_make(t, jget(spec, "frames")));
    return th;
}
J *thread_dump(struct sr_thread *t)
{
    if (!t) return s2j(NULL);
    if (!multi(t->type)) return st_dump((struct sr_stacktrace *)t);
    J *o = json_object_new_object();
    flds_dump(t->type == SR_REPORT_GDB ? t_gdb : t->type == SR_REPORT_JAVA ? t_java : t_none, t, o);
    json_object_object_add(o, "frames", frames_dump(sr_thread_frames(t)));
    return o;
}
struct sr_stacktrace *st_make(enum sr_report_type t, J *spec)
{
    struct sr_stacktrace *s = st_new(t);
    flds_load(st_flds[t], s, spec);
    if (!multi(t))
        sr_thread_set_frames((struct sr_thread *)s, frames_make(t, jget(spec, "frames")));
    else {
        struct sr_thread *first = NULL, *last = NULL; J *a = jget(spec, "threads");
        for (size_t i = 0; a && i < json_object_array_length(a); i++) {
            struct sr_thread *th = thread_make(t, json_object_array_get_idx(a, i));
            if (last) sr_thread_set_next(last, th); else first = th;
            last = th;
        }
        sr_stacktrace_set_threads(s, first);
    }
    if (t == SR_REPORT_CORE && jget(spec, "crash_thread")) {
        int i = (int)jint(spec, "crash_thread", -1);
        if (i >= 0) ((struct sr_core_stacktrace *)s)->crash_thread = (void *)thread_at(s, i);
    }
    if (t == SR_REPORT_GDB) {
        struct sr_gdb_stacktrace *g = (void *)s; J *c = jget(spec, "crash"), *l = jget(spec, "libs");
        if (c && json_object_is_type(c, json_type_object)) g->crash = (void *)frame_make(t, c);
        for (size_t i = 0; l && i < json_object_array_length(l); i++) {
            J *x = json_object_array_get_idx(l, i);
            struct sr_gdb_sharedlib *lib = sr_gdb_sharedlib_new();
            lib->from = (uint64_t)jint(x, "from", 0); lib->to = (uint64_t)jint(x, "to", 0);
            lib->symbols = (int)jint(x, "symbols", 0);
            lib->soname = g_strdup(jstr(x, "soname"));
            g->libs = sr_gdb_sharedlib_append(g->libs, lib);
        }
    }
    if (t == SR_REPORT_KERNELOOPS) {
        J *m = jget(spec, "modules");
        if (m && json_object_is_type(m, json_type_array)) {
            size_t n = json_object_array_length(m);
            char **v = g_malloc_n(n + 1, sizeof *v);
            for (size_t i = 0; i < n; i++) v[i] = g_strdup(j2s(json_object_array_get_idx(m, i)));
            v[n] = NULL;
            ((struct sr_koops_stacktrace *)s)->modules = v;
        }
    }
    return s;
}
J *libs_dump(struct sr_gdb_sharedlib *l)
{
    J *a = json_object_new_array();
    for (; l; l = l->next) {
        J *o = json_object_new_object();
        json_object_object_add(o, "from", h2j(l->from));
        json_object_object_add(o, "to", h2j(l->to));
        json_object_object_add(o, "symbols", i2j(l->symbols));
        json_object_object_add(o, "soname", s2j(l->soname));
        json_object_array_add(a, o);
    }
    return a;
}
J *st_dump(struct sr_stacktrace *s)
{
    if (!s) return s2j(NULL);
    if ((unsigned)s->type < 1 || (unsigned)s->type > 7) return s2j("bad-type");
    J *o = json_object_new_object();
    json_object_object_add(o, "type", s2j(typname(s->type)));
    flds_dump(st_flds[s->type], s, o);
    if (!multi(s->type))
        json_object_object_add(o, "frames", frames_dump(sr_thread_frames((struct sr_thread *)s)));
    else {
        J *a = json_object_new_array(); int i = 0, crash = -1;
        for (struct sr_thread *t = sr_stacktrace_threads(s); t; t = sr_thread_next(t), i++) {
            json_object_array_add(a, thread_dump(t));
            if (s->type == SR_REPORT_CORE && (void *)((struct sr_core_stacktrace *)s)->crash_thread == (void *)t) crash = i;
        }
        json_object_object_add(o, "threads", a);
        if (s->type == SR_REPORT_CORE) {
            if (((struct sr_core_stacktrace *)s)->crash_thread && crash < 0) crash = -2; /* not one of its own threads */
            json_object_object_add(o, "crash_thread", i2j(crash));
        }
    }
    if (s->type == SR_REPORT_GDB) {
        json_object_object_add(o, "crash", frame_dump((struct sr_frame *)((struct sr_gdb_stacktrace *)s)->crash));
        json_object_object_add(o, "libs", libs_dump(((struct sr_gdb_stacktrace *)s)->libs));
    }
    if (s->type == SR_REPORT_KERNELOOPS) {
        char **m = ((struct sr_koops_stacktrace *)s)->modules;
        if (!m) json_object_object_add(o, "modules", s2j(NULL));
        else {
            J *a = json_object_new_array();
            for (; *m; m++) json_object_array_add(a, s2j(*m));
            json_object_object_add(o, "modules", a);
        }
    }
    return o;
}
struct sr_frame *frame_at(struct sr_thread *t, int i)
{
    struct sr_frame *f = sr_thread_frames(t);
    while (f && i-- > 0) f = sr_frame_next(f);
    return f;
}
struct sr_thread *thread_at(struct sr_stacktrace *s, int i)
{
    struct sr_thread *t = sr_stacktrace_threads(s);
    while (t && i-- > 0) t = sr_thread_next(t);
    return t;
}
static int thread_index(struct sr_stacktrace *s, void *p)
{
    int i = 0;
    for (struct sr_thread *t = sr_stacktrace_threads(s); t; t = sr_thread_next(t), i++) if ((void *)t == p) return i;
    return -2;
}

static J *op_new_thread(J *op) { hset_op(op, "h", thread_make(typ(op, "type"), op)); return b2j(true); }
static J *op_new_st(J *op) { hset_op(op, "h", st_make(typ(op, "type"), op)); return b2j(true); }
static J *op_new_frame(J *op) { hset_op(op, "h", frame_make(typ(op, "type"), op)); return b2j(true); }
static J *op_dump_thread(J *op) { return thread_dump(hget(op, "h")); }
static J *op_dump_st(J *op) { return st_dump(hget(op, "h")); }
static J *op_dump_frame(J *op) { return frame_dump(hget(op, "h")); }
static J *op_thread_of(J *op) { hset_op(op, "h", thread_at(hget(op, "st"), (int)jint(op, "i", 0))); return b2j(true); }
static J *op_frame_of(J *op) { hset_op(op, "h", frame_at(hget(op, "t"), (int)jint(op, "i", 0))); return b2j(true); }

static J *op_frame_count(J *op) { return i2j(sr_thread_frame_count(hget(op, "h"))); }
/* remove by position; "foreign" = a frame handle that is not in the thread */
static struct sr_frame *target(J *op, struct sr_thread *t) { return jget(op, "f") ? hget(op, "f") : frame_at(t, (int)jint(op, "i", 0)); }
static J *op_remove_frame(J *op)
{
    struct sr_thread *t = hget(op, "h"); struct sr_frame *f = target(op, t);
    const char *via = jstr(op, "via");
    if (via && !strcmp(via, "gdb")) return b2j(sr_gdb_thread_remove_frame((void *)t, (void *)f));
    if (via && !strcmp(via, "java")) return b2j(sr_java_thread_remove_frame((void *)t, (void *)f));
    if (via && !strcmp(via, "koops")) return b2j(sr_koops_stacktrace_remove_frame((void *)t, (void *)f));
    return b2j(sr_thread_remove_frame(t, f));
}
static J *op_remove_above(J *op)
{
    struct sr_thread *t = hget(op, "h"); struct sr_frame *f = target(op, t);
    const char *via = jstr(op, "via");
    if (via && !strcmp(via, "gdb")) return b2j(sr_gdb_thread_remove_frames_above((void *)t, (void *)f));
    if (via && !strcmp(via, "java")) return b2j(sr_java_thread_remove_frames_above((void *)t, (void *)f));
    return b2j(sr_thread_remove_frames_above(t, f));
}
static J *op_below_n(J *op)
{
    struct sr_thread *t = hget(op, "h"); int n = (int)jint(op, "n", 0);
    if (t->type == SR_REPORT_GDB) sr_gdb_thread_remove_frames_below_n((void *)t, n);
    else sr_java_thread_remove_frames_below_n((void *)t, n);
    return b2j(true);
}
static J *op_dup_thread(J *op) { hset_op(op, "to", sr_thread_dup(hget(op, "h"))); return b2j(true); }
static J *op_dup_threads(J *op) /* with siblings: handle holds first; new stacktrace-like chain */
{
    struct sr_thread *t = hget(op, "h"); void *r;
    if (t->type == SR_REPORT_CORE) r = sr_core_thread_dup((void *)t, true);
    else if (t->type == SR_REPORT_GDB) r = sr_gdb_thread_dup((void *)t, true);
    else r = sr_java_thread_dup((void *)t, true);
    hset_op(op, "to", r);
    return b2j(true);
}
static J *op_dup_st(J *op)
{
    struct sr_stacktrace *s = hget(op, "h"); void *r = NULL;
    switch (s->type) {
    case SR_REPORT_CORE: r = sr_core_stacktrace_dup((void *)s); break;
    case SR_REPORT_PYTHON: r = sr_python_stacktrace_dup((void *)s); break;
    case SR_REPORT_KERNELOOPS: r = sr_koops_stacktrace_dup((void *)s); break;
    case SR_REPORT_JAVA: r = sr_java_stacktrace_dup((void *)s); break;
    case SR_REPORT_GDB: r = sr_gdb_stacktrace_dup((void *)s); break;
    case SR_REPORT_RUBY: r = sr_ruby_stacktrace_dup((void *)s); break;
    case SR_REPORT_JAVASCRIPT: r = sr_js_stacktrace_dup((void *)s); break;
    default: exit(3);
    }
    hset_op(op, "to", r);
    return b2j(true);
}
static J *op_dup_frame(J *op) /* "sib": copy following frames as well; result as list of frames */
{
    struct sr_frame *f = hget(op, "h"); bool sib = jbool(op, "sib", false); void *r = NULL;
    switch (f->type) {
    case SR_REPORT_CORE: r = sr_core_frame_dup((void *)f, sib); break;
    case SR_REPORT_PYTHON: r = sr_python_frame_dup((void *)f, sib); break;
    case SR_REPORT_KERNELOOPS: r = sr_koops_frame_dup((void *)f, sib); break;
    case SR_REPORT_JAVA: r = sr_java_frame_dup((void *)f, sib); break;
    case SR_REPORT_GDB: r = sr_gdb_frame_dup((void *)f, sib); break;
    case SR_REPORT_RUBY: r = sr_ruby_frame_dup((void *)f, sib); break;
    case SR_REPORT_JAVASCRIPT: r = sr_js_frame_dup((void *)f, sib); break;
    default: exit(3);
    }
    hset_op(op, "to", r);
    return frames_dump(r);
}
/* append a new frame at the end, via the type's own append; "pre": koops prepend */
static J *op_append_frame(J *op)
{
    struct sr_thread *t = hget(op, "h"); struct sr_frame *f = frame_make(t->type, jget(op, "frame")), *old = sr_thread_frames(t); void *r = NULL;
    switch (t->type) {
    case SR_REPORT_CORE: r = sr_core_frame_append((void *)old, (void *)f); break;
    case SR_REPORT_PYTHON: r = sr_python_frame_append((void *)old, (void *)f); break;
    case SR_REPORT_KERNELOOPS: r = jbool(op, "pre", false) ? sr_koops_frame_prepend((void *)old, (void *)f) : sr_koops_frame_append((void *)old, (void *)f); break;
    case SR_REPORT_JAVA: r = sr_java_frame_append((void *)old, (void *)f); break;
    case SR_REPORT_GDB: r = sr_gdb_frame_append((void *)old, (void *)f); break;
    case SR_REPORT_RUBY: r = sr_ruby_frame_append((void *)old, (void *)f); break;
    case SR_REPORT_JAVASCRIPT: r = sr_js_frame_append((void *)old, (void *)f); break;
    default: exit(3);
    }
    sr_thread_set_frames(t, r);
    return b2j(true);
}
static J *op_append_thread(J *op)
{
    struct sr_stacktrace *s = hget(op, "h"); struct sr_thread *n = hget(op, "t"); void *old = sr_stacktrace_threads(s), *r;
    if (s->type == SR_REPORT_CORE) r = sr_core_thread_append(old, (void *)n);
    else if (s->type == SR_REPORT_GDB) r = sr_gdb_thread_append(old, (void *)n);
    else r = sr_java_thread_append(old, (void *)n);
    sr_stacktrace_set_threads(s, r);
    return b2j(true);
}
static J *op_except_one(J *op)
{
    struct sr_stacktrace *s = hget(op, "h");
    sr_gdb_stacktrace_remove_threads_except_one((void *)s, (void *)thread_at(s, (int)jint(op, "i", 0)));
    return b2j(true);
}
static J *op_limit_depth(J *op) { sr_gdb_stacktrace_limit_frame_depth(hget(op, "h"), (int)jint(op, "n", 1)); return b2j(true); }
static J *op_thread_count(J *op)
{
    struct sr_stacktrace *s = hget(op, "h");
    if (s->type == SR_REPORT_CORE) return i2j(sr_core_stacktrace_get_thread_count((void *)s));
    if (s->type == SR_REPORT_GDB) return i2j(sr_gdb_stacktrace_get_thread_count((void *)s));
    int n = 0; for (struct sr_thread *t = sr_stacktrace_threads(s); t; t = sr_thread_next(t)) n++;
    return i2j(n);
}
static J *op_free_thread(J *op) { sr_thread_free(hget(op, "h")); return b2j(true); }
static J *op_free_st(J *op) { sr_stacktrace_free(hget(op, "h")); return b2j(true); }
static J *op_free_frame(J *op) { sr_frame_free(hget(op, "h")); return b2j(true); }
static J *op_set_field(J *op) /* overwrite a frame's field in place: {"t","i","frame":{..}} */
{
    struct sr_thread *t = hget(op, "t"); struct sr_frame *f = frame_at(t, (int)jint(op, "i", 0));
    J *src = jget(op, "frame");
    for (const struct fld *x = frame_flds[f->type]; x->name; x++)
        if (x->kind == F_STR && jget(src, x->name)) g_free(*(char **)((char *)f + x->off));
    flds_load(frame_flds[f->type], f, src);
    return b2j(true);
}
static J *op_cmp_frame(J *op)
{
    struct sr_frame *a = hget(op, "a"), *b = hget(op, "b"); const char *k = jstr(op, "k");
    if (k && !strcmp(k, "number")) return i2j(sgn(sr_gdb_frame_cmp((void *)a, (void *)b, true)));
    if (k && !strcmp(k, "distance")) return i2j(sgn(sr_frame_cmp_distance(a, b)));
    return i2j(sgn(sr_frame_cmp(a, b)));
}
static J *op_cmp_thread(J *op) { return i2j(sgn(sr_thread_cmp(hget(op, "a"), hget(op, "b")))); }
static J *op_cmp_java_st(J *op) { return i2j(sgn(sr_java_stacktrace_cmp(hget(op, "a"), hget(op, "b")))); }
static J *op_normalize(J *op) { sr_thread_normalize(hget(op, "h")); return b2j(true); }
static J *op_normalize_st(J *op)
{
    struct sr_stacktrace *s = hget(op, "h");
    if (s->type == SR_REPORT_GDB) sr_normalize_gdb_stacktrace((void *)s);
    else if (s->type == SR_REPORT_KERNELOOPS) sr_normalize_koops_stacktrace((void *)s);
    else for (struct sr_thread *t = sr_stacktrace_threads(s); t; t = sr_thread_next(t)) sr_thread_normalize(t);
    return b2j(true);
}
static J *op_crash_thread(J *op)
{
    struct sr_stacktrace *s = hget(op, "h"); struct sr_thread *t = sr_stacktrace_find_crash_thread(s);
    if (!t) return i2j(-1);
    return i2j(thread_index(s, t));
}
static J *op_set_crash_tid(J *op) { sr_gdb_stacktrace_set_crash_tid(hget(op, "h"), (uint32_t)jint(op, "tid", 0)); return b2j(true); }
static J *op_crash_frame(J *op)
{
    struct sr_gdb_frame *f = sr_gdb_stacktrace_get_crash_frame(hget(op, "h"));
    return frame_dump((struct sr_frame *)f);
}
static J *op_exit_frame(J *op)
{
    struct sr_thread *t = jget(op, "st") ? thread_at(hget(op, "st"), (int)jint(op, "i", 0)) : hget(op, "h"); void *f = t->type == SR_REPORT_GDB ? (void *)sr_glibc_thread_find_exit_frame((void *)t) : (void *)sr_core_thread_find_exit_frame((void *)t);
    int i = 0;
    for (struct sr_frame *x = sr_thread_frames(t); x; x = sr_frame_next(x), i++) if ((void *)x == f) return i2j(i);
    return i2j(f ? -2 : -1);
}
static J *op_quality(J *op)
{
    const char *k = jstr(op, "k");
    if (!strcmp(k, "thread")) return f2j(sr_gdb_thread_quality(hget(op, "h")));
    if (!strcmp(k, "java")) return f2j(sr_java_thread_quality(hget(op, "h")));
    if (!strcmp(k, "simple")) return f2j(sr_gdb_stacktrace_quality_simple(hget(op, "h")));
    return f2j(sr_gdb_stacktrace_quality_complex(hget(op, "h")));
}
static J *op_duphash(J *op)
{
    char *p = g_strdup(jstr(op, "prefix"));
    char *r = sr_thread_get_duphash(hget(op, "h"), (int)jint(op, "n", 0), p, (int)jint(op, "flags", 2));
    g_free(p);
    return take2j(r);
}
static J *op_bthash(J *op) { return take2j(sr_stacktrace_get_bthash(hget(op, "h"), (int)jint(op, "flags", 2))); }
static J *op_short_text(J *op) { return take2j(sr_stacktrace_to_short_text(hget(op, "h"), (int)jint(op, "n", 0))); }
static J *op_reason(J *op) { return take2j(sr_stacktrace_get_reason(hget(op, "h"))); }
static J *op_optimized(J *op)
{
    struct sr_gdb_stacktrace *st = jget(op, "st") ? hget(op, "st") : NULL;
    struct sr_gdb_thread *t = sr_gdb_thread_get_optimized(hget(op, "h"), st ? st->libs : NULL, (int)jint(op, "n", 0));
    return thread_dump((struct sr_thread *)t);
}
static J *op_set_libnames(J *op) { sr_gdb_stacktrace_set_libnames(hget(op, "h")); return b2j(true); }
static J *op_gdb_text(J *op) { return take2j(sr_gdb_stacktrace_to_text(hget(op, "h"), jbool(op, "verbose", false))); }
static J *op_frame_str(J *op)
{
    GString *s = g_string_new(NULL);
    sr_frame_append_to_str(frame_at(hget(op, "t"), (int)jint(op, "i", 0)), s);
    return take2j(g_string_free(s, FALSE));
}
static J *op_pair_unknown(J *op) { sr_normalize_gdb_paired_unknown_function_names(hget(op, "a"), hget(op, "b")); return b2j(true); }
static J *op_optimize(J *op) { sr_gdb_normalize_optimize_thread(hget(op, "h")); return b2j(true); }
static J *op_format_funs(J *op)
{
    struct sr_thread *t = hget(op, "h");
    return take2j(t->type == SR_REPORT_GDB ? sr_gdb_thread_format_funs((void *)t) : sr_java_thread_format_funs((void *)t));
}
static J *op_parse_funs(J *op) { void *t = sr_gdb_thread_parse_funs(jstr(op, "text")); hset_op(op, "h", t); return thread_dump(t); }
static J *op_find_lib(J *op)
{
    struct sr_gdb_stacktrace *s = hget(op, "h"); void *l = sr_gdb_sharedlib_find_address(s->libs, j2u64(jget(op, "addr")));
    int i = 0;
    for (struct sr_gdb_sharedlib *x = s->libs; x; x = x->next, i++) if ((void *)x == l) return i2j(i);
    return i2j(l ? -2 : -1);
}
static J *op_lib_count(J *op) { return i2j(sr_gdb_sharedlib_count(((struct sr_gdb_stacktrace *)hget(op, "h"))->libs)); }
static J *op_st_to_json(J *op) { return take2j(sr_stacktrace_to_json(hget(op, "h"))); }
static J *op_st_from_json(J *op)
{
    char *err = NULL; void *s = sr_stacktrace_from_json_text(typ(op, "type"), jstr(op, "text"), &err);
    hset_op(op, "h", s);
    J *o = json_object_new_object();
    json_object_object_add(o, "st", st_dump(s));
    json_object_object_add(o, "err", s2j(err));
    g_free(err);
    return o;
}
/* write to JSON and read back, reporting the text and the reread state */
static J *op_json_rt(J *op)
{
    struct sr_stacktrace *s = hget(op, "h"); char *err = NULL;
    char *text = sr_stacktrace_to_json(s);
    struct sr_stacktrace *r = text ? sr_stacktrace_from_json_text(s->type, text, &err) : NULL;
    J *o = json_object_new_object();
    json_object_object_add(o, "text", s2j(text));
    json_object_object_add(o, "st", st_dump(r));
    json_object_object_add(o, "err", s2j(err));
    hset_op(op, "to", r);
    g_free(text); g_free(err);
    return o;
}

struct op ops_core[] = {
    { "new_thread", op_new_thread }, { "new_st", op_new_st }, { "new_frame", op_new_frame },
    { "dump_thread", op_dump_thread }, { "dump_st", op_dump_st }, { "dump_frame", op_dump_frame },
    { "thread_of", op_thread_of }, { "frame_of", op_frame_of }, { "frame_count", op_frame_count },
    { "remove_frame", op_remove_frame }, { "remove_above", op_remove_above }, { "below_n", op_below_n },
    { "dup_thread", op_dup_thread }, { "dup_threads", op_dup_threads }, { "dup_st", op_dup_st }, { "dup_frame", op_dup_frame },
    { "append_frame", op_append_frame }, { "append_thread", op_append_thread }, { "except_one", op_except_one },
    { "limit_depth", op_limit_depth }, { "thread_count", op_thread_count },
    { "free_thread", op_free_thread }, { "free_st", op_free_st }, { "free_frame", op_free_frame }, { "set_field", op_set_field },
    { "cmp_frame", op_cmp_frame }, { "cmp_thread", op_cmp_thread }, { "cmp_java_st", op_cmp_java_st },
    { "normalize", op_normalize }, { "normalize_st", op_normalize_st }, { "crash_thread", op_crash_thread }, { "set_crash_tid", op_set_crash_tid },
    { "crash_frame", op_crash_frame }, { "exit_frame", op_exit_frame }, { "exit_frame_of", op_exit_frame }, { "quality", op_quality }, { "duphash", op_duphash }, { "bthash", op_bthash },
    { "short_text", op_short_text }, { "reason", op_reason }, { "optimized", op_optimized }, { "set_libnames", op_set_libnames },
    { "gdb_text", op_gdb_text }, { "frame_str", op_frame_str }, { "pair_unknown", op_pair_unknown }, { "optimize", op_optimize },
    { "format_funs", op_format_funs }, { "parse_funs", op_parse_funs }, { "find_lib", op_find_lib }, { "lib_count", op_lib_count },
    { "st_to_json", op_st_to_json }, { "st_from_json", op_st_from_json }, { "json_rt", op_json_rt },
    { NULL, NULL } };
