#include "h.h"
#include <unistd.h>
#include <signal.h>

static GHashTable *handles;
void *hget_name(const char *n)
{
    void *p = NULL; gpointer k;
    if (!n || !g_hash_table_lookup_extended(handles, n, &k, &p)) {
        fprintf(stderr, "HARNESS: no handle %s\n", n ? n : "(none)");
        exit(3);
    }
    return p;
}
void *hget(J *op, const char *key) { return hget_name(jstr(op, key)); }
void hset(const char *name, void *p) { g_hash_table_replace(handles, g_strdup(name), p); }
void hset_op(J *op, const char *key, void *p) { const char *n = jstr(op, key); if (n) hset(n, p); }

J *jget(J *o, const char *k) { J *v = NULL; if (!json_object_object_get_ex(o, k, &v)) return NULL; return v; }
const char *j2s(J *v)
{
    if (!v || json_object_is_type(v, json_type_null)) return NULL;
    const char *s = json_object_get_string(v);
    return 0 == strcmp(s, "@null") ? NULL : s;
}
const char *jstr(J *o, const char *k) { return j2s(jget(o, k)); }
uint64_t j2u64(J *v)
{
    if (json_object_is_type(v, json_type_string)) {
        const char *s = json_object_get_string(v);
        if (s[0] == '-') return (uint64_t)strtoll(s, NULL, 0);
        return strtoull(s, NULL, 0);
    }
    return (uint64_t)json_object_get_int64(v);
}
long long jint(J *o, const char *k, long long d) { J *v = jget(o, k); return v ? (long long)j2u64(v) : d; }
bool jbool(J *o, const char *k, bool d) { J *v = jget(o, k); return v ? json_object_get_boolean(v) : d; }
J *s2j(const char *s) { return json_object_new_string(s ? s : "@null"); }
J *take2j(char *s) { J *r = s2j(s); g_free(s); return r; }
J *h2j(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%" PRIx64, v); return json_object_new_string(b); }
J *u2j(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%" PRIu64, v); return json_object_new_string(b); }
J *i2j(int64_t v) { return json_object_new_int64(v); }
J *b2j(bool b) { return json_object_new_boolean(b); }
J *f2j(double d) { char b[64]; snprintf(b, sizeof b, "%.9g", d); return json_object_new_string(b); }
int sgn(int x) { return (x > 0) - (x < 0); }

void flds_load(const struct fld *f, void *obj, J *src)
{
    for (; f->name; f++) {
        J *v = NULL;
        if (!json_object_object_get_ex(src, f->name, &v)) continue;
        char *p = (char *)obj + f->off;
        switch (f->kind) {
        case F_STR: { const char *s = j2s(v); *(char **)p = s ? g_strdup(s) : NULL; break; }
        case F_U64: *(uint64_t *)p = j2u64(v); break;
        case F_U32: *(uint32_t *)p = (uint32_t)j2u64(v); break;
        case F_U16: *(uint16_t *)p = (uint16_t)j2u64(v); break;
        case F_BOOL: *(bool *)p = json_object_get_boolean(v); break;
        }
    }
}
void flds_dump(const struct fld *f, void *obj, J *dst)
{
    for (; f->name; f++) {
        char *p = (char *)obj + f->off; J *v = NULL;
        switch (f->kind) {
        case F_STR: v = s2j(*(char **)p); break;
        case F_U64: v = h2j(*(uint64_t *)p); break;
        case F_U32: v = u2j(*(uint32_t *)p); break;
        case F_U16: v = u2j(*(uint16_t *)p); break;
        case F_BOOL: v = b2j(*(bool *)p); break;
        }
        json_object_object_add(dst, f->name, v);
    }
}

static struct op *tables[] = { ops_core, ops_metrics, ops_text, ops_report, ops_rpm, ops_scan, ops_dump, NULL };
static J *run_op(J *op)
{
    const char *name = jstr(op, "op");
    for (struct op **t = tables; *t; t++)
        for (struct op *o = *t; o->name; o++)
            if (0 == strcmp(o->name, name)) {
                J *r = o->fn(op);
                return r;
            }
    fprintf(stderr, "HARNESS: unknown op %s\n", name);
    exit(3);
}

static void on_alarm(int s) { (void)s; static const char m[] = "HANG\n"; if (write(2, m, sizeof m - 1)) {} _exit(98); }

/* driver CASES OUT START: one JSON object per line {"id":..,"ops":[..]};
 * each result line is flushed before the next case starts. */
int main(int argc, char **argv)
{
    if (argc < 4) return 3;
    FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "a");
    long start = atol(argv[3]);
    if (!in || !out) { perror("open"); return 3; }
    /* keep the library's own chatter away from results */
    signal(SIGALRM, on_alarm);
    char *line = NULL; size_t cap = 0; ssize_t len; long no = 0;
    struct json_tokener *tok = json_tokener_new_ex(64);
    while ((len = getline(&line, &cap, in)) > 0) {
        if (no++ < start) continue;
        json_tokener_reset(tok);
        J *c = json_tokener_parse_ex(tok, line, (int)len);
        if (!c) { fprintf(stderr, "HARNESS: bad case %ld\n", no - 1); return 3; }
        handles = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL);
        alarm(20);
        J *res = json_object_new_array();
        J *ops = jget(c, "ops");
        for (size_t i = 0; i < json_object_array_length(ops); i++) {
            J *r = run_op(json_object_array_get_idx(ops, i));
            json_object_array_add(res, r);
        }
        alarm(0);
        fputs(json_object_to_json_string_ext(res, JSON_C_TO_STRING_PLAIN | JSON_C_TO_STRING_NOSLASHESCAPE), out);
        fputc('\n', out);
        fflush(out);
        json_object_put(res);
        json_object_put(c);
        g_hash_table_destroy(handles);
    }
    fclose(out);
    return 0;
}
