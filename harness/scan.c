#include "h.h"
#include <unistd.h>
/* Scripts of primitive calls on one text; texts are byte codes. */
static char *bytes(J *a, size_t *len)      /* exact size, terminated */
{
    size_t n = a ? json_object_array_length(a) : 0; char *p = malloc(n + 1);
    for (size_t i = 0; i < n; i++) p[i] = (char)json_object_get_int(json_object_array_get_idx(a, i));
    p[n] = 0;
    if (len) *len = n;
    return p;
}
static J *codes(const char *s, size_t n) { J *a = json_object_new_array(); for (size_t i = 0; i < n; i++) json_object_array_add(a, i2j((unsigned char)s[i])); return a; }
static J *codes_take(char *s) { J *r = codes(s, strlen(s)); g_free(s); return r; }
#define NONE ((char *)0x5a5a)
#define IS(n) (!strcmp(f, n))
static char **list(J *a, size_t *n)
{
    *n = a ? json_object_array_length(a) : 0;
    char **l = calloc(*n + 1, sizeof *l);
    for (size_t i = 0; i < *n; i++) l[i] = bytes(json_object_array_get_idx(a, i), NULL);
    return l;
}
static J *op_scan(J *op)
{
    size_t len; char *text = bytes(jget(op, "text"), &len); const char *p = text;
    struct sr_location loc; sr_location_init(&loc);
    J *res = json_object_new_array(), *calls = jget(op, "calls");
    for (size_t i = 0; i < json_object_array_length(calls); i++)
    {
        J *o = json_object_array_get_idx(calls, i), *val = NULL;
        const char *f = jstr(o, "op"), *q = p; char *set = bytes(jget(o, "set"), NULL), *s = NONE; char c = (char)jint(o, "c", 0), r = 0x5a;
        long long ret = 0; int line = 77, column = 77; bool located = false; uint32_t u32 = 0x5a5a5a; uint64_t u64 = 0x5a5a5a;
        if (IS("goto")) { q = text + jint(o, "c", 0); sr_location_init(&loc); for (p = text; p < q; p++) sr_location_eat_char(&loc, *p); }
        else if (IS("eat")) { if (*q) q++; }
        else if (IS("skip_char")) ret = sr_skip_char(&q, c);
        else if (IS("skip_char_limited")) ret = sr_skip_char_limited(&q, set);
        else if (IS("parse_char_limited")) { ret = sr_parse_char_limited(&q, set, &r); if (r != 0x5a || ret) val = codes(&r, 1); }
        else if (IS("skip_char_sequence")) ret = sr_skip_char_sequence(&q, c);
        else if (IS("skip_char_span")) ret = sr_skip_char_span(&q, set);
        else if (IS("skip_char_span_location")) { ret = sr_skip_char_span_location(&q, set, &line, &column); located = true; }
        else if (IS("parse_char_span")) { ret = sr_parse_char_span(&q, set, &s); if (s != NONE) val = codes_take(s); }
        else if (IS("skip_char_cspan")) ret = sr_skip_char_cspan(&q, set);
        else if (IS("parse_char_cspan")) { ret = sr_parse_char_cspan(&q, set, &s); if (s != NONE) val = codes_take(s); }
        else if (IS("skip_string")) ret = sr_skip_string(&q, set);
        else if (IS("parse_string")) { ret = sr_parse_string(&q, set, &s); if (s != NONE) val = codes_take(s); }
        else if (IS("parse_digit")) ret = (unsigned char)sr_parse_digit(&q);
        else if (IS("skip_uint")) ret = sr_skip_uint(&q);
        else if (IS("parse_uint32")) { ret = sr_parse_uint32(&q, &u32); if (ret || u32 != 0x5a5a5a) val = u2j(u32); }
        else if (IS("parse_uint64")) { ret = sr_parse_uint64(&q, &u64); if (ret || u64 != 0x5a5a5a) val = u2j(u64); }
        else if (IS("skip_hexadecimal_uint")) ret = sr_skip_hexadecimal_uint(&q);
        else if (IS("skip_hexadecimal_0xuint")) ret = sr_skip_hexadecimal_0xuint(&q);
        else if (IS("parse_hexadecimal_uint64")) { ret = sr_parse_hexadecimal_uint64(&q, &u64); if (ret || u64 != 0x5a5a5a) val = h2j(u64); }
        else if (IS("parse_hexadecimal_0xuint64")) { ret = sr_parse_hexadecimal_0xuint64(&q, &u64); if (ret || u64 != 0x5a5a5a) val = h2j(u64); }
        else if (IS("skip_whitespace")) q = sr_skip_whitespace(q);
        else if (IS("skip_non_whitespace")) q = sr_skip_non_whitespace(q);
        else if (IS("skip_to_next_line")) { ret = sr_skip_to_next_line_location(&q, &loc.line, &loc.column); p = q; }
        else if (IS("strchr")) { const char *x = sr_strchr_location(q, (int)jint(o, "c", 0), &line, &column); ret = x != NULL; if (x) { q = x; located = true; } }
        else if (IS("strstr")) { const char *x = sr_strstr_location(q, set, &line, &column); ret = x != NULL; if (x) { q = x; located = true; } }
        else if (IS("strspn")) { ret = (long long)sr_strspn_location(q, set, &line, &column); q += ret; located = true; }
        else if (IS("indent")) val = codes_take(sr_indent(q, (int)jint(o, "c", 0)));
        else if (IS("indent_rest")) val = codes_take(sr_indent_except_first_line(q, (int)jint(o, "c", 0)));
        else if (IS("anonymize_path")) val = codes_take(anonymize_path(g_strdup(q)));
        else if (IS("bin2hex")) { size_t n = strlen(q); char *d = malloc(2 * n); ret = sr_bin2hex(d, q, (int)n) - d; val = codes(d, 2 * n); free(d); }
        else if (IS("build_path")) { size_t n; char **l = list(jget(o, "list"), &n); val = codes_take(n == 1 ? sr_build_path(l[0], NULL) : n == 2 ? sr_build_path(l[0], l[1], NULL) : sr_build_path(l[0], l[1], l[2], NULL)); }
        else if (IS("struniq")) { size_t n; char **l = list(jget(o, "list"), &n); sr_struniq(l, &n); val = json_object_new_array(); for (size_t k = 0; k < n; k++) json_object_array_add(val, codes(l[k], strlen(l[k]))); }
        else if (IS("location_string")) { struct sr_location x = { (int)jint(o, "line", 1), (int)jint(o, "c", 0), jget(o, "set") ? set : NULL }; val = codes_take(sr_location_to_string(&x)); }
        else if (IS("location_cmp")) { struct sr_location x = { (int)jint(o, "line", 1), (int)jint(o, "c", 0), jget(o, "set") ? set : NULL }, y = { (int)jint(o, "line2", 1), (int)jint(o, "c2", 0), jget(o, "set2") ? bytes(jget(o, "set2"), NULL) : NULL }; ret = sgn(sr_location_cmp(&x, &y, jbool(o, "messages", false))); }
        else { fprintf(stderr, "HARNESS: scan %s\n", f); exit(3); }
        if (located) { if (q == p && (line != 1 || column != 0) && !IS("skip_char_span_location")) ret = -99; sr_location_add(&loc, line, column); p = q; }
        for (; p < q; p++) sr_location_eat_char(&loc, *p);
        p = q;
        J *x = json_object_new_object();
        json_object_object_add(x, "ret", i2j(ret)); json_object_object_add(x, "val", val ? val : s2j(NULL)); json_object_object_add(x, "pos", i2j(q - text));
        json_object_object_add(x, "line", i2j(loc.line)); json_object_object_add(x, "column", i2j(loc.column));
        json_object_array_add(res, x);
    }
    return res;
}
/* files in a scratch directory */
static J *op_file(J *op)
{
    char dir[] = "/tmp/satyr-scan-XXXXXX"; if (!mkdtemp(dir)) exit(3);
    J *res = json_object_new_array(), *calls = jget(op, "calls");
    for (size_t i = 0; i < json_object_array_length(calls); i++)
    {
        J *o = json_object_array_get_idx(calls, i), *x = json_object_new_object(); char *err = NULL, *path = g_strdup_printf("%s/%s", dir, jstr(o, "name")), *t;
        if (!strcmp(jstr(o, "op"), "write")) { t = bytes(jget(o, "text"), NULL); json_object_object_add(x, "ok", b2j(sr_string_to_file(path, t, &err))); free(t); }
        else { t = sr_file_to_string(path, &err); json_object_object_add(x, "ok", b2j(t != NULL)); json_object_object_add(x, "text", t ? codes_take(t) : s2j(NULL)); }
        json_object_object_add(x, "err", b2j(err && *err)); g_free(err); g_free(path);
        json_object_array_add(res, x);
    }
    char *names[] = { "a", "b", NULL };
    for (char **n = names; *n; n++) { char *path = g_strdup_printf("%s/%s", dir, *n); unlink(path); g_free(path); }
    rmdir(dir);
    return res;
}
struct op ops_scan[] = { { "scan", op_scan }, { "file", op_file }, { NULL, NULL } };
