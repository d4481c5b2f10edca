#include "h.h"
#include "unstrip.h"
J *loc_dump(struct sr_location *l)
{
    J *o = json_object_new_object();
    json_object_object_add(o, "line", i2j(l->line)); json_object_object_add(o, "column", i2j(l->column));
    json_object_object_add(o, "msg", s2j(l->message));
    return o;
}
/* exact-size copy, so that any over-read is caught */
static char *exact(const char *t) { size_t n = strlen(t) + 1; char *p = malloc(n); memcpy(p, t, n); return p; }
/* parse a whole trace through the public polymorphic entry point */
static J *op_parse(J *op)
{
    char *err = NULL, *t = exact(jstr(op, "text")); void *s = sr_stacktrace_parse(typ(op, "type"), t, &err);
    free(t);
    hset_op(op, "h", s);
    J *o = json_object_new_object();
    json_object_object_add(o, "st", st_dump(s));
    json_object_object_add(o, "err", s2j(err));
    return o;
}
static J *op_parse_libs(J *op)
{
    char *t = exact(jstr(op, "text"));
    struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_parse(t), *n;
    J *r = libs_dump(l);
    for (; l; l = n) { n = l->next; sr_gdb_sharedlib_free(l); }
    free(t);
    return r;
}
static J *op_unstrip(J *op)
{
    char *t = exact(jstr(op, "text"));
    struct sr_unstrip_entry *u = sr_unstrip_parse(t);
    J *o = json_object_new_object(), *es = json_object_new_array(), *fs = json_object_new_array(), *as = jget(op, "addrs");
    for (struct sr_unstrip_entry *e = u; e; e = e->next)
    {
        J *x = json_object_new_object();
        json_object_object_add(x, "start", h2j(e->start)); json_object_object_add(x, "length", h2j(e->length));
        json_object_object_add(x, "build_id", s2j(e->build_id)); json_object_object_add(x, "file_name", s2j(e->file_name)); json_object_object_add(x, "mod_name", s2j(e->mod_name));
        json_object_array_add(es, x);
    }
    for (size_t i = 0; as && i < json_object_array_length(as); i++)
    {
        struct sr_unstrip_entry *f = sr_unstrip_find_address(u, j2u64(json_object_array_get_idx(as, i))), *e = u; int k = 0;
        while (e && e != f) { e = e->next; k++; }
        json_object_array_add(fs, i2j(f ? k : -1));
    }
    json_object_object_add(o, "entries", es); json_object_object_add(o, "found", fs);
    sr_unstrip_free(u); free(t);
    return o;
}
/* stack traces as JSON */
static J *op_to_json(J *op)
{
    J *r = take2j(sr_stacktrace_to_json(hget(op, "h")));
    return r;
}
static J *op_from_json(J *op)
{
    char *err = NULL, **ep = jbool(op, "noerr", false) ? NULL : &err, *mine = NULL;
    const char *text = jstr(op, "text"), *via = jstr(op, "via"); enum sr_report_type t = typ(op, "type");
    void *s;
    if (!text) text = mine = sr_stacktrace_to_json(hget(op, "from"));
    if (via && !strcmp(via, "core")) s = sr_core_stacktrace_from_json_text(text, ep);
    else if (via && !strcmp(via, "object")) { J *o = json_tokener_parse(text); s = sr_stacktrace_from_json(t, o, ep); json_object_put(o); }
    else s = sr_stacktrace_from_json_text(t, text, ep);
    hset_op(op, "h", s);
    J *o = json_object_new_object();
    json_object_object_add(o, "st", st_dump(s));
    json_object_object_add(o, "err", s2j(err));
    g_free(err); g_free(mine);
    return o;
}
struct op ops_text[] = { { "to_json", op_to_json }, { "from_json", op_from_json }, { "parse", op_parse }, { "parse_libs", op_parse_libs }, { "unstrip", op_unstrip }, { NULL, NULL } };
