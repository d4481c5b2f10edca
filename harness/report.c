#include "h.h"
#define OFF(t, m) offsetof(struct t, m)
static const struct fld f_os[] = { { "name", F_STR, OFF(sr_operating_system, name) }, { "version", F_STR, OFF(sr_operating_system, version) },
    { "architecture", F_STR, OFF(sr_operating_system, architecture) }, { "cpe", F_STR, OFF(sr_operating_system, cpe) }, { "uptime", F_U64, OFF(sr_operating_system, uptime) },
    { "desktop", F_STR, OFF(sr_operating_system, desktop) }, { "variant", F_STR, OFF(sr_operating_system, variant) }, { NULL, 0, 0 } };
static const struct fld f_pkg[] = { { "name", F_STR, OFF(sr_rpm_package, name) }, { "epoch", F_U32, OFF(sr_rpm_package, epoch) }, { "version", F_STR, OFF(sr_rpm_package, version) },
    { "release", F_STR, OFF(sr_rpm_package, release) }, { "architecture", F_STR, OFF(sr_rpm_package, architecture) }, { "install_time", F_U64, OFF(sr_rpm_package, install_time) },
    { "role", F_U32, OFF(sr_rpm_package, role) }, { NULL, 0, 0 } };
static const struct fld f_rep[] = { { "report_version", F_U32, OFF(sr_report, report_version) }, { "reporter_name", F_STR, OFF(sr_report, reporter_name) },
    { "reporter_version", F_STR, OFF(sr_report, reporter_version) }, { "user_root", F_BOOL, OFF(sr_report, user_root) }, { "user_local", F_BOOL, OFF(sr_report, user_local) },
    { "component_name", F_STR, OFF(sr_report, component_name) }, { "serial", F_U32, OFF(sr_report, serial) }, { NULL, 0, 0 } };
#define NARR(a) (a ? json_object_array_length(a) : 0)
#define AT(a, i) json_object_array_get_idx(a, i)

struct sr_rpm_package *pkg_make(J *o)
{
    struct sr_rpm_package *p = sr_rpm_package_new();
    flds_load(f_pkg, p, o);
    return p;
}
J *pkg_dump(struct sr_rpm_package *p)
{
    J *o = json_object_new_object();
    flds_dump(f_pkg, p, o);
    return o;
}
struct sr_rpm_package *pkgs_make(J *a)
{
    struct sr_rpm_package *first = NULL, **last = &first;
    for (size_t i = 0; i < NARR(a); i++) { *last = pkg_make(AT(a, i)); last = &(*last)->next; }
    return first;
}
J *pkgs_dump(struct sr_rpm_package *p)
{
    J *a = json_object_new_array(); int n = 0;
    for (; p; p = p->next) { json_object_array_add(a, pkg_dump(p)); if (++n > 100000) { json_object_array_add(a, s2j("cycle")); break; } }
    return a;
}
J *os_dump(struct sr_operating_system *s)
{
    if (!s) return s2j(NULL);
    J *o = json_object_new_object();
    flds_dump(f_os, s, o);
    return o;
}
struct sr_operating_system *os_make(J *o)
{
    struct sr_operating_system *s = sr_operating_system_new();
    flds_load(f_os, s, o);
    return s;
}
static struct sr_report *rep_make(J *o)
{
    struct sr_report *r = sr_report_new();
    flds_load(f_rep, r, o);
    r->report_type = typ(o, "report_type");
    J *os = jget(o, "os"), *st = jget(o, "stacktrace"), *a = jget(o, "auth");
    if (NARR(os)) r->operating_system = os_make(AT(os, 0));
    if (NARR(st)) r->stacktrace = st_make(typ(AT(st, 0), "type"), AT(st, 0));
    r->rpm_packages = pkgs_make(jget(o, "packages"));
    for (size_t i = NARR(a); i-- > 0; ) sr_report_add_auth(r, j2s(AT(AT(a, i), 0)), j2s(AT(AT(a, i), 1)));
    return r;
}
static J *one(J *x) { J *a = json_object_new_array(); if (!json_object_is_type(x, json_type_string)) json_object_array_add(a, x); else json_object_put(x); return a; }
J *rep_dump(struct sr_report *r)
{
    if (!r) return s2j(NULL);
    J *o = json_object_new_object(), *auth = json_object_new_array();
    flds_dump(f_rep, r, o);
    json_object_object_add(o, "report_type", s2j(typname(r->report_type)));
    json_object_object_add(o, "os", one(os_dump(r->operating_system)));
    json_object_object_add(o, "stacktrace", one(st_dump(r->stacktrace)));
    json_object_object_add(o, "packages", pkgs_dump(r->rpm_packages));
    for (struct sr_report_custom_entry *e = r->auth_entries; e; e = e->next) {
        J *x = json_object_new_array(); json_object_array_add(x, s2j(e->key)); json_object_array_add(x, s2j(e->value)); json_object_array_add(auth, x);
    }
    json_object_object_add(o, "auth", auth);
    return o;
}
static J *op_new_report(J *op) { hset_op(op, "h", rep_make(jget(op, "rep"))); return b2j(true); }
static J *op_dump_report(J *op) { return rep_dump(hget(op, "h")); }
static J *op_report_to_json(J *op) { return take2j(sr_report_to_json(hget(op, "h"))); }
static J *op_report_from_json(J *op)
{
    char *err = NULL, **ep = jbool(op, "noerr", false) ? NULL : &err, *mine = NULL;
    const char *text = jstr(op, "text");
    if (!text) text = mine = sr_report_to_json(hget(op, "from"));
    struct sr_report *r = sr_report_from_json_text(text, ep);
    J *o = json_object_new_object();
    json_object_object_add(o, "rep", rep_dump(r));
    json_object_object_add(o, "err", s2j(err));
    g_free(mine);
    if (jstr(op, "h")) hset_op(op, "h", r); else if (r) sr_report_free(r);
    return o;
}
static J *op_free_report(J *op) { sr_report_free(hget(op, "h")); return b2j(true); }
struct op ops_report[] = { { "new_report", op_new_report }, { "dump_report", op_dump_report }, { "report_to_json", op_report_to_json },
    { "report_from_json", op_report_from_json }, { "free_report", op_free_report }, { NULL, NULL } };
