#include "h.h"
#include <unistd.h>
#include <sys/stat.h>
#include <rpm/rpmlib.h>
#include <rpm/rpmts.h>
#include <rpm/rpmdb.h>
#include <rpm/header.h>
struct sr_rpm_package *pkg_make(J *o);
J *pkg_dump(struct sr_rpm_package *p);
struct sr_rpm_package *sr_abrt_parse_dso_list(const char *text);
#define NARR(a) ((a) ? json_object_array_length(a) : 0)
#define AT(a, i) json_object_array_get_idx(a, i)
#define B(m) { #m, F_BOOL, offsetof(struct sr_rpm_consistency, m) }
static const struct fld f_cons[] = { { "path", F_STR, offsetof(struct sr_rpm_consistency, path) }, B(owner_changed), B(group_changed), B(mode_changed), B(md5_mismatch),
    B(size_changed), B(major_number_changed), B(minor_number_changed), B(symlink_changed), B(modification_time_changed), { NULL, 0, 0 } };
static struct sr_rpm_package *full_make(J *o)
{
    struct sr_rpm_package *p = pkg_make(o);
    J *cs = jget(o, "consistency");
    for (size_t i = 0; i < NARR(cs); i++)
    {
        struct sr_rpm_consistency *c = sr_rpm_consistency_new();
        flds_load(f_cons, c, AT(cs, i));
        p->consistency = sr_rpm_consistency_append(p->consistency, c);
    }
    return p;
}
static J *full_dump(struct sr_rpm_package *p)
{
    J *o = pkg_dump(p), *cs = json_object_new_array();
    for (struct sr_rpm_consistency *c = p->consistency; c; c = c->next) { J *x = json_object_new_object(); flds_dump(f_cons, c, x); json_object_array_add(cs, x); }
    json_object_object_add(o, "consistency", cs);
    return o;
}
static struct sr_rpm_package *list_make(J *a)
{
    struct sr_rpm_package *l = NULL;
    for (size_t i = 0; i < NARR(a); i++) l = sr_rpm_package_append(l, full_make(AT(a, i)));
    return l;
}
static J *list_dump(struct sr_rpm_package *p)
{
    J *a = json_object_new_array(); int n = 0;
    for (; p; p = p->next) { json_object_array_add(a, full_dump(p)); if (++n > 10000) break; }
    return a;
}
static J *op_pkg_cmp(J *op)
{
    J *xs = jget(op, "xs"), *m = json_object_new_array(); size_t n = NARR(xs);
    struct sr_rpm_package *p[64];
    for (size_t i = 0; i < n; i++) p[i] = full_make(AT(xs, i));
    for (size_t i = 0; i < n; i++) {
        J *row = json_object_new_array();
        for (size_t j = 0; j < n; j++) {
            J *c = json_object_new_array();
            json_object_array_add(c, i2j(sgn(sr_rpm_package_cmp_nvr(p[i], p[j])))); json_object_array_add(c, i2j(sgn(sr_rpm_package_cmp_nevra(p[i], p[j]))));
            json_object_array_add(c, i2j(sgn(sr_rpm_package_cmp(p[i], p[j]))));
            json_object_array_add(row, c);
        }
        json_object_array_add(m, row);
    }
    for (size_t i = 0; i < n; i++) sr_rpm_package_free(p[i], true);
    return m;
}
static J *op_pkg_lists(J *op)
{
    J *xs = jget(op, "xs"), *o = json_object_new_object();
    struct sr_rpm_package *l = list_make(xs);
    json_object_object_add(o, "count", i2j(sr_rpm_package_count(l)));
    l = sr_rpm_package_sort(l); json_object_object_add(o, "sorted", list_dump(l));
    l = sr_rpm_package_uniq(l); json_object_object_add(o, "both", list_dump(l)); sr_rpm_package_free(l, true);
    l = sr_rpm_package_uniq(list_make(xs)); json_object_object_add(o, "uniq", list_dump(l)); sr_rpm_package_free(l, true);
    return o;
}
static J *one_of(bool ok, J *x) { J *a = json_object_new_array(); if (ok) json_object_array_add(a, x); else json_object_put(x); return a; }
static J *op_pkg_names(J *op)
{
    const char *t0 = jstr(op, "text"); char *t = malloc(strlen(t0) + 1); strcpy(t, t0);
    J *o = json_object_new_object(), *x = json_object_new_object(), *y = json_object_new_object();
    char *n = NULL, *v = NULL, *r = NULL, *a = NULL; uint32_t e = 0;
    bool ok = sr_rpm_package_parse_nvr(t, &n, &v, &r);
    if (ok) { json_object_object_add(x, "name", take2j(n)); json_object_object_add(x, "version", take2j(v)); json_object_object_add(x, "release", take2j(r)); }
    json_object_object_add(o, "nvr", one_of(ok, x));
    n = v = r = NULL;
    ok = sr_rpm_package_parse_nevra(t, &n, &e, &v, &r, &a);
    if (ok) { json_object_object_add(y, "name", take2j(n)); json_object_object_add(y, "epoch", u2j(e)); json_object_object_add(y, "version", take2j(v)); json_object_object_add(y, "release", take2j(r)); json_object_object_add(y, "architecture", take2j(a)); }
    json_object_object_add(o, "nevra", one_of(ok, y));
    free(t);
    return o;
}
static J *op_dso_list(J *op)
{
    const char *t0 = jstr(op, "text"); char *t = malloc(strlen(t0) + 1); strcpy(t, t0);
    struct sr_rpm_package *l = sr_abrt_parse_dso_list(t);
    J *r = list_dump(l);
    sr_rpm_package_free(l, true); free(t);
    return r;
}
static J *op_pkg_json(J *op) /* as one record / as a list: text, then read back */
{
    J *xs = jget(op, "xs"), *o = json_object_new_object(), *singles = json_object_new_array();
    struct sr_rpm_package *l = list_make(xs), *q;
    for (struct sr_rpm_package *p = l; p; p = p->next) {
        J *x = json_object_new_array(); char *t = sr_rpm_package_to_json(p, false), *err = NULL; J *doc = json_tokener_parse(t);
        q = NULL; int rc = sr_rpm_package_from_json(&q, doc, false, &err);
        json_object_array_add(x, s2j(t)); json_object_array_add(x, list_dump(q)); json_object_array_add(x, i2j(rc)); json_object_array_add(singles, x);
        g_free(t); json_object_put(doc); sr_rpm_package_free(q, true);
    }
    char *t = sr_rpm_package_to_json(l, true), *err = NULL; J *doc = json_tokener_parse(t);
    q = NULL; int rc = sr_rpm_package_from_json(&q, doc, true, &err);
    json_object_object_add(o, "singles", singles); json_object_object_add(o, "text", s2j(t)); json_object_object_add(o, "back", list_dump(q)); json_object_object_add(o, "rc", i2j(rc));
    g_free(t); json_object_put(doc); sr_rpm_package_free(q, true); sr_rpm_package_free(l, true);
    return o;
}
/* A stand-in for the RPM database: it hands out the headers of the case. */
static J *db_headers; static size_t db_next; static char *db_asked; static int db_config, db_tag; static Header db_last;
int rpmReadConfigFiles(const char *f, const char *t) { return db_config; }
rpmts rpmtsCreate(void) { return (rpmts)calloc(1, 16); }
rpmts rpmtsFree(rpmts ts) { free(ts); return NULL; }
rpmdbMatchIterator rpmtsInitIterator(const rpmts ts, rpmDbiTagVal tag, const void *key, size_t len)
{
    g_free(db_asked); db_asked = g_strndup(key, len ? len : strlen(key)); db_tag = tag; db_next = 0;
    return (rpmdbMatchIterator)calloc(1, 16);
}
rpmdbMatchIterator rpmdbFreeIterator(rpmdbMatchIterator mi) { if (db_last) headerFree(db_last); db_last = NULL; free(mi); return NULL; }
static void put_s(Header h, rpmTagVal tag, J *o, const char *k) { const char *s = jstr(o, k); if (s) headerPutString(h, tag, s); }
static void put_n(Header h, rpmTagVal tag, J *o, const char *k) { const char *s = jstr(o, k); if (s) { uint32_t v = (uint32_t)strtoull(s, NULL, 0); headerPutUint32(h, tag, &v, 1); } }
Header rpmdbNextIterator(rpmdbMatchIterator mi)
{
    if (db_last) headerFree(db_last);
    db_last = NULL;
    if (db_next >= NARR(db_headers)) return NULL;
    J *o = AT(db_headers, db_next++); Header h = headerNew();
    put_s(h, RPMTAG_NAME, o, "name"); put_s(h, RPMTAG_VERSION, o, "version"); put_s(h, RPMTAG_RELEASE, o, "release"); put_s(h, RPMTAG_ARCH, o, "architecture");
    put_n(h, RPMTAG_EPOCH, o, "epoch"); put_n(h, RPMTAG_INSTALLTIME, o, "install_time");
    return db_last = h;
}
static J *op_pkg_db(J *op)
{
    const char *what = jstr(op, "key"); char *err = NULL; bool path = jbool(op, "path", false);
    db_headers = jget(op, "hs"); db_config = jbool(op, "noconfig", false);
    struct sr_rpm_package *l = path ? sr_rpm_package_get_by_path(what, &err) : sr_rpm_package_get_by_name(what, &err);
    J *o = json_object_new_object();
    json_object_object_add(o, "ok", b2j(err == NULL)); json_object_object_add(o, "pkgs", list_dump(l));
    if (!db_config) { json_object_object_add(o, "asked", s2j(db_asked)); json_object_object_add(o, "by_path", b2j(db_tag == RPMTAG_BASENAMES)); }
    sr_rpm_package_free(l, true);
    return o;
}
/* ---- operating system, problem directories ---- */
J *os_dump(struct sr_operating_system *s);
J *rep_dump(struct sr_report *r);
static J *pick(struct sr_operating_system *os)
{
    J *o = json_object_new_object();
    json_object_object_add(o, "name", s2j(os->name)); json_object_object_add(o, "version", s2j(os->version)); json_object_object_add(o, "cpe", s2j(os->cpe)); json_object_object_add(o, "variant", s2j(os->variant));
    return o;
}
static J *op_os_parse(J *op)
{
    const char *t0 = jstr(op, "text"); char *t = malloc(strlen(t0) + 1), *n = NULL, *v = NULL; strcpy(t, t0);
    J *o = json_object_new_object(), *y = json_object_new_object();
    struct sr_operating_system *os = sr_operating_system_new();
    bool ok = sr_operating_system_parse_etc_os_release(t, os);
    json_object_object_add(o, "release", one_of(ok, pick(os)));
    ok = sr_operating_system_parse_etc_system_release(t, &n, &v);
    if (ok) { json_object_object_add(y, "name", take2j(n)); json_object_object_add(y, "version", take2j(v)); }
    json_object_object_add(o, "system", one_of(ok, y));
    sr_operating_system_free(os); free(t);
    return o;
}
/* a problem directory is made in the driver's own scratch directory; a null entry is a directory of that name */
static J *op_report_from_dir(J *op)
{
    char dir[] = "problem-XXXXXX"; J *files = jget(op, "files"), *o = json_object_new_object(); char *err = NULL;
    if (!mkdtemp(dir)) { fprintf(stderr, "HARNESS: mkdtemp\n"); exit(3); }
    json_object_object_foreach(files, k, v) {
        char *p = g_build_filename(dir, k, NULL);
        if (!v) { if (mkdir(p, 0700)) { fprintf(stderr, "HARNESS: mkdir\n"); exit(3); } }
        else if (!g_file_set_contents(p, json_object_get_string(v), json_object_get_string_len(v), NULL)) { fprintf(stderr, "HARNESS: write\n"); exit(3); }
        g_free(p);
    }
    struct sr_report *r = sr_abrt_report_from_dir(dir, &err);
    json_object_object_add(o, "rep", one_of(r != NULL, rep_dump(r)));
    json_object_object_add(o, "err", b2j(err != NULL)); json_object_object_add(o, "msg", s2j(err));
    if (r) { json_object_object_add(o, "name", s2j(r->reporter_name)); json_object_object_add(o, "version", s2j(r->reporter_version)); sr_report_free(r); }
    json_object_object_foreach(files, k2, v2) { char *p = g_build_filename(dir, k2, NULL); if (v2) unlink(p); else rmdir(p); g_free(p); }
    rmdir(dir); g_free(err);
    return o;
}
struct op ops_rpm[] = { { "pkg_cmp", op_pkg_cmp }, { "pkg_lists", op_pkg_lists }, { "pkg_names", op_pkg_names }, { "dso_list", op_dso_list }, { "pkg_json", op_pkg_json },
    { "pkg_db", op_pkg_db }, { "os_parse", op_os_parse }, { "report_from_dir", op_report_from_dir }, { NULL, NULL } };
