#include "h.h"
#include "cluster.h"
static struct sr_thread **threads_arr(J *op, int *n)
{
    J *a = jget(op, "ts"); *n = (int)json_object_array_length(a);
    struct sr_thread **v = g_malloc_n(*n + 1, sizeof *v);
    for (int i = 0; i < *n; i++) v[i] = hget_name(j2s(json_object_array_get_idx(a, i)));
    return v;
}
static J *dist_dump(struct sr_distances *d)
{
    if (!d) return s2j(NULL);
    J *o = json_object_new_object(), *a = json_object_new_array();
    json_object_object_add(o, "m", i2j(d->m));
    json_object_object_add(o, "n", i2j(d->n));
    for (int i = 0; i < d->m; i++) {
        J *r = json_object_new_array();
        for (int j = i + 1; j < d->n; j++) json_object_array_add(r, f2j(sr_distances_get_distance(d, i, j)));
        json_object_array_add(a, r);
    }
    json_object_object_add(o, "d", a);
    return o;
}
static J *op_distance(J *op) { return f2j(sr_distance((int)jint(op, "k", 0), hget(op, "a"), hget(op, "b"))); }
static J *op_compare(J *op)
{
    int n; struct sr_thread **v = threads_arr(op, &n);
    struct sr_distances *d = sr_threads_compare(v, (int)jint(op, "m", n), n, (int)jint(op, "k", 0));
    hset_op(op, "h", d);
    g_free(v);
    return dist_dump(d);
}
static J *op_parts_create(J *op)
{
    struct sr_distances_part *p = sr_distances_part_create((int)jint(op, "m", 0), (int)jint(op, "n", 0), (int)jint(op, "k", 0), (unsigned)jint(op, "nparts", 1));
    J *a = json_object_new_array(); int i = 0;
    for (struct sr_distances_part *x = p; x; x = x->next, i++) {
        J *o = json_object_new_object();
        json_object_object_add(o, "m", i2j(x->m)); json_object_object_add(o, "n", i2j(x->n));
        json_object_object_add(o, "i", i2j(x->m_begin)); json_object_object_add(o, "j", i2j(x->n_begin));
        json_object_object_add(o, "len", i2j((int64_t)x->len)); json_object_object_add(o, "k", i2j(x->dist_type));
        json_object_array_add(a, o);
        char *nm = g_strdup_printf("%s.%d", jstr(op, "h"), i); hset(nm, x); g_free(nm);
    }
    return a;
}
static J *op_part_new(J *op)
{
    hset_op(op, "h", sr_distances_part_new((int)jint(op, "m", 0), (int)jint(op, "n", 0), (int)jint(op, "k", 0), (int)jint(op, "i", 0), (int)jint(op, "j", 1), (size_t)jint(op, "len", 0)));
    return b2j(true);
}
static J *op_part_compute(J *op)
{
    int n; struct sr_thread **v = threads_arr(op, &n); struct sr_distances_part *p = hget(op, "h");
    sr_distances_part_compute(p, v);
    J *a = json_object_new_array();
    for (size_t i = 0; i < p->len; i++) json_object_array_add(a, f2j(p->distances[i]));
    g_free(v);
    return a;
}
static J *op_parts_merge(J *op) /* relink the listed parts in this order and merge */
{
    J *a = jget(op, "parts"); struct sr_distances_part *first = NULL, *last = NULL;
    for (size_t i = 0; i < json_object_array_length(a); i++) {
        struct sr_distances_part *p = hget_name(j2s(json_object_array_get_idx(a, i)));
        p->next = NULL;
        if (last) last->next = p; else first = p;
        last = p;
    }
    struct sr_distances *d = sr_distances_part_merge(first);
    hset_op(op, "h", d);
    return dist_dump(d);
}
static J *op_dist_new(J *op)
{
    struct sr_distances *d = sr_distances_new((int)jint(op, "m", 0), (int)jint(op, "n", 0)); J *a = jget(op, "d");
    for (int i = 0; i < d->m; i++) {
        J *r = json_object_array_get_idx(a, i);
        for (int j = i + 1; j < d->n; j++) {
            double v = json_object_get_double(json_object_array_get_idx(r, j - i - 1));
            if (jbool(op, "rev", false)) sr_distances_set_distance(d, j, i, (float)v); else sr_distances_set_distance(d, i, j, (float)v);
        }
    }
    hset_op(op, "h", d);
    return dist_dump(d);
}
static J *op_dist_set(J *op) { sr_distances_set_distance(hget(op, "h"), (int)jint(op, "i", 0), (int)jint(op, "j", 0), (float)json_object_get_double(jget(op, "v"))); return b2j(true); }
static J *op_dist_get(J *op) { return f2j(sr_distances_get_distance(hget(op, "h"), (int)jint(op, "i", 0), (int)jint(op, "j", 0))); }
static J *op_dist_dump(J *op) { return dist_dump(hget(op, "h")); }
static J *op_dist_dup(J *op) { struct sr_distances *d = sr_distances_dup(hget(op, "h")); hset_op(op, "to", d); return dist_dump(d); }
static J *op_dist_free(J *op) { sr_distances_free(hget(op, "h")); return b2j(true); }
static J *op_cluster(J *op)
{
    struct sr_dendrogram *g = sr_distances_cluster_objects(hget(op, "h"));
    hset_op(op, "to", g);
    J *o = json_object_new_object(), *a = json_object_new_array(), *b = json_object_new_array();
    for (int i = 0; i < g->size; i++) json_object_array_add(a, i2j(g->order[i]));
    for (int i = 0; i + 1 < g->size; i++) json_object_array_add(b, f2j(g->merge_levels[i]));
    json_object_object_add(o, "size", i2j(g->size));
    json_object_object_add(o, "order", a); json_object_object_add(o, "levels", b);
    return o;
}
static J *op_dendro_new(J *op)
{
    J *a = jget(op, "order"), *b = jget(op, "levels"); int n = (int)json_object_array_length(a);
    struct sr_dendrogram *g = sr_dendrogram_new(n);
    for (int i = 0; i < n; i++) g->order[i] = json_object_get_int(json_object_array_get_idx(a, i));
    for (int i = 0; i + 1 < n; i++) g->merge_levels[i] = (float)json_object_get_double(json_object_array_get_idx(b, i));
    hset_op(op, "h", g);
    return b2j(true);
}
static J *op_cut(J *op)
{
    struct sr_cluster *c = sr_dendrogram_cut(hget(op, "h"), (float)json_object_get_double(jget(op, "level")), (int)jint(op, "min", 1));
    J *a = json_object_new_array();
    while (c) {
        J *r = json_object_new_array();
        for (int i = 0; i < c->size; i++) json_object_array_add(r, i2j(c->objects[i]));
        json_object_array_add(a, r);
        struct sr_cluster *n = c->next; sr_cluster_free(c); c = n;
    }
    return a;
}
struct op ops_metrics[] = {
    { "distance", op_distance }, { "compare", op_compare }, { "parts_create", op_parts_create }, { "part_new", op_part_new },
    { "part_compute", op_part_compute }, { "parts_merge", op_parts_merge }, { "dist_new", op_dist_new }, { "dist_set", op_dist_set },
    { "dist_get", op_dist_get }, { "dist_dump", op_dist_dump }, { "dist_dup", op_dist_dup }, { "dist_free", op_dist_free },
    { "cluster", op_cluster }, { "dendro_new", op_dendro_new }, { "cut", op_cut }, { NULL, NULL } };
