/* Conformance driver: executes scripts of operations on the real libsatyr and
 * reports the projected abstract state as JSON. */
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
#include <glib.h>
#include <json.h>
#include "frame.h"
#include "thread.h"
#include "stacktrace.h"
#include "report_type.h"
#include "report.h"
#include "abrt.h"
#include "rpm.h"
#include "operating_system.h"
#include "location.h"
#include "distance.h"
#include "normalize.h"
#include "utils.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "core/unwind.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/stacktrace.h"
#include "gdb/sharedlib.h"
#include "java/frame.h"
#include "java/thread.h"
#include "java/stacktrace.h"
#include "js/frame.h"
#include "js/platform.h"
#include "js/stacktrace.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"
#include "python/frame.h"
#include "python/stacktrace.h"
#include "ruby/frame.h"
#include "ruby/stacktrace.h"

typedef json_object J;
typedef J *(*opfn)(J *op);
struct op { const char *name; opfn fn; };
extern struct op ops_core[], ops_metrics[], ops_text[], ops_report[], ops_rpm[], ops_scan[], ops_dump[];

void *hget(J *op, const char *key);          /* handle named by op[key] */
void *hget_name(const char *name);
void hset(const char *name, void *p);
void hset_op(J *op, const char *key, void *p);

J *jget(J *o, const char *k);                /* NULL if absent */
const char *jstr(J *o, const char *k);       /* NULL if absent or "@null" */
long long jint(J *o, const char *k, long long dflt);
bool jbool(J *o, const char *k, bool dflt);
uint64_t j2u64(J *v);
const char *j2s(J *v);
J *s2j(const char *s);                       /* NULL -> "@null" */
J *take2j(char *s);                          /* as s2j; frees s */
J *u2j(uint64_t v);
J *h2j(uint64_t v); /* 64-bit fields: lower-case hex */
J *i2j(int64_t v);
J *b2j(bool b);
J *f2j(double d);
int sgn(int x);

enum fk { F_STR, F_U64, F_U32, F_U16, F_BOOL };
struct fld { const char *name; enum fk kind; size_t off; };
void flds_load(const struct fld *f, void *obj, J *src);
void flds_dump(const struct fld *f, void *obj, J *dst);

enum sr_report_type typ(J *op, const char *k);
const char *typname(enum sr_report_type t);
struct sr_frame *frame_make(enum sr_report_type t, J *spec);
J *frame_dump(struct sr_frame *f);
J *frames_dump(struct sr_frame *f);
struct sr_thread *thread_make(enum sr_report_type t, J *spec);
J *thread_dump(struct sr_thread *t);
struct sr_stacktrace *st_make(enum sr_report_type t, J *spec);
J *st_dump(struct sr_stacktrace *s);
J *libs_dump(struct sr_gdb_sharedlib *l);
struct sr_frame *frame_at(struct sr_thread *t, int i);
struct sr_thread *thread_at(struct sr_stacktrace *t, int i);
bool multi(enum sr_report_type t);
J *loc_dump(struct sr_location *l);
#endif
