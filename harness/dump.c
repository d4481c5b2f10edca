#include "h.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/ptrace.h>
#include <sys/prctl.h>
#include <sys/wait.h>
static J *core_result(J *op, struct sr_core_stacktrace *s, char *err)
{
    J *o = json_object_new_object(), *ids = json_object_new_array();
    hset_op(op, "h", s);
    for (struct sr_core_thread *t = s ? s->threads : NULL; t; t = t->next) json_object_array_add(ids, i2j(t->id));
    json_object_object_add(o, "st", st_dump((void *)s));
    json_object_object_add(o, "ids", ids);
    json_object_object_add(o, "err", s2j(err));
    g_free(err);
    return o;
}
static J *op_coredump(J *op)
{
    char *err = NULL;
    struct sr_core_stacktrace *s = sr_parse_coredump(jstr(op, "core"), jstr(op, "exe"), jbool(op, "noerr", false) ? NULL : &err);
    return core_result(op, s, err);
}
static J *op_core_from_gdb(J *op)
{
    char *err = NULL, *t = strdup(jstr(op, "text"));
    struct sr_core_stacktrace *s = sr_core_stacktrace_from_gdb(t, jstr(op, "core"), jstr(op, "exe"), &err);
    free(t);
    return core_result(op, s, err);
}
static J *op_core_create(J *op)
{
    char *t = strdup(jstr(op, "text")), *u = strdup(jstr(op, "unstrip"));
    struct sr_core_stacktrace *s = sr_core_stacktrace_create(t, u, jstr(op, "exe"));
    free(t); free(u);
    return core_result(op, s, NULL);
}
static J *op_core_dir(J *op)
{
    char *err = NULL, *text = NULL, *p = g_strdup_printf("%s/core_backtrace", jstr(op, "dir"));
    bool ok = jstr(op, "gdb") ? sr_abrt_create_core_stacktrace_from_gdb(jstr(op, "dir"), jstr(op, "gdb"), false, &err) : sr_abrt_create_core_stacktrace(jstr(op, "dir"), false, &err);
    J *o = json_object_new_object();
    if (!g_file_get_contents(p, &text, NULL, NULL)) text = NULL;
    json_object_object_add(o, "ok", b2j(ok));
    json_object_object_add(o, "err", s2j(err));
    json_object_object_add(o, "text", s2j(text));
    g_free(err); g_free(text); g_free(p);
    return o;
}

/* A dying process: runs the program, which waits for its input to be closed and
 * exits, and looks at it while it exits, as the kernel's core dump hook does. */
static pid_t spawn(const char *exe, int *tap)
{
    int in[2], started[2];
    if (pipe(in) || pipe2(started, O_CLOEXEC)) return -1;
    pid_t p = fork();
    if (!p)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(in[0], 0); close(in[0]); close(in[1]);
        execl(exe, exe, (char *)NULL);
        _exit(127);
    }
    char c;
    close(in[0]); close(started[1]);
    while (read(started[0], &c, 1) < 0 && errno == EINTR) ;
    close(started[0]);
    *tap = in[1];
    return p;
}
static int traced(pid_t p)
{
    char path[64], *t = NULL; int r = 0;
    snprintf(path, sizeof path, "/proc/%d/status", (int)p);
    if (g_file_get_contents(path, &t, NULL, NULL)) { char *x = strstr(t, "TracerPid:"); r = x && atoi(x + 10) != 0; }
    else r = -1;
    g_free(t);
    return r;
}
static J *hook(J *op)
{
    int tap, st; const char *exe = jstr(op, "exe");
    J *o = json_object_new_object();
    pid_t p = spawn(exe, &tap);
    bool can = p > 0 && !ptrace(PTRACE_SEIZE, p, NULL, NULL);
    if (p > 0) { kill(p, SIGKILL); waitpid(p, NULL, 0); }
    close(tap);
    if (!can) { json_object_object_add(o, "unavailable", b2j(true)); return o; }
    p = spawn(exe, &tap);
    pid_t me = getpid(), h = fork();
    if (!h)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (int i = 0; i < 150000 && getppid() == me && !traced(p); i++) usleep(1000);
        _exit(0);
    }
    close(tap);
    char *err = NULL;
    J *r;
    if (jbool(op, "text", false))
    {
        char *t = sr_abrt_get_core_stacktrace_from_core_hook(p, jstr(op, "name"), (int)jint(op, "sig", 0), &err);
        r = o; json_object_object_add(r, "text", take2j(t)); json_object_object_add(r, "err", s2j(err));
    }
    else
    {
        json_object_put(o);
        struct sr_core_stacktrace *st = sr_core_stacktrace_from_core_hook(p, jstr(op, "name"), (int)jint(op, "sig", 0), &err);
        r = core_result(op, st, err);
        json_object_object_add(r, "pid", i2j(p));
    }
    kill(p, SIGKILL); kill(h, SIGKILL);
    ptrace(PTRACE_CONT, p, NULL, NULL);      /* it is stopped in its exit, where no signal reaches it */
    while (waitpid(p, &st, __WALL) == p && WIFSTOPPED(st)) ptrace(PTRACE_CONT, p, NULL, NULL);
    waitpid(h, NULL, 0);
    return r;
}
static J *op_hook(J *op)
{
    int out[2], st; GString *s = g_string_new(NULL); char b[4096]; ssize_t n;
    if (pipe(out)) return NULL;
    pid_t w = fork();
    if (!w)
    {
        alarm(200);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(out[0]);
        fcntl(out[1], F_SETFD, FD_CLOEXEC);
        J *r = hook(op);
        const char *t = json_object_to_json_string(r);
        size_t k = strlen(t); ssize_t m;
        while (k && (m = write(out[1], t, k)) > 0) { t += m; k -= m; }
        _exit(0);
    }
    close(out[1]);
    while ((n = read(out[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) g_string_append_len(s, b, n);
    close(out[0]);
    while (waitpid(w, &st, 0) < 0 && errno == EINTR) ;
    J *r = json_tokener_parse(s->str);
    g_string_free(s, TRUE);
    if (!r) { fprintf(stderr, "ERROR: the process that looks at another one ended with status 0x%x\n", st); abort(); }
    return r;
}
static J *op_hook_none(J *op)
{
    char *err = NULL, *e2 = NULL; int pid = 1 << 23;
    struct sr_core_stacktrace *s = sr_core_stacktrace_from_core_hook(pid, jstr(op, "name"), 11, &err);
    char *t = sr_abrt_get_core_stacktrace_from_core_hook(pid, jstr(op, "name"), 11, &e2);
    J *o = core_result(op, s, err);
    json_object_object_add(o, "text", take2j(t));
    json_object_object_add(o, "text_err", s2j(e2));
    g_free(e2);
    return o;
}
struct op ops_dump[] = { { "coredump", op_coredump }, { "core_from_gdb", op_core_from_gdb }, { "core_create", op_core_create }, { "core_dir", op_core_dir }, { "hook", op_hook }, { "hook_none", op_hook_none }, { NULL, NULL } };
