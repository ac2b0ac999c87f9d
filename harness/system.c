/* C05: system().  REAL: monitor_real_system instead.  NOOVERRIDE:
   MONITOR_NO_SYSTEM_OVERRIDE is set. */
static int n_pre, n_post, forked, waits, n_exec, changed, done, n_real, n_access;
static void *pre_data, *cb_pre(void);
static void cb_post(int pid, void *d), no(void);
#define CB_PRE_FORK() return cb_pre()
#define CB_POST_FORK(p, d) cb_post(p, d)
#define CB_BEGIN_PROCESS_EXIT(h) no()
#define CB_FINI_PROCESS(h, d) no()
#define CB_FINI_LIBRARY() no()
#define VF_OWN_EXEC
#define VF_OWN_FORK
#define VF_OWN_WAITPID
#define VF_OWN_ACCESS
#define VF_OWN_SYSTEM
#include "env.c"
#include "cb.h"
#include "start.h"
#ifdef REAL
#define CALL monitor_real_system
#else
#define CALL vf_system
#endif

static u64 mask0;
static struct sigaction k0[4];
static int fork_result, fork_errno, wait_errno, wait_status, real_status, shell_ok, nintr;
static const char cmd[] = "ls";
static int sigs[4] = { SIGINT, SIGQUIT, SIGCHLD, SIGTERM };
static char *envv[3] = { "A=b", "C=d", NULL };

static void no(void) { VF_ASSERT(0, "no exit callback from system()"); }
static int same(const struct sigaction *a, const struct sigaction *b)
{
    return a->sa_handler == b->sa_handler && vf_set_get(&a->sa_mask) == vf_set_get(&b->sa_mask) && a->sa_flags == b->sa_flags;
}
static void restored(void)
{
    int i;
    for (i = 0; i < 4; i++)
	VF_ASSERT(same(&vf_ksa[sigs[i]], &k0[i]), "signal actions are as before system()");
    VF_ASSERT(vf_thr[0].mask == mask0, "the signal mask is as before system()");
}
static void in_force(void)
{
    VF_ASSERT(vf_ksa[SIGINT].sa_handler == SIG_IGN && vf_ksa[SIGQUIT].sa_handler == SIG_IGN, "SIGINT and SIGQUIT are ignored while waiting");
    VF_ASSERT(vf_thr[0].mask == (mask0 | VF_BIT(SIGCHLD)), "SIGCHLD, and nothing else, is blocked while waiting");
    VF_ASSERT(same(&vf_ksa[SIGCHLD], &k0[2]) && same(&vf_ksa[SIGTERM], &k0[3]), "other actions stay");
}
static void *cb_pre(void)
{
#if defined REAL || defined NOOVERRIDE
    VF_ASSERT(0, "no fork callback");
#endif
    n_pre++;
    VF_ASSERT(n_pre == 1 && !forked, "pre_fork once, before the fork");
    VF_ERRNO = (int)(vf_nd() & 0x7f);
    pre_data = vf_cookie();
    return pre_data;
}
static void cb_post(int pid, void *d)
{
    n_post++;
    VF_ASSERT(forked == 1 && n_pre == 1 && n_post == 1, "post_fork once, after the fork");
    VF_ASSERT(pid == fork_result && pid != 0, "post_fork runs in the parent and gets the child's pid");
    VF_ASSERT(d == pre_data, "post_fork gets pre_fork's data");
    VF_ERRNO = (int)(vf_nd() & 0x7f);
}
int vfr_fork(void)
{
    forked++;
    VF_ASSERT(forked == 1, "one fork");
#ifndef REAL
    VF_ASSERT(n_pre == 1, "pre_fork before the fork");
#endif
    VF_ASSERT(vf_ksa[SIGINT].sa_handler == SIG_IGN && vf_ksa[SIGQUIT].sa_handler == SIG_IGN && (vf_thr[0].mask & VF_BIT(SIGCHLD)), "signals are dealt with before the fork");
    if (fork_result < 0) VF_ERRNO = fork_errno;
    if (fork_result == 0) vf_child();
    return fork_result;
}
int vfr_vfork(void) { return vfr_fork(); }
int vf_waitpid(int pid, int *st, int opt)
{
    waits++;
    VF_ASSERT(fork_result > 0 && pid == fork_result && opt == 0, "system() waits for its own child to end");
    in_force();
    if (waits <= nintr) {
	VF_ERRNO = EINTR;
	return -1;
    }
    VF_ASSERT(!done, "system() waits once");
    done = 1;
    if (wait_errno) {
	VF_ERRNO = wait_errno;
	return -1;
    }
    if (st != NULL) *st = wait_status;
    return pid;
}
int vfr_execve(const char *p, char *const a[], char *const e[])
{
    n_exec++;
    VF_ASSERT(forked == 1 && fork_result == 0 && n_exec == 1, "the child, only, executes the shell");
    VF_ASSERT(vf_strcmp(p, "/bin/sh") == 0, "/bin/sh is executed");
    VF_ASSERT(a[0] != NULL && vf_strcmp(a[1], "-c") == 0 && vf_strcmp(a[2], cmd) == 0 && a[3] == NULL, "the shell gets -c and the command");
    VF_ASSERT(vf_strcmp(e[0], envv[0]) == 0 && vf_strcmp(e[1], envv[1]) == 0 && e[2] == NULL, "the shell gets the process's environment");
    restored();
    VF_ASSERT(n_post == 0, "no post_fork in the child");
    if (vf_bool()) VF_STOP();
    VF_ERRNO = ENOENT;
    return -1;
}
int vfr_execv(const char *p, char *const a[]) { return vfr_execve(p, a, vf_environ); }
int vfr_execvp(const char *p, char *const a[]) { VF_ASSERT(0, "the shell is not searched for"); return -1; }
int vf_access(const char *p, int m)
{
    n_access++;
    VF_ASSERT(vf_strcmp(p, "/bin/sh") == 0 && m == X_OK, "system(NULL) looks for the shell");
    if (shell_ok) return 0;
    VF_ERRNO = ENOENT;
    return -1;
}
static const char *arg;
int vfr_system(const char *c)
{
    n_real++;
#ifndef NOOVERRIDE
    VF_ASSERT(0, "the system's own system() is not used");
#endif
    VF_ASSERT(c == arg && n_real == 1, "the system's own system() gets the command, once");
    VF_ERRNO = fork_errno;
    return real_status;
}
static void h1(int s) { }
#ifndef HINT
#define HINT h1
#define HQUIT SIG_IGN
#endif
static void run(void)
{
    int r, i, e0;
    for (i = 0; i < 4; i++)
	k0[i] = vf_ksa[sigs[i]];
    mask0 = vf_thr[0].mask;
    VF_ERRNO = e0 = vf_range(1, 100);
    r = CALL(arg);
    restored();
#ifdef NOOVERRIDE
    VF_ASSERT(r == real_status && VF_ERRNO == fork_errno, "the result is that of the system's own system()");
    VF_ASSERT(n_real == 1 && !forked && !n_pre && !n_post, "no fork and no callback of libmonitor's");
    if (arg == NULL) VF_WITNESS("NULL"); else VF_WITNESS("command");
#else
    if (arg == NULL) {
	VF_ASSERT((r != 0) == shell_ok, "system(NULL) tells whether there is a shell");
	VF_ASSERT(!forked && !n_pre && !n_post, "system(NULL) does not fork");
	VF_WITNESS("NULL");
	VF_STOP();
    }
    VF_ASSERT(fork_result != 0, "the child does not return from system()");
#ifndef REAL
    VF_ASSERT(n_pre == 1 && n_post == 1, "pre_fork and post_fork once each");
#endif
    if (fork_result < 0) {
	VF_ASSERT(r == -1 && VF_ERRNO == fork_errno, "-1 and errno when fork fails");
	VF_WITNESS("fork failed");
    } else {
	VF_ASSERT(done, "system() waits for the child");
	if (wait_errno) {
	    VF_ASSERT(r == -1 && VF_ERRNO == wait_errno, "-1 and errno when the wait fails");
	    VF_WITNESS("wait failed");
	} else {
	    VF_ASSERT(r == wait_status, "system() returns the child's wait status");
	    if (waits == 3) VF_WITNESS("interrupted twice");
	}
    }
#endif
    VF_STOP();
}
static int app_main(int c, char **v, char **e)
{
    struct sigaction sa;
    vf_set_put(&sa.sa_mask, 0);
    sa.sa_flags = SA_RESTART;
    sa.sa_handler = HINT;
    vf_sigaction(SIGINT, &sa, NULL);
    sa.sa_handler = HQUIT;
    vf_sigaction(SIGQUIT, &sa, NULL);
    vf_thr[0].mask = vf_nd() & VF_ALLSIGS & ~(VF_BIT(SIGKILL) | VF_BIT(SIGSTOP) | VF_BIT(32));
    vf_set_put(&vf_ksa[SIGINT].sa_mask, vf_nd());
    vf_set_put(&vf_ksa[SIGCHLD].sa_mask, vf_nd());
    fork_errno = vf_range(1, 100);
    wait_errno = vf_bool() ? ECHILD : 0;
    wait_status = (int)vf_nd();
    real_status = (int)vf_nd();
    shell_ok = vf_bool();
    VF_EACH(k, 0, 5) {
	arg = k == 0 ? NULL : cmd;
	fork_result = k == 1 ? -1 : k == 2 ? 0 : 4321;
	nintr = k < 3 ? 0 : k - 3;
	run();
    }
    VF_STOP();
    return 0;
}
void vf_final(int kind, long val)
{
    VF_ASSERT(fork_result == 0 && n_exec == 1, "only a child whose exec failed ends");
    VF_ASSERT(kind == VF_END_UEXIT && val == 127, "with status 127 and without running exit handlers");
#ifndef NOOVERRIDE
    VF_WITNESS("no shell");
#endif
}
void vf_harness(void)
{
    vf_environ = envv;
    vf_print_clobbers = 1;
    if (vf_bool()) vf_env_debug = "1";
#ifdef NOOVERRIDE
    vf_env_nosys = "";
#endif
    boot();
}
