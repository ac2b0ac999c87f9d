/* C25: the client's access to the system's functions.  FN: 0 monitor_real_exit,
   1 monitor_real_abort, 2 monitor_real_sigprocmask, 3
   monitor_real_pthread_sigmask; called by the initial thread, by another
   thread, or (WHEN=2) from init_process. */
#define VF_NTHR 2
#ifndef WHEN
#define WHEN 0
#endif
static void none(void), go(void);
static char pre_obj;
static int ran;
#define CB_INIT_PROCESS(a, v, d) do { if (WHEN == 2) go(); return NULL; } while (0)
#define CB_BEGIN_PROCESS_EXIT(h) none()
#define CB_FINI_PROCESS(h, d) none()
#define CB_FINI_LIBRARY() none()
#define CB_PRE_CREATE() return &pre_obj
#define CB_FINI_THREAD(d) none()
#include "env.c"
#include "cb.h"
#include "start.h"
static int status, expect_end;
static void none(void) { VF_ASSERT(0, "no callback from a monitor_real_ function"); }
static int client(int s, siginfo_t *i, void *c) { ran++; VF_ASSERT(0, "no handler runs"); return 0; }
static void handler(int s) { VF_ASSERT(0, "no handler runs"); }
#define UNBLOCKABLE (VF_BIT(SIGKILL) | VF_BIT(SIGSTOP) | VF_BIT(32) | VF_BIT(33))
static void mask_op(void)
{
    sigset_t set, old;
    u64 m, n, s, junk = vf_nd(), want;
    int hk = vf_range(0, 3), how = hk == 0 ? SIG_BLOCK : hk == 1 ? SIG_UNBLOCK : hk == 2 ? SIG_SETMASK : 99;
    int give = vf_bool(), ask = vf_bool(), r, e = vf_range(100, 120), t = vf_cur;
    vf_thr[t].mask = vf_nd() & VF_ALLSIGS & ~UNBLOCKABLE;
    m = vf_thr[t].mask;
    s = vf_nd();
    vf_set_put(&set, s);
    vf_set_put(&old, junk);
    VF_ERRNO = e;
    if (FN == 3) r = monitor_real_pthread_sigmask(how, give ? &set : NULL, ask ? &old : NULL);
    else r = monitor_real_sigprocmask(how, give ? &set : NULL, ask ? &old : NULL);
    n = vf_thr[t].mask;
    VF_ASSERT(vf_set_get(&set) == s, "the caller's set is not modified");
    if (give && hk == 3) {
	if (FN == 3) VF_ASSERT(r == EINVAL, "the system's error");
	else VF_ASSERT(r == -1 && VF_ERRNO == EINVAL, "the system's error");
	VF_ASSERT(n == m, "a failed call changes nothing");
	return;
    }
    VF_ASSERT(r == 0 && VF_ERRNO == e, "a valid call succeeds");
    VF_ASSERT(vf_set_get(&old) == (ask ? m : junk), "the previous mask is reported, if asked for");
    want = !give ? m : (how == SIG_BLOCK ? m | s : how == SIG_UNBLOCK ? m & ~s : s) & ~UNBLOCKABLE;
    VF_ASSERT(n == want, "the mask is as asked, the client's and libmonitor's signals included");
#if FN >= 2
    VF_WITNESS("mask");
#endif
}
static void go(void)
{
    status = vf_range(0, 255);
    if (FN == 0) { expect_end = 1; monitor_real_exit(status); VF_ASSERT(0, "monitor_real_exit does not return"); }
    if (FN == 1) {
	VF_EACH(k, 0, 3) {
	    struct sigaction a;
	    vf_set_put(&a.sa_mask, 0);
	    a.sa_flags = 0;
	    a.sa_handler = k == 1 ? SIG_IGN : handler;
	    if (k == 1 || k == 2) vf_sigaction(SIGABRT, &a, NULL);
	    if (k == 3) monitor_sigaction(SIGABRT, client, 0, NULL);
	    vf_thr[vf_cur].mask = vf_bool() ? VF_BIT(SIGABRT) : 0;
	    expect_end = 2;
	    monitor_real_abort();
	    VF_ASSERT(0, "monitor_real_abort does not return");
	}
    }
    mask_op();
    mask_op();
    VF_STOP();
}
static void *body(void *a) { go(); return a; }
static int app_main(int c, char **v, char **e)
{
    pthread_t id;
    int sig = vf_range(0, 1);
    if (sig) monitor_sigaction(SIGALRM, client, 0, NULL);
    if (WHEN == 1) {
	vf_pthread_create(&id, NULL, body, NULL);
	vf_thread_start(1);
    }
    go();
    VF_STOP();
    return 0;
}
void vf_final(int kind, long val)
{
    if (expect_end == 1) {
	VF_ASSERT(kind == VF_END_UEXIT && val == status, "monitor_real_exit ends the process as the system's _exit");
#if FN == 0
	VF_WITNESS("exit");
#endif
    } else {
	VF_ASSERT(expect_end == 2 && kind == VF_END_SIGNAL && val == SIGABRT, "monitor_real_abort ends the process with SIGABRT");
#if FN == 1
	VF_WITNESS("abort");
#endif
    }
}
void vf_harness(void) { if (vf_bool()) vf_env_debug = NULL; boot(); }
