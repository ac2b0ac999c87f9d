/* C13: signal masks.  The application changes its mask in any way, twice;
   the client has registered a handler for one more signal. */
#define CB_FINI_PROCESS(h, d) VF_ASSERT(0, "no exit callback from sigprocmask")
#include "env.c"
#include "cb.h"
#include "start.h"
static int client(int s, siginfo_t *i, void *c) { return 0; }
void vf_final(int kind, long val) { VF_ASSERT(0, "the process goes on"); }
static u64 keep;	/* signals libmonitor keeps open */
#define UNBLOCKABLE (VF_BIT(SIGKILL) | VF_BIT(SIGSTOP) | VF_BIT(32) | VF_BIT(33))
static void op(int thr)
{
    sigset_t set, set0, old;
    u64 m = vf_thr[0].mask, n, want;
    int hk = vf_range(0, 3), how = hk == 0 ? SIG_BLOCK : hk == 1 ? SIG_UNBLOCK : hk == 2 ? SIG_SETMASK : 99;
    int give = vf_bool(), ask = vf_bool(), r, e = vf_range(100, 120);
    u64 junk = vf_nd();
    vf_set_put(&set, vf_nd());
    set0 = set;
    vf_set_put(&old, junk);
    VF_ERRNO = e;
    if (thr) r = vf_pthread_sigmask(how, give ? &set : NULL, ask ? &old : NULL);
    else r = vf_sigprocmask(how, give ? &set : NULL, ask ? &old : NULL);
    n = vf_thr[0].mask;
    VF_ASSERT(vf_set_get(&set) == vf_set_get(&set0), "the caller's set is not modified");
    if (give && hk == 3) {
	if (thr) VF_ASSERT(r == EINVAL, "pthread_sigmask with a bad operation returns EINVAL");
	else VF_ASSERT(r == -1 && VF_ERRNO == EINVAL, "sigprocmask with a bad operation fails with EINVAL");
	VF_ASSERT(n == m, "a failed call changes nothing");
	return;
    }
    VF_ASSERT(r == 0 && VF_ERRNO == e, "a valid call succeeds");
    VF_ASSERT(vf_set_get(&old) == (ask ? m : junk), "the previous mask is reported, if asked for");
    if (!give) {
	VF_ASSERT(n == m, "asking changes nothing");
	return;
    }
    want = how == SIG_BLOCK ? m | vf_set_get(&set) : how == SIG_UNBLOCK ? m & ~vf_set_get(&set) : vf_set_get(&set);
    want &= ~UNBLOCKABLE;
    VF_ASSERT(((n ^ want) & ~keep & VF_ALLSIGS) == 0, "all other signals are blocked and unblocked as asked");
    VF_ASSERT(((n ^ m) & keep) == 0, "the application cannot change the mask of a signal that is kept open");
}
static int app_main(int c, char **v, char **e)
{
    sigset_t s;
    int i;
    u64 m0 = 0, cfg = 0;
#ifdef CFG
    static const int list[] = { CFG };
    for (i = 0; i < (int)(sizeof list / sizeof list[0]); i++) cfg |= VF_BIT(list[i]);
#endif
    /* the signals that are kept open: one for shootdown, the configured ones,
       the client's */
    vf_set_put(&s, VF_ALLSIGS);
    vf_sigprocmask(SIG_BLOCK, &s, NULL);
    keep = ~vf_thr[0].mask & VF_ALLSIGS & ~UNBLOCKABLE;
    VF_ASSERT((keep & cfg) == cfg, "the client's configured signals are kept open");
    VF_ASSERT((keep & ~cfg) != 0 && ((keep & ~cfg) & ((keep & ~cfg) - 1)) == 0, "one more signal is kept open, for thread shootdown");
    VF_ASSERT(monitor_sigaction(CSIG, client, 0, NULL) == 0, "monitor_sigaction succeeds");
    keep |= VF_BIT(CSIG);
    m0 = vf_nd() & VF_ALLSIGS & ~UNBLOCKABLE;
    vf_thr[0].mask = m0;		/* by any means, for instance inherited */
    op(vf_bool());
    op(vf_bool());
    /* the client may do as it likes */
    vf_set_put(&s, m0);
    VF_ASSERT((vf_bool() ? monitor_real_sigprocmask(SIG_SETMASK, &s, NULL) : monitor_real_pthread_sigmask(SIG_SETMASK, &s, NULL)) == 0
	      && vf_thr[0].mask == m0, "the client's real sigprocmask is not restricted");
    VF_WITNESS("end");
    VF_STOP();
    return 0;
}
void vf_harness(void) { if (vf_bool()) vf_env_debug = NULL; boot(); }
