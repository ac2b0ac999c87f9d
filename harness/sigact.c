/* C12: the application's view of signal dispositions, for any flags, masks
   and handlers, with the client's own registrations in between. */
#define CB_BEGIN_PROCESS_EXIT(h) VF_ASSERT(0, "no exit callback from sigaction")
#include "env.c"
#include "cb.h"
#include "start.h"

#define NOPS 3
static struct sigaction cur, q;		/* what the application set last */
static struct sigaction k0[VF_NSIG];
static int sg, valid, catchable, nset, nsigonly, shoot;
static u64 keep;
static void h1(int s) { }
static void h2(int s) { }
static int client(int s, siginfo_t *i, void *c) { return 0; }
static void (*anyhandler(void))(int)
{
    int k = vf_range(0, 3);
    return k == 0 ? SIG_DFL : k == 1 ? SIG_IGN : k == 2 ? h1 : h2;
}
static int same(const struct sigaction *a, const struct sigaction *b)
{
    return a->sa_handler == b->sa_handler && vf_set_get(&a->sa_mask) == vf_set_get(&b->sa_mask) && a->sa_flags == b->sa_flags;
}
static void op(void)
{
    int k = vf_range(0, 2), r, e = vf_range(1, 100);
    VF_ERRNO = e;
    if (k == 0) {			/* sigaction() */
	struct sigaction a, a0, o;
	int give = vf_bool(), ask = vf_bool();
	vf_set_put(&o.sa_mask, 77); o.sa_flags = 78; o.sa_handler = h2;
	a.sa_handler = anyhandler();
	vf_set_put(&a.sa_mask, vf_nd());
	a.sa_flags = (int)vf_nd();
	a0 = a;
	r = vf_sigaction(sg, give ? &a : NULL, ask ? &o : NULL);
	VF_ASSERT(same(&a, &a0), "sigaction does not modify its argument");
	if (!valid || (give && !catchable)) {
	    VF_ASSERT(r == -1 && VF_ERRNO == EINVAL, "sigaction on an invalid signal fails with EINVAL");
	    VF_ASSERT(vf_set_get(&o.sa_mask) == 77 && o.sa_flags == 78, "a failed sigaction stores nothing");
	    return;
	}
	VF_ASSERT(r == 0, "sigaction succeeds on a valid signal");
	VF_ASSERT(VF_ERRNO == e, "a successful sigaction leaves errno alone");
	if (ask) VF_ASSERT(same(&o, &cur), "sigaction reports the action the application set last");
	else VF_ASSERT(vf_set_get(&o.sa_mask) == 77 && o.sa_flags == 78, "nothing is stored without oldact");
	if (give) { cur = a; nset++; }
    } else if (k == 1) {		/* signal() */
	void (*h)(int) = anyhandler(), (*p)(int);
	p = vf_signal(sg, h);
	if (!valid || !catchable) {
	    VF_ASSERT(p == SIG_ERR && VF_ERRNO == EINVAL, "signal() on an invalid signal gives SIG_ERR and EINVAL");
	    return;
	}
	VF_ASSERT(p == cur.sa_handler, "signal() returns the handler the application set last");
	VF_ASSERT(VF_ERRNO == e, "a successful signal() leaves errno alone");
	cur.sa_handler = h;
	nset++;
	nsigonly = 1;
    } else {				/* the client */
	r = monitor_sigaction(sg, client, 0, NULL);
	VF_ASSERT(r == (valid && catchable ? 0 : -1), "monitor_sigaction accepts exactly the signals that can be caught");
	if (valid && catchable) keep |= VF_BIT(sg);
    }
}
static void run(int s)
{
    int i, t;
    u64 m;
    struct sigaction o;
    sg = s;
    valid = s > 0 && s < VF_NSIG && s != 32 && s != 33;
    catchable = s != SIGKILL && s != SIGSTOP;
    for (t = 1; t < VF_NSIG; t++) k0[t] = vf_ksa[t];
    /* which signal libmonitor keeps for itself: the one that cannot be blocked */
    vf_set_put(&cur.sa_mask, VF_ALLSIGS);
    vf_sigprocmask(SIG_BLOCK, &cur.sa_mask, NULL);
    keep = ~vf_thr[0].mask & ~(VF_BIT(SIGKILL) | VF_BIT(SIGSTOP) | VF_BIT(32) | VF_BIT(33)) & VF_ALLSIGS;
    vf_thr[0].mask = 0;
    u64 own = keep;
    cur.sa_handler = SIG_DFL;
    vf_set_put(&cur.sa_mask, 0);
    cur.sa_flags = 0;
    for (i = 0; i < NOPS; i++) {
	u64 keep_before = keep;
	int ns = nset;
	nsigonly = 0;
	op();
	if (valid && catchable && nset > ns) {
	    if (nsigonly) {		/* signal()'s flags and mask are libmonitor's business */
		cur.sa_flags = vf_ksa[s].sa_flags;
		if (i + 1 < NOPS) {
		    vf_sigaction(s, NULL, &o);
		    VF_ASSERT(o.sa_handler == cur.sa_handler && vf_set_get(&o.sa_mask) == 0, "signal() sets the handler and an empty mask");
		    cur = o;
		}
	    } else {
		int keepflags = SA_NOCLDSTOP | SA_NOCLDWAIT | SA_NODEFER;
		VF_ASSERT((vf_ksa[s].sa_flags & keepflags) == (cur.sa_flags & keepflags), "the kernel gets the application's child and nesting flags");
		m = vf_set_get(&vf_ksa[s].sa_mask);
		VF_ASSERT(((m ^ vf_set_get(&cur.sa_mask)) & ~keep_before & VF_ALLSIGS) == 0, "during a handler exactly the signals of sa_mask are blocked, apart from those kept open");
		VF_ASSERT((m & keep_before & ~own) == 0, "signals the client uses stay open during the application's handlers");
	    }
	}
	if (valid && catchable) {
	    VF_ASSERT(vf_ksa[s].sa_handler == k0[s].sa_handler, "every signal keeps going to libmonitor, so that the client sees it first");
	    VF_ASSERT((vf_ksa[s].sa_flags & (SA_SIGINFO | SA_RESTART | SA_RESETHAND)) == (SA_SIGINFO | SA_RESTART), "libmonitor's handler stays installed and system calls restart");
	    VF_ASSERT((vf_set_get(&vf_ksa[s].sa_mask) & own) == own, "the shootdown signal is blocked during handlers");
	}
    }
    for (t = 1; t < VF_NSIG; t++)
	if (t != s)
	    VF_ASSERT(same(&vf_ksa[t], &k0[t]), "the disposition of other signals does not change");
    if (valid && !(nset && nsigonly)) {
	VF_ASSERT(vf_sigaction(s, NULL, &q) == 0, "sigaction can be asked");
	VF_ASSERT(same(&q, &cur), "sigaction reports the action the application set last");
    }
    t = s == SIGHUP ? SIGINT : SIGHUP;
    VF_ASSERT(vf_sigaction(t, NULL, &q) == 0, "sigaction can be asked");
    VF_ASSERT(q.sa_handler == SIG_DFL && q.sa_flags == 0 && vf_set_get(&q.sa_mask) == 0, "the application's action for other signals does not change");
#ifdef SETTABLE
    if (nset == NOPS) VF_WITNESS("set three times");
#else
    VF_WITNESS("end");
#endif
    VF_STOP();
}
void vf_final(int kind, long val) { VF_ASSERT(0, "the process goes on"); }
static int app_main(int c, char **v, char **e)
{
    run(SIG);
    return 0;
}
void vf_harness(void) { boot(); }
