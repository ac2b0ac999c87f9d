/* C15: sigwait, sigwaitinfo and sigtimedwait against any sequence of up to N
   answers of the system's call. */
#ifndef N
#define N 3
#endif
#define VF_OWN_SIGWAIT
#define CB_BEGIN_PROCESS_EXIT(h) VF_ASSERT(0, "no exit callback from sigwait")
#define CB_FINI_THREAD(d) VF_ASSERT(0, "no fini_thread outside of exit")
#include "env.c"
#include "cb.h"
#include "start.h"

enum { F_WAIT, F_INFO, F_TIMED };
static int fn, n, done, want, want_err, taken, offered, offer_sig, use_info, use_sig;
static u64 set;
static siginfo_t inf, kinf;
static struct timespec tmo;
static int use_tmo;
static int refuse;
static int client(int s, siginfo_t *i, void *c)
{
    VF_ASSERT(offered == 0 && s == offer_sig, "the client's handler is offered the signal that came, once");
    VF_ASSERT(i != NULL && i->si_signo == kinf.si_signo && i->si_pid == kinf.si_pid && i->si_code == kinf.si_code, "the client's handler gets the signal's siginfo");
    VF_ASSERT(c != NULL, "the client's handler gets a context");
    offered = 1;
    VF_ERRNO = (int)(vf_nd() & 0x7f);
    taken = !refuse;
    return refuse ? 1 + (int)(vf_nd() & 0xf) : 0;
}
/* signals that may come: A the client's, B nobody's, C the shootdown signal */
#ifndef SA
#define SA 10
#endif
static const int sigs[] = { SA, 15, 12, VF_NSIG - 1 };
static void settle(void)	/* what became of the last answer */
{
    if (n == 0) return;
    VF_ASSERT(!done, "a signal or error for the application is not waited over");
}
/* the answers, fixed on each path: up to N - 1 of the first three kinds, then one of the others */
enum { K_EINTR, K_TAKEN, K_OUT, K_EAGAIN, K_EINVAL, K_REFUSED, K_B, K_C, K_D, K_N };
static int plan[N], np;
static int answer(const sigset_t *s, siginfo_t *i)
{
    int k;
    settle();
    VF_ASSERT(s != NULL && vf_set_get(s) == set, "the system's call waits for the application's set");
    VF_ASSERT(n < np, "the system's call is not repeated after a signal or error for the application");
    k = plan[n++];
    offered = taken = 0;
    if (k == K_EINTR || k == K_EAGAIN || k == K_EINVAL) {
	want = -1;
	want_err = k == K_EINTR ? EINTR : k == K_EAGAIN ? EAGAIN : EINVAL;
	done = k != K_EINTR;
	VF_ERRNO = want_err;
	return -1;
    }
    done = k != K_TAKEN && k != K_OUT;
    refuse = k == K_REFUSED;
    want = k == K_B ? sigs[1] : k == K_C ? sigs[2] : k == K_D ? sigs[3] : k == K_OUT ? 14 : sigs[0];
    VF_ASSUME(k == K_OUT ? !(set & VF_BIT(14)) : (set & VF_BIT(want)) != 0);
    offer_sig = want;
    kinf.si_signo = want;
    kinf.si_pid = (int)vf_nd();
    kinf.si_code = (int)vf_nd();
    if (i != NULL) *i = kinf;
    return want;
}
int vfr_sigwaitinfo(const sigset_t *s, siginfo_t *i) { VF_ASSERT(fn != F_TIMED, "sigtimedwait keeps its time limit"); return answer(s, i); }
int vfr_sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *t)
{
    if (fn == F_TIMED) {
	VF_ASSERT((t != NULL) == use_tmo, "sigtimedwait passes the time limit on");
	if (t != NULL) {
	    if (n == 0) VF_ASSERT(t->tv_sec == tmo.tv_sec && t->tv_nsec == tmo.tv_nsec, "sigtimedwait passes the time limit on");
	    else VF_ASSERT(t->tv_sec <= tmo.tv_sec, "a restarted sigtimedwait does not extend its limit");
	}
    } else
	VF_ASSERT(t == NULL, "sigwait and sigwaitinfo have no time limit");
    return answer(s, i);
}
int vfr_sigwait(const sigset_t *s, int *p)
{
    int r = answer(s, NULL);
    if (r < 0) return VF_ERRNO;
    *p = r;
    return 0;
}
static void go(void)
{
    sigset_t s;
    int got = -7, r;
    u64 mask = vf_thr[0].mask;
    vf_set_put(&s, set);
    inf.si_pid = 4711;
    if (fn == F_WAIT) {
	r = vf_sigwait(&s, use_sig ? &got : NULL);
	if (want < 0) VF_ASSERT(r == want_err && got == -7, "sigwait returns the error's number");
	else {
	    VF_ASSERT(r == 0, "sigwait succeeds");
	    if (use_sig) VF_ASSERT(got == want, "sigwait stores the signal");
	}
    } else {
	r = fn == F_INFO ? vf_sigwaitinfo(&s, use_info ? &inf : NULL) : vf_sigtimedwait(&s, use_info ? &inf : NULL, use_tmo ? &tmo : NULL);
	VF_ASSERT(r == want, "the result is the signal, or -1");
	if (r < 0) VF_ASSERT(VF_ERRNO == want_err, "errno is the system's");
	else if (use_info) VF_ASSERT(inf.si_signo == kinf.si_signo && inf.si_pid == kinf.si_pid && inf.si_code == kinf.si_code, "the application gets the signal's siginfo");
	if (!use_info) VF_ASSERT(inf.si_pid == 4711, "nothing is stored without a siginfo argument");
    }
    VF_ASSERT(n > 0, "the system's call is made");
    VF_ASSERT(done, "only a signal for the application or an error ends the wait");
    VF_ASSERT(!taken, "a signal the client has taken is not given to the application");
#ifdef CLIENT
    if (want == SA) VF_ASSERT(offered, "the client's handler comes first");
    if (n == N && want == SA) VF_WITNESS("refused by the client at the last answer");
#endif
    VF_ASSERT(vf_set_get(&s) == set, "the application's set is not changed");
    VF_ASSERT(vf_thr[0].mask == mask, "the signal mask is not changed");
    if (n == 1 && want == 15) VF_WITNESS("a signal at once");
    if (n == N && want < 0) VF_WITNESS("an error at the last answer");
    VF_STOP();
}
static void pick(void)
{
    VF_EACH(k, K_EINTR, K_N - 1) {
	plan[np++] = k;
#ifndef CLIENT
	if (k == K_TAKEN) VF_STOP();
#endif
#ifndef OUT
	if (k == K_OUT) VF_STOP();
#else
	if (k > K_EAGAIN && k != K_B) VF_STOP();
#endif
	if (k > K_OUT) go();
	if (np < N) pick();
	VF_STOP();
    }
    VF_STOP();
}
static int app_main(int c, char **v, char **e)
{
#ifdef CLIENT
    static struct sigaction sa;
    int r = monitor_sigaction(SA, client, 0, &sa);
    VF_ASSERT(r == 0, "monitor_sigaction accepts the signal");
#endif
    pick();
    return 0;
}
void vf_final(int kind, long val) { VF_ASSERT(0, "the process does not end"); }
void vf_harness(void)
{
    fn = FN;
    use_info = vf_bool();
    use_sig = vf_bool();
    use_tmo = vf_bool();
    tmo.tv_sec = (int)(vf_nd() & 0xffff);
    tmo.tv_nsec = (int)(vf_nd() & 0xffff);
    set = vf_nd() & VF_ALLSIGS;
    boot();
}
