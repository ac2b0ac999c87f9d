/* C11: delivery of one signal, under every combination of client handler and
   application disposition. */
static int n_begin, n_fini, fini_how;
#define CB_BEGIN_PROCESS_EXIT(h) n_begin++
#define CB_FINI_PROCESS(h, d) do { n_fini++; fini_how = (h); } while (0)
static int sent(int sig);
#include "env.c"
#include "cb.h"
#include "start.h"

#ifndef LO
#define LO 1
#define HI 64
#endif
enum { C_NONE, C_TAKES, C_PASSES, C_N };
enum { A_NOTHING, A_DFL, A_IGN, A_H1, A_HI, A_SIGNAL_H, A_SIGNAL_IGN, A_SIGNAL_DFL, A_N };
static int sg, cm, am, n_client, n_h1, n_hi, sync_;
static siginfo_t si;
static char ctxobj;
static int client(int s, siginfo_t *i, void *c)
{
    n_client++;
    VF_ASSERT(s == sg && i == &si && c == (void *)&ctxobj, "the client's handler gets the signal's arguments");
    VF_ASSERT(n_h1 == 0 && n_hi == 0, "the client's handler comes before the application's");
    return cm == C_TAKES ? 0 : am & 1 ? 1 : -7;	/* constants, for symbolic execution */
}
static int client_other(int s, siginfo_t *i, void *c) { VF_ASSERT(0, "a client handler is called only for its own signal"); return 0; }
static void h1(int s)
{
    n_h1++;
    VF_ASSERT(s == sg, "the application's handler gets the signal number");
}
static void hi(int s, siginfo_t *i, void *c)
{
    n_hi++;
    VF_ASSERT(s == sg && i == &si && c == (void *)&ctxobj, "the application's handler gets the siginfo and context");
}
static int want_death;
void vf_final(int kind, long val)
{
    VF_ASSERT(want_death, "the process survives a signal that is not fatal for it");
    VF_ASSERT(kind == VF_END_SIGNAL && val == sg, "the process dies of the signal");
    VF_ASSERT(n_begin == 1 && n_fini == 1 && fini_how == MONITOR_EXIT_SIGNAL, "fini_process(SIGNAL) exactly once before death by signal");
    VF_ASSERT(n_client == (cm == C_PASSES), "the client's handler is offered the signal first, once");
    VF_ASSERT(n_h1 == 0 && n_hi == 0, "no application handler under the default action");
#if FULL == 15 || !defined FULL
    VF_WITNESS("death by signal");
#endif
}
static int noterm(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH; }
static int stopper(int s) { return s == SIGTSTP || s == SIGTTIN || s == SIGTTOU; }
static int fault(int s) { return s == SIGSEGV || s == SIGBUS || s == SIGILL; }

static void deliver_all(void)
{
    int dfl = am == A_NOTHING || am == A_DFL || am == A_SIGNAL_DFL, taken = cm == C_TAKES;
    u64 m = vf_nd();
    int e = vf_range(0, 200);
    m &= ~(VF_BIT(SIGKILL) | VF_BIT(SIGSTOP) | VF_BIT(32) | VF_BIT(33) | VF_BIT(sg));
    vf_thr[0].mask = m;
    VF_ERRNO = e;
    want_death = !taken && dfl && !noterm(sg) && !stopper(sg);
    /* sent by a process, or a fault of the program */
    si.si_code = sync_ ? 1 : vf_range(-6, 0);
    vf_deliver(0, sg, &si, &ctxobj);
    if (want_death && fault(sg) && sync_)
	vf_deliver(0, sg, &si, &ctxobj);	/* the instruction is executed again */
    VF_ASSERT(!want_death, "a signal with fatal default action ends the process");
    VF_ASSERT(n_begin == 0 && n_fini == 0, "no exit callback for a signal that does not end the process");
    VF_ASSERT(n_client == (cm != C_NONE), "the client's handler is offered the signal once");
    VF_ASSERT(n_h1 == (!taken && (am == A_H1 || am == A_SIGNAL_H)), "the application's handler runs once iff the client passes the signal on");
    VF_ASSERT(n_hi == (!taken && am == A_HI), "the application's SA_SIGINFO handler runs once iff the client passes the signal on");
    VF_ASSERT(vf_stops == (!taken && dfl && stopper(sg)), "the process is stopped iff that is the signal's effect");
    VF_ASSERT(vf_thr[0].mask == m, "the signal mask is as before after a handled signal");
    VF_ASSERT(VF_ERRNO == e, "errno is as before after a handled signal");
#ifdef FULL
    if (am == A_HI && cm == C_PASSES) VF_WITNESS("client passes, handler runs");
    ;
#endif
    VF_STOP();
}
static void setup(void)
{
    struct sigaction a;
    int other = sg == SIGUSR1 ? SIGUSR2 : SIGUSR1, first = am & 1;
    VF_ASSERT(monitor_sigaction(other, client_other, 0, NULL) == 0, "monitor_sigaction accepts a valid signal");
    if (cm != C_NONE && first) VF_ASSERT(monitor_sigaction(sg, client, 0, NULL) == 0, "monitor_sigaction accepts a valid signal");
    vf_set_put(&a.sa_mask, vf_nd());
    a.sa_flags = cm == C_PASSES ? SA_NODEFER : 0;	/* constant, for symbolic execution; any flags: sigact.c */
    a.sa_handler = NULL;
    if (am == A_DFL) { a.sa_handler = SIG_DFL; VF_ASSERT(vf_sigaction(sg, &a, NULL) == 0, "sigaction succeeds for a valid signal"); }
    if (am == A_IGN) { a.sa_handler = SIG_IGN; VF_ASSERT(vf_sigaction(sg, &a, NULL) == 0, "sigaction succeeds for a valid signal"); }
    if (am == A_H1) { a.sa_handler = h1; VF_ASSERT(vf_sigaction(sg, &a, NULL) == 0, "sigaction succeeds for a valid signal"); }
    if (am == A_HI) { a.sa_sigaction = hi; a.sa_flags |= SA_SIGINFO; VF_ASSERT(vf_sigaction(sg, &a, NULL) == 0, "sigaction succeeds for a valid signal"); }
    if (am == A_SIGNAL_H) VF_ASSERT(vf_signal(sg, h1) == SIG_DFL, "signal() returns the previous handler");
    if (am == A_SIGNAL_IGN) VF_ASSERT(vf_signal(sg, SIG_IGN) == SIG_DFL, "signal() returns the previous handler");
    if (am == A_SIGNAL_DFL) VF_ASSERT(vf_signal(sg, SIG_DFL) == SIG_DFL, "signal() returns the previous handler");
    if (cm != C_NONE && !first) VF_ASSERT(monitor_sigaction(sg, client, 0, NULL) == 0, "monitor_sigaction accepts a valid signal");
    deliver_all();
}
static void go(int s, int x, int y, int z) { sg = s; cm = x; am = y; sync_ = z; setup(); VF_STOP(); }
static int app_main(int c, char **v, char **e)
{
#ifdef FULL			/* one signal, all combinations */
    VF_EACH(x, 0, C_N - 1) {
	VF_EACH(y, 0, A_N - 1) {
	    go(FULL, x, y, 0);
	}
	VF_STOP();
    }
#else				/* all signals, the main combinations */
    VF_EACH(s, LO, HI) {
	if (s == SIGKILL || s == SIGSTOP || s == 32 || s == 33)
	    VF_STOP();
#ifdef HANDLERS
	VF_EACH(k, 0, 1) {
	    if (k == 0) go(s, C_PASSES, A_HI, 0);
	    if (k == 1) go(s, C_NONE, A_H1, 0);
#else
	VF_EACH(k, 0, 2) {
	    if (k == 0) go(s, C_NONE, A_NOTHING, 0);
	    if (k == 1) go(s, C_PASSES, A_NOTHING, fault(s));
	    if (k == 2 && fault(s)) go(s, C_NONE, A_NOTHING, 1);
#endif
	    VF_STOP();
	}
	VF_STOP();
    }
#endif
    VF_STOP();
    return 0;
}
void vf_harness(void) { boot(); }
