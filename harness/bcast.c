/* C19: monitor_broadcast_signal with two threads in any combination of states,
   called by any of them or by a third, ignored thread, or while the process
   exits.  PREEMPT: called by a signal handler that interrupts the initial
   thread anywhere inside pthread_create, or a thread anywhere in its life. */
#define NT 2
#define VF_NTHR 4
static void *cl_init(void *d);
static void cl_fini(void *d), preempt(void), at_fini(void);
static char pre_obj;
#define CB_PRE_CREATE() return &pre_obj
#define CB_INIT_THREAD(t, d) return cl_init(d)
#define CB_FINI_THREAD(d) cl_fini(d)
#define CB_FINI_PROCESS(h, d) at_fini()
#define VF_HOOK_PREEMPT() preempt()
#define VF_OWN_PTHREAD_KILL
static void blocked(void);
#define VF_HOOK_BLOCK() blocked()
int monitor_shootdown_signal(void);
#include "env.c"
#include "cb.h"
#include "start.h"
enum { S_NONE, S_RUN, S_NEW, S_INIT, S_FINI, S_ENDED };
static int st[VF_NTHR], sent[VF_NTHR], ncreated, sig, ending, order, interrupted;
static pthread_t id[VF_NTHR];
int vf_pthread_kill(pthread_t p, int s)
{
    int t = (int)((unsigned long)p - 0x7000);
    VF_ASSERT(t >= 0 && t < VF_NTHR && vf_thr[t].used && !vf_thr[t].ended, "a signal is only sent to a thread that exists");
    if (s == sig) sent[t]++;
    else { VF_ASSERT(ending && s == monitor_shootdown_signal(), "only the broadcast signal is sent"); vf_thr[t].pending |= VF_BIT(s); }
    return 0;
}
static void drive(void), *body2(void *), pdrive(void);
static void check(int t, int must, int may)
{
    VF_ASSERT(sent[t] <= 1, "at most one signal per thread");
    if (must) VF_ASSERT(sent[t] == 1, "every other running thread gets the signal");
    if (!may) VF_ASSERT(sent[t] == 0, "no signal to the caller, or to a thread that is not monitored, not started or ended");
}
/* thread t: must it get the signal, may it */
static void bcast(int strict)
{
    int t, r, me = vf_cur;
    for (t = 0; t < VF_NTHR; t++) sent[t] = 0;
    r = monitor_broadcast_signal(sig);
    VF_ASSERT(vf_cur == me, "harness");
    if (r != 0) {
	VF_ASSERT(r == -1 && !strict, "broadcast fails only if the list of threads is in use");
	for (t = 0; t < VF_NTHR; t++) VF_ASSERT(sent[t] == 0, "no signal is sent by a broadcast that fails");
#ifdef PREEMPT
	VF_WITNESS("failed broadcast");
#endif
	return;
    }
    for (t = 0; t < VF_NTHR; t++)
	if (t == me || t == 3) check(t, 0, 0);
	else if (t == 0) check(t, 1, 1);
	else if (st[t] == S_RUN) check(t, strict, 1);
	else check(t, 0, 0);
}
static void callers(void)
{
    VF_ASSERT(ncreated == NT, "harness");
#ifdef EXITING
    VF_EACH(k, 0, 3) {
	ending = 1;
	order = k >> 1;
	vf_cur = k & 1;
	vf_exit(0);
	VF_STOP();
    }
#else
    sig = vf_range(1, 64);
    VF_EACH(k, 0, 3) {
	vf_cur = k;
	if (k == 0 || st[k] == S_RUN || k == 3) {
	    if (k == 3) { vf_thr[3].used = vf_thr[3].live = 1; }
	    bcast(1);
#ifndef PREEMPT
	    if (k == 3) VF_WITNESS("from an unmonitored thread");
	    if (k == 1 && st[2] == S_RUN) VF_WITNESS("from a thread");
#endif
	    bcast(1);
	}
	VF_STOP();
    }
#endif
    VF_STOP();
}
static void *body(void *a)
{
    int t = vf_cur;
    if (st[t] == S_RUN) {
	vf_cur = 0;
	drive();
	VF_STOP();
    }
    return NULL;
}
static void *cl_init(void *d)
{
    int t = vf_cur;
    if (st[t] == S_INIT) {
	vf_cur = 0;
	drive();
	VF_STOP();
    }
    return NULL;
}
static void cl_fini(void *d)
{
    int t = vf_cur;
    if (ending) { bcast(1); return; }
    if (st[t] == S_FINI) {
	vf_cur = 0;
	drive();
	VF_STOP();
    }
}
static void at_fini(void)
{
#ifdef EXITING
    bcast(1);
    VF_WITNESS("in fini_process");
    VF_STOP();
#endif
}
static void blocked(void)
{
    int t, i;
    for (i = 0; i < 3; i++)
	if ((t = order ? 2 - i : i) != vf_cur && vf_thr[t].live) {
	    vf_poll(t);
	    st[t] = S_FINI;
	}
}
static void create(int k)
{
    int t = ++ncreated;
    VF_ASSERT(vf_nthreads == t, "harness");
    st[t] = k;
    vf_pthread_create(&id[t], NULL, body, NULL);
    if (k != S_NEW) vf_thread_start(t);
}
static void drive(void)
{
#ifdef PREEMPT
    if (ncreated == 1) pdrive();
    create(S_RUN);
#endif
    if (ncreated == NT) callers();
    VF_EACH(k, S_RUN, S_ENDED) {
#ifdef EXITING
	if (k != S_RUN) VF_STOP();
#endif
	create(k);
	drive();
	VF_STOP();
    }
    VF_STOP();
}
#ifdef PREEMPT
/* thread 1 runs; the signal handler interrupts the initial thread in its
   second pthread_create (0), or thread 2 anywhere in its life (2) */
static void preempt(void)
{
    bcast(0);
    interrupted = 1;
}
static void pdrive(void)
{
    vf_interrupt = 1;
    VF_EACH(k, 1, PREEMPT_N) {
	ncreated++;
	vf_yield_thr = PREEMPT;
	vf_yield_at = k;
	st[2] = PREEMPT == 0 ? S_NEW : S_RUN;
	vf_yield_on = 1;
	vf_pthread_create(&id[2], NULL, body2, NULL);
	if (PREEMPT != 0) {
	    vf_thread_start(2);
	    st[2] = S_ENDED;
	} else
	    st[2] = S_NEW;
	vf_yield_on = 0;
	if (k == PREEMPT_N) VF_ASSERT(!interrupted, "model bound: more preemption points than PREEMPT_N");
	bcast(1);		/* afterwards the list of threads is not in use */
	if (k == 5) VF_WITNESS("afterwards");
	VF_STOP();
    }
    VF_STOP();
}
static void *body2(void *a) { return NULL; }
#else
static void preempt(void) { }
#endif
static int app_main(int c, char **v, char **e)
{
    sig = 50;
    bcast(1);			/* no threads yet: success, nothing is sent */
    drive();
    return 0;
}
void vf_final(int kind, long val) { VF_ASSERT(0, "harness"); }
void vf_harness(void) { boot(); }
