/* C02: two threads end the process.  Thread A (WHO) does it by HOWA, and is
   preempted once, at any statement of libmonitor's exit path, by thread B,
   which ends the process by HOWB.  Thread 2 runs all the time.  0 exit,
   1 _exit, 2 a fatal signal, 3 return from main. */
#define VF_NTHR 3
#define VF_MAX_BLOCKS 4
static void *cl_init(void); static void cl_fini(void *d), cl_begin(int h), cl_finip(int h, void *d), preempt(void), blocked(void);
static void *cl_initp(void);
static char pre_obj;
#define CB_INIT_PROCESS(a, v, d) return cl_initp()
#define CB_PRE_CREATE() return &pre_obj
#define CB_INIT_THREAD(t, d) return cl_init()
#define CB_FINI_THREAD(d) cl_fini(d)
#define CB_BEGIN_PROCESS_EXIT(h) cl_begin(h)
#define CB_FINI_PROCESS(h, d) cl_finip(h, d)
#define CB_FINI_LIBRARY() cl_finilib()
#define VF_HOOK_PREEMPT() preempt()
#define VF_HOOK_BLOCK() blocked()
static void cl_finilib(void), too_long(void);
#define VF_HOOK_MAX_BLOCKS() too_long()
int monitor_shootdown_signal(void);
#include "env.c"
#include "cb.h"
#include "start.h"
#define A WHO
#define B (1 - WHO)
static int fini[VF_NTHR], n_begin, n_finip, n_finilib, winner = -1, bwaits, done;
static void *data[VF_NTHR];
static pthread_t id[VF_NTHR];
static void *cl_initp(void) { data[0] = vf_cookie(); return data[0]; }
static void *cl_init(void) { data[vf_cur] = vf_cookie(); return data[vf_cur]; }
static int kind_of(int t) { return (t == A ? HOWA : HOWB) == 2 ? MONITOR_EXIT_SIGNAL : MONITOR_EXIT_NORMAL; }
static void cl_begin(int h)
{
    n_begin++;
    winner = vf_cur;
    VF_ASSERT(n_begin == 1 && n_finip == 0, "begin_process_exit once");
    VF_ASSERT(h == kind_of(winner), "begin_process_exit gets the kind of exit");
}
static void cl_fini(void *d)
{
    fini[vf_cur]++;
    VF_ASSERT(fini[vf_cur] == 1 && n_finip == 0, "fini_thread at most once per thread, before fini_process");
    VF_ASSERT(d == data[vf_cur], "fini_thread gets the thread's own data");
}
static void cl_finip(int h, void *d)
{
    int t;
    n_finip++;
    VF_ASSERT(n_begin == 1 && n_finip == 1, "fini_process once");
    VF_ASSERT(vf_cur == winner && h == kind_of(winner) && d == data[0], "fini_process in the first thread to exit, with its kind of exit and the process's data");
    for (t = 0; t < VF_NTHR; t++)
	VF_ASSERT(fini[t] == (t != 0 || winner != 0), "every thread got fini_thread before fini_process");
}
static void cl_finilib(void)
{
    n_finilib++;
    VF_ASSERT(n_finilib == 1 && n_finip == 1, "fini_library once, after fini_process");
}
static void end_as(int how)
{
    if (how == 0) vf_exit(3);
    else if (how == 1) vf__exit(3);
    else if (how == 2) vf_deliver(vf_cur, SIGTERM, &vf_anyinfo, NULL);
}
static void preempt(void)
{
    vf_cur = B;
    end_as(HOWB);
    VF_ASSERT(bwaits && vf_unw, "a thread that exits second waits or ends the process");
    vf_unw = 0;
    vf_cur = A;
    done = 1;
}
/* vf_cur sleeps: the others take their signals */
static void blocked(void)
{
    int t, me = vf_cur;
    if (n_begin == 0) return;
    if (me != winner && n_finip == 0) {
	/* the second to exit waits for the first; it goes no further in this history */
	VF_ASSERT(me == B && vf_preempted == 1, "harness");
	bwaits = 1;
	vf_unw = 1;
	return;
    }
    if (me != winner) return;
    /* A, preempted in a handler, has to go on first: the history in which B is preempted */
    if (winner == B && done == 0 && (vf_thr[A].mask & VF_BIT(monitor_shootdown_signal()))) VF_STOP();
    for (t = 0; t < VF_NTHR; t++)
	if (t != me) vf_poll(t);
}
static void too_long(void) { VF_ASSERT(vf_cur != winner, "the wait for the other threads ends"); }
static void *body(void *a)
{
    if (vf_cur == 1 && WHO == 1) {
	VF_EACH(k, KLO, KHI) {
	    vf_yield_thr = A;
	    vf_yield_at = k;
	    vf_yield_on = 1;
	    end_as(HOWA);
	    VF_STOP();
	}
	VF_STOP();
    }
    vf_unw = 1;
    return NULL;
}
static int app_main(int c, char **v, char **e)
{
    vf_pthread_create(&id[1], NULL, body, NULL);
    vf_pthread_create(&id[2], NULL, body, NULL);
    vf_cur = 2;
    (*vf_thr[2].start)(vf_thr[2].arg);
    vf_unw = 0;
    vf_cur = 1;
    (*vf_thr[1].start)(vf_thr[1].arg);
    vf_unw = 0;
    vf_cur = 0;
#if WHO == 0 && HOWA == 3
    vf_yield_on = 1;
    return 3;
#elif WHO == 0
    VF_EACH(k, KLO, KHI) {
	vf_yield_thr = A;
	vf_yield_at = k;
	vf_yield_on = 1;
	end_as(HOWA);
	VF_STOP();
    }
#endif
    VF_STOP();
    return 0;
}
void vf_final(int kind, long val)
{
    VF_ASSERT(n_begin == 1 && n_finip == 1, "fini_process once by the end of the process");
    if (winner == A && done) VF_WITNESS("A first");
#if KLO == 1 && HOWA != 2
    if (winner == B) VF_WITNESS("B first");
#endif
#ifndef NOTLAST
    if (vf_yield_at == KHI) VF_ASSERT(vf_preempted == 0, "model bound: more preemption points than KHI");
#endif
}
void vf_harness(void)
{
#if HOWA == 3
    VF_EACH(k, KLO, KHI) {
	vf_yield_thr = A;
	vf_yield_at = k;
	boot();
	VF_STOP();
    }
#else
    boot();
#endif
}
