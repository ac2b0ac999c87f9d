/* C08: a thread ends by itself while the process exits.
   MODE 0: the exiting thread waits; meanwhile thread 1 ends, and takes the
   shootdown signal at any one statement on the way.
   MODE 1: thread 1, which is ending, is preempted at any one statement by the
   initial thread, which ends the process; thread 1 takes the signal there.
   Thread 2 runs all the time. */
#define VF_NTHR 3
#define VF_MAX_BLOCKS 5
static void cl_fini(void *d), cl_finip(void *d), blocked(void), preempt(void), too_long(void);
static void *cl_init(void), *cl_initp(void);
static char pre_obj;
#define CB_INIT_PROCESS(a, v, d) return cl_initp()
#define CB_PRE_CREATE() return &pre_obj
#define CB_INIT_THREAD(t, d) return cl_init()
#define CB_FINI_THREAD(d) cl_fini(d)
#define CB_FINI_PROCESS(h, d) cl_finip(d)
#define VF_HOOK_BLOCK() blocked()
#define VF_HOOK_PREEMPT() preempt()
#include "env.c"
#include "cb.h"
#include "start.h"
static int polls, fini[VF_NTHR], infini, n_finip, hit;
static void *data[VF_NTHR];
static pthread_t id[VF_NTHR];
static void *cl_initp(void) { data[0] = vf_cookie(); return data[0]; }
static void *cl_init(void) { data[vf_cur] = vf_cookie(); return data[vf_cur]; }
static void cl_fini(void *d)
{
    fini[vf_cur]++;
    VF_ASSERT(fini[vf_cur] == 1 && n_finip == 0 && d == data[vf_cur], "fini_thread once, before fini_process, with the thread's data");
}
static void cl_finip(void *d)
{
    n_finip++;
    VF_ASSERT(n_finip == 1 && d == data[0], "fini_process once");
    VF_ASSERT(fini[1] == 1 && fini[2] == 1, "fini_process only after fini_thread of every thread");
}
static void preempt(void)
{
    hit = 1;
#if MODE == 0
    vf_poll(1);
    VF_ASSERT(vf_cur == 1, "harness");
#else
    vf_cur = 0;
    vf_exit(3);
    VF_STOP();
#endif
}
static void blocked(void)
{
    if (vf_cur != 0) return;
    polls++;
#if MODE == 0
    if (polls == 1) {
	vf_cur = 1;
	vf_yield_on = 1;
	vf_thread_unwind(1);
	vf_yield_on = 0;
	vf_thr[1].live = 0;
	vf_thr[1].pending = 0;
	vf_cur = 0;
	if (!hit) VF_WITNESS("not interrupted");
    }
#else
    vf_poll(1);
#endif
    vf_poll(2);
}
static void *body(void *a) { vf_unw = 1; return a; }
static int app_main(int c, char **v, char **e)
{
    int t;
    for (t = 1; t < 3; t++) {
	vf_cur = 0;
	vf_pthread_create(&id[t], NULL, body, NULL);
	vf_cur = t;
	vf_thr[t].started = 1;
	(*vf_thr[t].start)(vf_thr[t].arg);
	vf_unw = 0;
    }
    vf_yield_thr = 1;
    VF_EACH(k, 1, PREEMPT_N) {
	vf_yield_at = k;
#if MODE == 0
	vf_cur = 0;
	vf_exit(3);
#else
	vf_cur = 1;
	vf_yield_on = 1;
	vf_thread_unwind(1);
	VF_ASSERT(!hit && fini[1] == 1, "a thread that ended got fini_thread");
	if (k == PREEMPT_N) VF_WITNESS("end of the thread");
#endif
	VF_STOP();
    }
    VF_STOP();
    return 0;
}
void vf_final(int kind, long val)
{
    VF_ASSERT(n_finip == 1, "fini_process once by the end of the process");
    if (vf_yield_at == PREEMPT_N) VF_ASSERT(!hit, "model bound: more preemption points than PREEMPT_N");
    if (hit) VF_WITNESS("interrupted");
}
void vf_harness(void) { boot(); }
