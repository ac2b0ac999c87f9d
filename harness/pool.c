/* C23: threads come and go concurrently.  Thread 1 runs.  X is preempted once,
   at any statement, by all of Y:
   X: 0 the initial thread creates thread 2; 1 thread 2 starts; 2 thread 2
   starts and ends;
   Y: 0 thread 1 ends; 1 thread 1 creates thread 3, which starts and runs on;
   2 thread 1 creates thread 3, which runs to its end; 3 thread 1 creates a
   thread and ends. */
#define VF_NTHR 5
#ifndef KLO
#define KLO 1
#endif
static void *cl_pre(void), *cl_init(int tid, void *d);
static void cl_fini(void *d), preempt(void);
#define CB_PRE_CREATE() return cl_pre()
#define CB_INIT_THREAD(t, d) return cl_init(t, d)
#define CB_FINI_THREAD(d) cl_fini(d)
#define VF_HOOK_PREEMPT() preempt()
#define VF_OWN_PTHREAD_CREATE
#define VF_OWN_ATTR
#include "env.c"
#include "cb.h"
#include "start.h"
static int init[VF_NTHR], fini[VF_NTHR], tid[VF_NTHR], stay[VF_NTHR], slot[VF_NTHR], done;
static void *data[VF_NTHR];
static char pre_obj[VF_NTHR], arg[VF_NTHR];
static pthread_t id[VF_NTHR];

/* attributes are of no interest here */
int vf_pthread_attr_init(pthread_attr_t *a) { return 0; }
int vf_pthread_attr_destroy(pthread_attr_t *a) { return 0; }
int vf_pthread_attr_getstacksize(const pthread_attr_t *a, size_t *s) { *s = 65536; return 0; }
int vf_pthread_attr_setstacksize(pthread_attr_t *a, size_t s) { return 0; }
/* which thread a creation gives is settled when it is begun */
int vfr_pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*st)(void *), void *ar)
{
    int t = slot[vf_cur];
    vf_thr[t].used = vf_thr[t].live = 1;
    vf_thr[t].start = st;
    vf_thr[t].arg = ar;
    *p = VF_SELF(t);
    return 0;
}
static void *cl_pre(void) { return &pre_obj[slot[vf_cur]]; }
static void *cl_init(int n, void *d)
{
    int t;
    init[vf_cur]++;
    VF_ASSERT(init[vf_cur] == 1, "init_thread once per thread");
    VF_ASSERT(d == &pre_obj[vf_cur], "init_thread gets the data of its own creation");
    VF_ASSERT(n > 0, "thread numbers are positive");
    for (t = 1; t < VF_NTHR; t++)
	VF_ASSERT(t == vf_cur || tid[t] != n, "thread numbers are distinct");
    tid[vf_cur] = n;
    data[vf_cur] = vf_cookie();
    return data[vf_cur];
}
static void self(void)
{
    VF_ASSERT(monitor_get_thread_num() == tid[vf_cur] && monitor_get_user_data() == data[vf_cur], "a thread's number and data are its own");
}
static void cl_fini(void *d)
{
    fini[vf_cur]++;
    VF_ASSERT(init[vf_cur] == 1 && fini[vf_cur] == 1 && d == data[vf_cur], "fini_thread once per thread, with its own data");
    self();
}
static void *body(void *a)
{
    VF_ASSERT(a == &arg[vf_cur] && init[vf_cur] == 1, "the start routine gets its argument, after init_thread");
    VF_ASSERT(monitor_get_addr_thread_start() == (void *)body, "a thread's start routine");
    self();
    if (stay[vf_cur]) vf_unw = 1;
    return a;
}
static void start(int t)
{
    int save = vf_cur;
    vf_cur = t;
    vf_thr[t].started = 1;
    (*vf_thr[t].start)(vf_thr[t].arg);
    if (stay[t]) {
	VF_ASSERT(vf_unw == 1, "harness");
	vf_unw = 0;
	self();
    } else {
	vf_thr[t].live = 0;
	vf_thr[t].ended = 1;
	VF_ASSERT(fini[t] == 1, "a thread that ended got fini_thread");
    }
    vf_cur = save;
}
static void create(int t)
{
    int r;
    slot[vf_cur] = t;
    r = vf_pthread_create(&id[t], NULL, body, &arg[t]);
    VF_ASSERT(r == 0 && id[t] == VF_SELF(t), "the thread is created");
}
static void preempt(void)
{
    int save = vf_cur;
    vf_cur = 1;
    if (Y != 0) {
	stay[3] = Y == 1;
	create(3);
	if (Y != 3) start(3);
    }
    if (Y == 0 || Y == 3) { vf_thread_unwind(1); VF_ASSERT(fini[1] == 1, "a thread that ended got fini_thread"); }
    vf_cur = save;
    done = 1;
}
static void check(void)
{
    int t;
    vf_yield_on = 0;
    if (X == 0) start(2);
    if (Y == 3 && done) start(3);
    for (t = 1; t < 4; t++)
	if (vf_thr[t].live) {
	    vf_cur = t;
	    self();
	}
    vf_cur = 0;
    stay[4] = 0;
    create(4);
    start(4);
    for (t = 1; t < 4; t++)
	if (vf_thr[t].live) {
	    vf_cur = t;
	    self();
	    vf_thread_unwind(t);
	}
    for (t = 1; t < 5; t++)
	if (vf_thr[t].used)
	    VF_ASSERT(init[t] == 1 && fini[t] == 1, "every thread gets init_thread and fini_thread once");
    vf_cur = 0;
    VF_ASSERT(monitor_get_thread_num() == 0, "the initial thread keeps its number");
}
static int app_main(int c, char **v, char **e)
{
    stay[1] = 1;
    create(1);
    start(1);
    stay[2] = X != 2;
    if (X != 0) create(2);
    VF_EACH(k, KLO, PREEMPT_N) {
	vf_yield_thr = X == 0 ? 0 : 2;
	vf_yield_at = k;
	vf_yield_on = 1;
	if (X == 0) create(2);
	else start(2);
	check();
	if (done && k == KLO + 4) VF_WITNESS("preempted");
#ifndef NOTLAST
	if (k == PREEMPT_N) VF_ASSERT(!done, "model bound: more preemption points than PREEMPT_N");
#endif
	VF_STOP();
    }
    VF_STOP();
    return 0;
}
void vf_final(int kind, long val) { VF_ASSERT(0, "the process does not end"); }
void vf_harness(void) { boot(); }
