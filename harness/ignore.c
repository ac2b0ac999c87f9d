/* C09: histories of creations, monitored, refused by thread_pre_create, or
   made while new threads are disabled, by the initial thread, by a monitored
   thread, by an ignored thread, and by the client inside thread_pre_create. */
#ifndef NOPS
#define NOPS 2
#endif
#define VF_NTHR (2 * NOPS + 1)
static void *cl_pre(void), *cl_init(void *d);
static void cl_post(void *d), cl_fini(void *d), cl_support(void);
static unsigned long cl_reset(unsigned long o);
static void created(int t);
#define CB_PRE_CREATE() return cl_pre()
#define CB_POST_CREATE(d) cl_post(d)
#define CB_INIT_THREAD(t, d) return cl_init(d)
#define CB_FINI_THREAD(d) cl_fini(d)
#define CB_THREAD_SUPPORT() cl_support()
#define CB_RESET_STACKSIZE(o) return cl_reset(o)
#define VF_HOOK_CREATED(t) created(t)
static int fail;
#define VF_CREATE_FAILS fail
#include "env.c"
#include "cb.h"
#include "start.h"

#ifndef WHEN
#define WHEN 0
#endif
static char pre_obj[VF_NTHR], ra[VF_NTHR], args[VF_NTHR];
static int seq;			/* number of the creation in progress, 0 if none */
static int n_seq, refuse, helper, nested, early;
static int ign[VF_NTHR], initd[VF_NTHR], finid[VF_NTHR], bodies[VF_NTHR], pre[VF_NTHR], post[VF_NTHR], off[VF_NTHR];
static void *body(void *a), *body2(void *a);
static struct monitor_thread_info mi;

static void info(void)		/* inside a callback of creation seq */
{
    int r;
    mi.mti_create_return_addr = mi.mti_start_routine = NULL;
    r = monitor_get_new_thread_info(&mi);
    VF_ASSERT(r == 0, "the new thread's info is available in the callbacks of its creation");
    VF_ASSERT(mi.mti_create_return_addr == &ra[seq] && mi.mti_start_routine == (void *)(seq & 1 ? body : body2), "the info is that of the creation in progress");
    VF_ASSERT(monitor_get_new_thread_info(NULL) != 0, "no info without a place to put it");
}
static void noinfo(void)
{
    VF_ASSERT(monitor_get_new_thread_info(&mi) != 0, "no info outside of a creation");
}
static void create(int ignored, int refused, int with_helper)
{
    int me = ++n_seq, t = vf_nthreads + (with_helper != 0), save = seq, sr = refuse, sh = helper, r, who = vf_cur;
    void *sra = vf_ra;
    pthread_t id = 0;
    ign[t] = ignored || refused;
    off[t] = ignored;
    refuse = refused;
    helper = with_helper;
    seq = me;
    vf_ra = &ra[me];
    r = vf_pthread_create(&id, NULL, me & 1 ? body : body2, &args[t]);
    VF_ASSERT(r == (fail ? EAGAIN : 0) && vf_cur == who, "pthread_create's result");
    if (!fail) VF_ASSERT(id == VF_SELF(t), "the thread's id is stored");
    VF_ASSERT(pre[me] == !ignored, "thread_pre_create unless new threads are disabled");
    VF_ASSERT(post[me] == !(ignored || refused), "thread_post_create for monitored threads only");
    seq = save;
    vf_ra = sra;
    refuse = sr;
    helper = sh;
    if (seq == 0) noinfo();
    if (!fail && !early) vf_thread_start(t);
    if (!fail) {
	VF_ASSERT(bodies[t] == 1, "the thread runs");
	VF_ASSERT(initd[t] == !ign[t] && finid[t] == !ign[t], "init_thread and fini_thread for monitored threads only");
    }
}
static void cl_support(void) { if (seq) info(); }
static unsigned long cl_reset(unsigned long o) { info(); return o; }
static void *cl_pre(void)
{
    int me = seq;
    VF_ASSERT(seq > 0, "thread_pre_create only inside a creation");
    pre[seq]++;
    info();
    if (helper) {		/* the client starts a thread of its own */
	int own = helper == 2;	/* monitored */
	helper = 0;
	if (!own) monitor_disable_new_threads();
	create(!own, 0, 0);
	if (!own) monitor_enable_new_threads();
	info();
    }
    return refuse ? MONITOR_IGNORE_NEW_THREAD : &pre_obj[me];
}
static void cl_post(void *d)
{
    VF_ASSERT(seq > 0 && d == &pre_obj[seq], "thread_post_create of the creation in progress");
    post[seq]++;
    info();
}
static void *cl_init(void *d)
{
    initd[vf_cur]++;
    VF_ASSERT(!ign[vf_cur], "no init_thread for an ignored thread");
    noinfo();
    return &args[vf_cur];
}
static void cl_fini(void *d)
{
    finid[vf_cur]++;
    VF_ASSERT(!ign[vf_cur], "no fini_thread for an ignored thread");
    noinfo();
}
static void *run(void *a)
{
    int t = vf_cur, s = seq;
    bodies[t]++;
    VF_ASSERT(a == &args[t], "the start routine gets its argument");
    noinfo();
    if (ign[t]) {
	VF_ASSERT(monitor_get_user_data() == NULL && monitor_get_thread_num() < 0, "an ignored thread has no data of libmonitor's");
    } else
	VF_ASSERT(monitor_get_user_data() == &args[t] && monitor_get_thread_num() > 0, "a monitored thread has its own data");
    if (nested && t < 3) {
	int e = early;
	nested--;
	seq = 0;
	early = 0;
	create(ign[t], 0, 0);	/* threads of an ignored thread are ignored too */
	early = e;
	seq = s;
    }
    return a;
}
static void *body(void *a) { return run(a); }
static void *body2(void *a) { return run(a); }
static void created(int t) { if (early) vf_thread_start(t); }
static int n, disabled;
static void drive(void)
{
    noinfo();
    if (n == NOPS) { VF_WITNESS("end"); VF_STOP(); }
    n++;
    VF_EACH(k, 0, 6) {
	if (k == 0) { monitor_disable_new_threads(); disabled = 1; }
	else if (k == 1) { monitor_enable_new_threads(); disabled = 0; }
	else if (k >= 5) { if (disabled) VF_STOP(); create(0, 0, k - 4); }
	else {
	    nested = k == 4;
	    create(disabled, k == 3 && !disabled, 0);
	}
	drive();
	VF_STOP();
    }
    VF_STOP();
}
static int app_main(int c, char **v, char **e)
{
    early = WHEN == 1;	/* a new thread runs while its creator is inside pthread_create */
    fail = WHEN == 2;	/* creations fail */
    drive();
    return 0;
}
void vf_final(int kind, long val) { VF_ASSERT(0, "the process does not end"); }
void vf_harness(void) { boot(); }
