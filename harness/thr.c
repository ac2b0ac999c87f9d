/* C07: life of an application thread.  The initial thread creates NT threads;
   each may start at once (while its creator is inside pthread_create) or
   later, and ends by return, pthread_exit or cancellation, or is still alive
   when the process exits. */
#ifndef NT
#define NT 2
#endif
#define VF_NTHR (NT + 1)
#ifdef EXITING
#define VF_MAX_BLOCKS 3
#endif

static void *cl_init_process(void *d);
static void cl_init_thread_support(void);
static void *cl_pre_create(void), *cl_init_thread(int tid, void *data);
static void cl_post_create(void *data), cl_fini_thread(void *data);
static void created(int t), thread_exited(int t), blocked(void);
#define CB_INIT_PROCESS(a, v, d) return cl_init_process(d)
#define CB_THREAD_SUPPORT() cl_init_thread_support()
#define CB_PRE_CREATE() return cl_pre_create()
#define CB_POST_CREATE(d) cl_post_create(d)
#define CB_INIT_THREAD(t, d) return cl_init_thread(t, d)
#define CB_FINI_THREAD(d) cl_fini_thread(d)
#define VF_HOOK_CREATED(t) created(t)
#define VF_HOOK_THREAD_EXIT(t) thread_exited(t)
#define VF_HOOK_BLOCK() blocked()
static int create_fails(void);
#define VF_CREATE_FAILS create_fails()
#include "env.c"
#include "cb.h"

struct th {
    void *pre, *data, *arg, *ret;
    int tid, init, body, fini, left;
};
static struct th th[VF_NTHR];
static int n_support, n_pre, n_post, ncreated;
static void *main_data, *last_pre;
static char pre_obj[NT + 1];
static pthread_t ids[VF_NTHR];
/* what becomes of a creation; M_EARLY: the thread runs to its end while its
   creator is still inside pthread_create */
enum { M_FAIL, M_EARLY, M_RETURN, M_PTHREAD_EXIT, M_CANCEL, M_ALIVE, M_N };
static int mode;		/* kept constant on each path: see drive() */

static int create_fails(void) { return mode == M_FAIL; }
static void *cl_init_process(void *d) { return main_data; }
static void cl_init_thread_support(void)
{
    n_support++;
    VF_ASSERT(n_support == 1, "init_thread_support at most once");
    VF_ASSERT(n_pre == 0, "init_thread_support comes before the first thread_pre_create");
}
static void *cl_pre_create(void)
{
    VF_ASSERT(vf_cur == 0, "thread_pre_create runs in the creating thread");
    VF_ASSERT(n_support == 1, "init_thread_support before the first thread");
    VF_ASSERT(n_pre == n_post, "thread_pre_create and thread_post_create alternate");
    n_pre++;
    last_pre = (void *)&pre_obj[n_pre];	/* a constant: compared with MONITOR_IGNORE_NEW_THREAD */
    return last_pre;
}
static void cl_post_create(void *data)
{
    n_post++;
    VF_ASSERT(vf_cur == 0, "thread_post_create runs in the creating thread");
    VF_ASSERT(n_post == n_pre, "thread_post_create once per creation");
    VF_ASSERT(data == last_pre, "thread_post_create gets thread_pre_create's data");
}
static void *cl_init_thread(int tid, void *data)
{
    struct th *p = &th[vf_cur];
    int t;
    VF_ASSERT(vf_cur != 0, "init_thread runs in the new thread");
    p->init++;
    VF_ASSERT(p->init == 1, "init_thread exactly once per thread");
    VF_ASSERT(p->body == 0, "init_thread before the start routine");
    VF_ASSERT(data == p->pre, "init_thread gets the data of its own thread_pre_create");
    VF_ASSERT(tid > 0, "thread numbers are positive");
    for (t = 1; t < VF_NTHR; t++)
	VF_ASSERT(t == vf_cur || th[t].tid != tid, "thread numbers are never reused");
    VF_ASSERT(monitor_get_thread_num() == tid, "monitor_get_thread_num in init_thread");
    p->tid = tid;
    p->data = vf_cookie();
    return p->data;
}
static void cl_fini_thread(void *data)
{
    struct th *p = &th[vf_cur];
    VF_ASSERT(vf_cur != 0, "fini_thread runs in the thread itself");
    p->fini++;
    VF_ASSERT(p->init == 1, "no fini_thread without init_thread");
    VF_ASSERT(p->fini == 1, "fini_thread at most once per thread");
    VF_ASSERT(data == p->data, "fini_thread gets init_thread's data");
    VF_ASSERT(monitor_get_thread_num() == p->tid, "monitor_get_thread_num in fini_thread");
    VF_ASSERT(monitor_get_user_data() == p->data, "monitor_get_user_data in fini_thread");
}
static void drive(void);
static void *body(void *arg)
{
    int t = vf_cur;
    struct th *p = &th[t];
    p->body++;
    VF_ASSERT(p->init == 1 && p->body == 1 && p->fini == 0, "the start routine runs once, after init_thread");
    VF_ASSERT(arg == p->arg, "the start routine gets its argument");
    VF_ASSERT(monitor_get_user_data() == p->data, "monitor_get_user_data in a thread");
    VF_ASSERT(monitor_get_thread_num() == p->tid, "monitor_get_thread_num in a thread");
    VF_ASSERT(monitor_get_addr_thread_start() == (void *)body, "monitor_get_addr_thread_start in a thread");
    VF_ASSERT(monitor_stack_bottom() != NULL, "monitor_stack_bottom in a thread");
    VF_ASSERT(monitor_is_threaded(), "monitor_is_threaded in a thread");
    p->ret = vf_cookie();
    if (mode == M_PTHREAD_EXIT)
	vf_pthread_exit(p->ret);
    if (mode == M_CANCEL) {
	vf_thread_unwind(t);
	thread_exited(t);
    }
    if (mode == M_ALIVE) {
	p->left = 1;
	vf_cur = 0;
	drive();
    }
    return p->ret;
}
static void check_ended(int t)
{
    VF_ASSERT(th[t].init == 1 && th[t].fini == 1, "a thread that ended got init_thread and fini_thread exactly once");
}
static void thread_exited(int t)
{
    check_ended(t);
    vf_cur = 0;
    drive();
    VF_STOP();
}
static void start(int t)
{
    vf_thread_start(t);
    check_ended(t);
    VF_ASSERT(vf_thr[t].ret == th[t].ret, "the thread's result is the start routine's");
}
static void created(int t)
{
    th[t].pre = last_pre;
    if (mode == M_EARLY)
	start(t);
}
static void create(void)
{
    int t = vf_nthreads, r;
    th[t].arg = vf_cookie();
    r = vf_pthread_create(&ids[t], NULL, body, th[t].arg);
    VF_ASSERT(r == (mode == M_FAIL ? EAGAIN : 0), "pthread_create returns the system's result");
    VF_ASSERT(n_pre == n_post, "thread_post_create after each creation");
    VF_ASSERT(monitor_get_thread_num() == 0 && monitor_get_user_data() == main_data, "the initial thread keeps its number and data");
    if (mode != M_FAIL) {
	VF_ASSERT(ids[t] == VF_SELF(t), "pthread_create stores the thread's id");
	if (mode != M_EARLY)
	    start(t);
    }
}
static void drive(void)
{
    if (ncreated < NT) {
	int k, m = vf_range(0, M_N - 1);
#ifdef ONLY
	m = ONLY;
#endif
	for (k = 0; k < M_N; k++)
	    if (m == k) {
		ncreated++;
		mode = k;
		create();
		drive();
		VF_STOP();
	    }
	VF_STOP();
    }
    VF_ASSERT(monitor_get_thread_num() == 0 && monitor_get_user_data() == main_data, "the initial thread keeps its number and data");
    if (NT > 1 && th[1].fini && th[NT > 1 ? 2 : 0].fini) VF_WITNESS("all threads ended before exit");
    if (NT > 1 && th[1].left && th[NT > 1 ? 2 : 0].fini) VF_WITNESS("one thread alive, one ended");
#ifdef EXITING
    vf_exit(0);
#endif
    VF_STOP();
}
static void blocked(void)
{
    int t;
    for (t = 1; t < VF_NTHR; t++)
	if (vf_thr[t].live && vf_bool())
	    vf_poll(t);
}
void vf_final(int kind, long val)
{
    int t;
    for (t = 1; t < VF_NTHR; t++)
	if (th[t].init)
	    VF_ASSERT(th[t].fini == 1, "at process end every thread got fini_thread exactly once");
#ifdef EXITING
    VF_WITNESS("process end");
#endif
}
static int app_main(int c, char **v, char **e) { drive(); return 0; }
#ifdef VF_STATIC
int vfr_main(int c, char **v, char **e) { return app_main(c, v, e); }
#endif
void vf_harness(void)
{
    static char *av[2] = { "a", NULL }, *ev[1] = { NULL };
    vf_environ = ev;
    main_data = vf_cookie();
    vf_ctors();
#ifdef VF_STATIC
    vf_libc_exit(vf_main(1, av, ev));
#else
    vf___libc_start_main(app_main, 1, av, NULL, NULL, NULL, NULL);
#endif
}
