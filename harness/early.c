/* C27: libmonitor entered before main.  Two steps, each any of: the client's
   monitor_initialize, a thread created (that runs at once or only once main is
   running), fork (failed, in the parent, in the child), the application's
   sigaction, the client's monitor_sigaction.  POINT: 0 before libmonitor's own
   constructor (another library's constructor), 1 after it and before
   __libc_start_main, 2 in the program's own constructors, 3 one step at point 0
   and one at point 2.  Then main runs and the process ends. */
#define VF_NTHR 4
#ifndef POINT
#define POINT 0
#endif
#ifndef LO			/* the first step */
#define LO S_NONE
#define HI (S_N - 1)
#endif
static void *cl_init_process(int *c, char **v, void *d), *cl_pre_fork(void), *cl_pre_create(void), *cl_init_thread(int t, void *d);
static void cl_post_fork(int p, void *d), cl_init_library(void), cl_start_main(void), cl_at_main(void), cl_support(void),
    cl_fini_thread(void *d), cl_begin(int h), cl_fini(int h, void *d), cl_fini_lib(void), before_main(void);
#define CB_INIT_LIBRARY() cl_init_library()
#define CB_FINI_LIBRARY() cl_fini_lib()
#define CB_START_MAIN_INIT() cl_start_main()
#define CB_INIT_PROCESS(a, v, d) return cl_init_process(a, v, d)
#define CB_AT_MAIN() cl_at_main()
#define CB_PRE_FORK() return cl_pre_fork()
#define CB_POST_FORK(p, d) cl_post_fork(p, d)
#define CB_THREAD_SUPPORT() cl_support()
#define CB_PRE_CREATE() return cl_pre_create()
#define CB_INIT_THREAD(t, d) return cl_init_thread(t, d)
#define CB_FINI_THREAD(d) cl_fini_thread(d)
#define CB_BEGIN_PROCESS_EXIT(h) cl_begin(h)
#define CB_FINI_PROCESS(h, d) cl_fini(h, d)
#define VF_HOOK_BEFORE_MAIN() before_main()
#define VF_OWN_FORK
#include "env.c"
#include "cb.h"

enum { S_NONE, S_INIT, S_RUN, S_LATER, S_FORK_FAIL, S_FORK_PARENT, S_FORK_CHILD, S_SIGACTION, S_CLIENT, S_N };
enum { W_RETURN, W_EXIT, W_UEXIT, W_SIGNAL, W_N };
static int step[2], way, n_initlib, n_start, n_initp, n_atmain, n_main, n_begin, n_finip, n_finilib, n_support, n_pre,
    n_created, in_fork, child, result, n_handled, n_client, set_app, set_client, in_main;
static int init[VF_NTHR], fini[VF_NTHR], ran[VF_NTHR];
static void *data[VF_NTHR], *proc_data, *fork_data;
static char pre_obj[VF_NTHR];
static pthread_t id[VF_NTHR];
static char *av[2] = { "a", NULL }, *ev[1] = { NULL };

static void cl_init_library(void)
{
    n_initlib++;
    VF_ASSERT(n_initlib == 1, "init_library exactly once");
    VF_ASSERT(n_initp == 0, "init_library before init_process");
}
static void cl_start_main(void) { n_start++; }
static void *cl_init_process(int *c, char **v, void *d)
{
    n_initp++;
    VF_ASSERT(n_initlib == 1, "init_library before init_process");
    VF_ASSERT(n_initp == 1, "init_process exactly once per process");
    if (child && in_fork) VF_ASSERT(d == fork_data, "a child's init_process gets pre_fork's data");
    else if (!child) VF_ASSERT(d == NULL, "the first process's init_process gets no data");
    proc_data = vf_cookie();
    return proc_data;
}
static void cl_at_main(void)
{
    n_atmain++;
    VF_ASSERT(n_initp == 1 && n_start == 1, "at_main after init_process");
}
static void *cl_pre_fork(void) { fork_data = vf_cookie(); return fork_data; }
static void cl_post_fork(int p, void *d)
{
    VF_ASSERT(in_fork && result != 0 && p == result && d == fork_data, "post_fork in the parent, with pre_fork's data");
}
static void cl_support(void)
{
    n_support++;
    VF_ASSERT(n_support == 1 && n_initp == 1, "init_thread_support once, after init_process");
}
static void *cl_pre_create(void)
{
    VF_ASSERT(n_initp == 1 && n_support == 1, "init_process and init_thread_support before the first thread's callbacks");
    n_pre++;
    return &pre_obj[n_created + 1];
}
static void *cl_init_thread(int t, void *d)
{
    init[vf_cur]++;
    VF_ASSERT(n_initp == 1 && n_support == 1, "init_thread after init_process");
    VF_ASSERT(init[vf_cur] == 1 && vf_cur > 0, "init_thread once per thread, in the thread");
    VF_ASSERT(d == (void *)&pre_obj[vf_cur], "init_thread gets the data of its thread_pre_create");
    data[vf_cur] = vf_cookie();
    return data[vf_cur];
}
static void cl_fini_thread(void *d)
{
    if (vf_cur == 0) return;		/* the initial thread's, as part of process exit */
    fini[vf_cur]++;
    VF_ASSERT(init[vf_cur] == 1 && fini[vf_cur] == 1 && ran[vf_cur] == 1, "fini_thread once, after the thread");
    VF_ASSERT(d == data[vf_cur], "fini_thread gets init_thread's data");
}
static void cl_begin(int h)
{
    n_begin++;
    VF_ASSERT(n_main == 1 && n_begin == 1, "begin_process_exit once, at the end");
    VF_ASSERT(h == (way == W_SIGNAL ? MONITOR_EXIT_SIGNAL : MONITOR_EXIT_NORMAL), "begin_process_exit gets the kind of exit");
}
static void cl_fini(int h, void *d)
{
    n_finip++;
    VF_ASSERT(n_begin == 1 && n_finip == 1, "fini_process once, at the end");
    VF_ASSERT(d == proc_data, "fini_process gets what this process's init_process returned");
    VF_ASSERT(h == (way == W_SIGNAL ? MONITOR_EXIT_SIGNAL : MONITOR_EXIT_NORMAL), "fini_process gets the kind of exit");
}
static void cl_fini_lib(void) { n_finilib++; VF_ASSERT(n_finip == 1, "fini_library after fini_process"); }

int vfr_fork(void)
{
    VF_ASSERT(in_fork == 1, "one fork of the system's");
    in_fork = 2;
    if (result < 0) VF_ERRNO = EAGAIN;
    if (result == 0) {
	int t;
	child = 1;
	vf_child();
	n_initp = 0;
	for (t = 1; t <= n_created; t++)
	    if (ran[t] == 0) ran[t] = -1;	/* not in the child */
    }
    return result;
}
int vfr_vfork(void) { return vfr_fork(); }
static void *thread(void *a)
{
    int t = vf_cur;
    ran[t]++;
    VF_ASSERT(init[t] == 1 && ran[t] == 1, "a thread created before main has had init_thread");
    VF_ASSERT(monitor_get_user_data() == data[t] && monitor_get_thread_num() != 0, "a thread created before main has its own data");
    return NULL;
}
static void handler(int s) { n_handled++; }
static int client(int s, siginfo_t *i, void *c) { n_client++; return 0; }
static void one(int s)
{
    int r, had = n_initp;
    if (s == S_INIT) {
	monitor_initialize();
	VF_ASSERT(n_initp == 1, "monitor_initialize gives init_process");
    }
    if (s == S_RUN || s == S_LATER) {
	r = vf_pthread_create(&id[n_created + 1], NULL, thread, NULL);
	n_created++;
	VF_ASSERT(r == 0 && n_initp == 1 && n_support == 1, "a thread may be created before main; the process has had init_process by then");
	if (s == S_RUN) {
	    vf_thread_start(vf_nthreads - 1);
	    VF_ASSERT(vf_cur == 0 && init[n_created] == 1 && fini[n_created] == 1, "a thread before main gets its callbacks");
	}
    }
    if (s == S_FORK_FAIL || s == S_FORK_PARENT || s == S_FORK_CHILD) {
	result = s == S_FORK_FAIL ? -1 : s == S_FORK_PARENT ? 4321 : 0;
	in_fork = 1;
	r = vf_fork();
	VF_ASSERT(in_fork == 2 && r == result, "fork returns the system's result");
	if (s == S_FORK_CHILD) VF_ASSERT(n_initp == 1, "the child has had init_process");
	else VF_ASSERT(n_initp >= had, "harness");
	in_fork = 0;
    }
    if (s == S_SIGACTION) {
	struct sigaction sa;
	sa.sa_handler = handler;
	sa.sa_flags = 0;
	vf_set_put(&sa.sa_mask, 0);
	r = vf_sigaction(SIGUSR1, &sa, NULL);
	VF_ASSERT(r == 0, "sigaction before main");
	set_app = 1;
    }
    if (s == S_CLIENT) {
	r = monitor_sigaction(SIGUSR1, client, 0, NULL);
	VF_ASSERT(r == 0, "monitor_sigaction before main");
	set_client = 1;
    }
    if (n_initp) VF_ASSERT(monitor_get_user_data() == proc_data, "the process's data is there from init_process on");
    VF_ASSERT(n_begin == 0 && n_finip == 0 && n_finilib == 0 && n_atmain == 0 && n_main == 0, "nothing of main or exit before main");
}
static void early(int point)
{
    if (POINT == 3) {
	if (point == 0) one(step[0]);
	if (point == 2) one(step[1]);
    } else if (point == POINT) {
	one(step[0]);
	one(step[1]);
    }
}
static void before_main(void) { early(2); }
static int app_main(int c, char **v, char **e)
{
    int t;
    n_main++;
    VF_ASSERT(n_main == 1 && n_initlib == 1 && n_start == 1 && n_initp == 1 && n_atmain == 1, "every start-up callback exactly once by main");
    VF_ASSERT(c == 1 && v == av, "main gets its arguments");
    VF_ASSERT(monitor_get_user_data() == proc_data && monitor_get_thread_num() == 0, "main has the process's data");
    for (t = 1; t <= n_created; t++)
	if (ran[t] == 0) {
	    vf_thread_start(t);
	    VF_ASSERT(vf_cur == 0 && init[t] == 1 && fini[t] == 1, "a thread created before main gets its callbacks");
	    VF_WITNESS("a thread from before main runs");
	}
    if (set_app || set_client) {
	vf_deliver(0, SIGUSR1, &vf_anyinfo, NULL);
	VF_ASSERT(n_client == set_client, "a client's handler from before main stays");
	VF_ASSERT(n_handled == (set_app && !set_client), "the application's handler from before main stays");
	VF_WITNESS("a handler from before main runs");
    }
    if (way == W_EXIT) vf_exit(7);
    if (way == W_UEXIT) vf__exit(7);
    if (way == W_SIGNAL) vf_deliver(0, SIGTERM, &vf_anyinfo, NULL);
    return 7;
}
void vf_final(int kind, long val)
{
    int t;
    VF_ASSERT(n_main == 1, "the process has come to main");
    VF_ASSERT(kind == (way == W_SIGNAL ? VF_END_SIGNAL : way == W_UEXIT ? VF_END_UEXIT : VF_END_EXIT) && val == (way == W_SIGNAL ? SIGTERM : 7), "the process ends the way it asks for");
    VF_ASSERT(n_begin == 1 && n_finip == 1, "begin_process_exit and fini_process exactly once");
#ifndef VF_STATIC
    VF_ASSERT(n_finilib == 1, "fini_library exactly once");
#endif
    VF_ASSERT(n_initlib == 1 && n_start == 1 && n_initp == 1 && n_atmain == 1, "no start-up callback is repeated");
    VF_ASSERT(n_support == (n_created > 0), "init_thread_support only with threads");
    for (t = 1; t <= n_created; t++)
	VF_ASSERT(init[t] == fini[t], "every thread's init_thread has its fini_thread");
    if (child) VF_WITNESS("child");
    else VF_WITNESS("first process");
}
#ifdef VF_STATIC
int vfr_main(int c, char **v, char **e) { return app_main(c, v, e); }
#endif
static void run(void)
{
    early(0);
    vf_ctors();
    early(1);
#ifdef VF_STATIC
    early(2);
    vf_libc_exit(vf_main(1, av, ev));
#else
    vf___libc_start_main(app_main, 1, av, NULL, NULL, NULL, NULL);
#endif
    VF_STOP();
}
void vf_harness(void)
{
    vf_environ = ev;
    vf_print_clobbers = 1;
    VF_EACH(a, LO, HI) {
	VF_EACH(b, 0, S_N - 1) {
	    step[0] = a;
	    step[1] = b;
	    way = vf_range(0, W_N - 1);
	    run();
	    VF_STOP();
	}
	VF_STOP();
    }
    VF_STOP();
}
