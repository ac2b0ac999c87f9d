/* C08: at process exit every thread that is still alive gets fini_thread.
   NT application threads; thread `who` (0: the initial thread) ends the
   process in one of several ways; every other thread is scheduled at some
   later moment (a sleep of the exiting thread), when it takes its pending
   signals, ends by itself, or does both; or it never runs again. */
#ifndef NT
#define NT 2
#endif
#define VF_NTHR (NT + 1)
#define VF_MAX_BLOCKS 10

static void *cl_init_process(void *d);
static void *cl_pre_create(void), *cl_init_thread(int tid, void *data);
static void cl_fini_thread(void *data), cl_fini_process(int how, void *data), cl_begin_exit(int how);
static void blocked(void), app_atexit(void), thread_exited(int t);
#define CB_INIT_PROCESS(a, v, d) return cl_init_process(d)
#define CB_FINI_PROCESS(h, d) cl_fini_process(h, d)
#define CB_BEGIN_PROCESS_EXIT(h) cl_begin_exit(h)
#define CB_PRE_CREATE() return cl_pre_create()
#define CB_INIT_THREAD(t, d) return cl_init_thread(t, d)
#define CB_FINI_THREAD(d) cl_fini_thread(d)
#define VF_OWN_SIGWAIT
#define VF_HOOK_BLOCK() blocked()
#define VF_HOOK_ATEXIT(st) app_atexit()
#define VF_HOOK_THREAD_EXIT(t) thread_exited(t)
int monitor_shootdown_signal(void);
#include "env.c"
#include "cb.h"

enum { A_SIGNAL, A_END, A_SIGNAL_END, A_END_SIGNAL, A_UNBLOCK, A_NEVER, A_UNSTARTED, A_ENDED, A_INFINI_SIGNAL, A_INFINI_END, A_SIGWAIT, A_N };
enum { H_EXIT, H_UEXIT, H_SIGNAL, H_RETURN, H_PTHREAD_EXIT, H_N };
static int act[VF_NTHR], delay[VF_NTHR], blk[VF_NTHR], seen[VF_NTHR];
static int init[VF_NTHR], fini[VF_NTHR], body_n[VF_NTHR], infini[VF_NTHR];
static void *data[VF_NTHR];
static int never, who, how, n_begin, n_finiproc, ncreated, setup_t, dormant;
static pthread_t ids[VF_NTHR];
static char pre_obj;

static void create(void);
static void *cl_init_process(void *d) { data[0] = vf_cookie(); return data[0]; }
static void *cl_pre_create(void) { return &pre_obj; }
static void *cl_init_thread(int tid, void *d)
{
    VF_ASSERT(!n_begin, "no thread is started during process exit");
    init[vf_cur]++;
    data[vf_cur] = vf_cookie();
    return data[vf_cur];
}
static void cl_begin_exit(int h)
{
    n_begin++;
    VF_ASSERT(vf_cur == who, "begin_process_exit runs in the exiting thread");
}
static void cl_fini_thread(void *d)
{
    int t = vf_cur;
    fini[t]++;
    VF_ASSERT(fini[t] == 1, "fini_thread at most once per thread");
    VF_ASSERT(d == data[t], "fini_thread gets the thread's own data");
    VF_ASSERT(t == 0 || init[t] == 1, "no fini_thread without init_thread");
    VF_ASSERT(!n_finiproc, "no fini_thread once fini_process has begun");
    VF_ASSERT(!blk[t], "no fini_thread while the client blocks shootdown");
    VF_ASSERT(monitor_get_user_data() == data[t], "the thread's data is available in fini_thread");
    if (t == 0)
	VF_ASSERT(who != 0, "the initial thread gets fini_thread only when another thread ends the process");
    if (act[t] == A_INFINI_SIGNAL) {	/* this callback takes for ever */
	infini[t] = 1;
	vf_unw = 1;
    }
    if (act[t] == A_INFINI_END) {
	infini[t] = 1;
	vf_cur = 0;
	create();
	VF_STOP();
    }
}
static void cl_fini_process(int h, void *d)
{
    int t;
    n_finiproc++;
    VF_ASSERT(n_finiproc == 1, "fini_process exactly once");
    VF_ASSERT(vf_cur == who, "fini_process runs in the exiting thread");
    VF_ASSERT(h == (how == H_SIGNAL ? MONITOR_EXIT_SIGNAL : MONITOR_EXIT_NORMAL), "fini_process gets the kind of exit");
    VF_ASSERT(d == data[0], "fini_process gets init_process's data");
    for (t = 0; t < VF_NTHR; t++) {
	VF_ASSERT(!infini[t] || never, "fini_process only after every fini_thread has come to its end");
	if (t == 0 && who == 0)
	    VF_ASSERT(fini[t] == 0, "the initial thread gets only fini_process when it ends the process itself");
	else if (act[t] == A_UNSTARTED)
	    VF_ASSERT(fini[t] == 0 && init[t] == 0, "a thread that never started gets no callback");
	else if (act[t] == A_NEVER)
	    VF_ASSERT(fini[t] == 0, "fini_thread only in the thread itself");
	else
	    VF_ASSERT(fini[t] == 1, "every live thread got fini_thread before fini_process");
    }
}
/* a thread in sigwait: takes what is pending, then sleeps for ever */
static int wait_answer(const sigset_t *s, siginfo_t *i)
{
    int sig = monitor_shootdown_signal();
    if (vf_thr[vf_cur].pending & vf_set_get(s) & VF_BIT(sig)) {
	vf_thr[vf_cur].pending &= ~VF_BIT(sig);
	i->si_signo = sig;
	return sig;
    }
    vf_unw = 1;
    return -1;
}
int vfr_sigwaitinfo(const sigset_t *s, siginfo_t *i) { return wait_answer(s, i); }
int vfr_sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *t) { return wait_answer(s, i); }
int vfr_sigwait(const sigset_t *s, int *p) { siginfo_t i; *p = wait_answer(s, &i); return 0; }
static void in_sigwait(int t)
{
    int save = vf_cur, sig;
    sigset_t all;
    vf_cur = t;
    vf_set_put(&all, VF_ALLSIGS);
    if (delay[t] == 1) vf_sigwaitinfo(&all, NULL);
    else if (t == 1) vf_sigtimedwait(&all, NULL, NULL);
    else vf_sigwait(&all, &sig);
    VF_ASSERT(vf_unw, "a thread shot down in sigwait goes on waiting");
    vf_unw = 0;
    vf_cur = save;
}
static void step(int t)
{
    int end = act[t];
    VF_ASSERT(vf_thr[t].live, "harness");
    if (end == A_UNSTARTED) {
	vf_thread_start(t);
	VF_ASSERT(init[t] == 0 && body_n[t] == 0, "a thread that starts during process exit does not run");
	return;
    }
    if (end == A_UNBLOCK) {
	vf_poll(t);
	if (blk[t] && seen[t] == 1) {
	    int save = vf_cur;
	    VF_ASSERT(fini[t] == 0, "shootdown is put off while blocked");
	    vf_cur = t;
	    monitor_unblock_shootdown();
	    vf_cur = save;
	    blk[t] = 0;
	}
	seen[t]++;
	if (seen[t] < 3)
	    delay[t]++;		/* comes round again */
	return;
    }
    if (end == A_SIGWAIT)
	in_sigwait(t);
    if (end == A_SIGNAL || end == A_SIGNAL_END || end == A_INFINI_SIGNAL)
	vf_poll(t);
    vf_unw = 0;
    if (end == A_END || end == A_SIGNAL_END || end == A_END_SIGNAL)
	vf_thread_unwind(t);
    if (end == A_END_SIGNAL) {	/* the handler interrupts the very end of the thread */
	vf_thr[t].live = 1;
	vf_poll(t);
	vf_thr[t].live = 0;
    }
}
static int sleeps;
static void blocked(void)
{
    int t, waiting = 0;
    sleeps++;
    if (sleeps == 5)
	for (t = 0; t < VF_NTHR; t++)
	    if (infini[t]) {
		VF_WITNESS("waiting for a fini_thread");
		VF_STOP();
	    }
    VF_ASSERT(sleeps <= 9, "process exit is not put off without end");
    for (t = 0; t < VF_NTHR; t++)
	if (t != who && vf_thr[t].live && act[t] != A_ENDED) {
	    if (act[t] != A_NEVER && delay[t] == sleeps)
		step(t);
	    if (act[t] != A_NEVER && delay[t] > sleeps)
		waiting++;
	}
    if (!waiting)
	vf_now += 6000000;	/* the machine is slow: the next look is 6 s later */
}
static void app_atexit(void)
{
    int t;
    VF_ASSERT(n_finiproc == 1, "fini_process before the system's exit()");
    for (t = 1; t < VF_NTHR; t++)
	if (t != who && vf_thr[t].live && vf_thr[t].started)
	    vf_poll(t);		/* late signals */
}
static void finish(void);
static void create(void);
static void *body(void *arg)
{
    int t = vf_cur;
    body_n[t]++;
    if (act[t] == A_ENDED || act[t] == A_INFINI_END)
	return NULL;
    if (act[t] == A_UNBLOCK) {
	VF_ASSERT(monitor_block_shootdown() == 0, "monitor_block_shootdown before process exit");
	blk[t] = 1;
    }
    vf_cur = 0;
    create();
    VF_STOP();
    return NULL;
}
static void thread_exited(int t) { VF_ASSERT(n_finiproc == 1, "fini_process before pthread_exit of the initial thread"); 
#if HOW == 4
    VF_WITNESS("initial thread ended by pthread_exit");
#endif
    VF_STOP();
}
static void create(void)
{
    int t;
    if (ncreated == NT)
	finish();
    t = ++ncreated;
    VF_ASSERT(vf_pthread_create(&ids[t], NULL, body, NULL) == 0, "pthread_create succeeds");
    if (act[t] != A_UNSTARTED)
	vf_thread_start(t);
    create();
    VF_STOP();
}
static void finish(void)
{
    vf_cur = who;
    if (how == H_EXIT) vf_exit(1);
    if (how == H_UEXIT) vf__exit(1);
    if (how == H_SIGNAL) vf_deliver(who, SIGTERM, &vf_anyinfo, NULL);
    if (how == H_PTHREAD_EXIT) vf_pthread_exit(NULL);
    VF_ASSERT(0, "the process ends");
}
void vf_final(int kind, long val)
{
    VF_ASSERT(n_begin == 1 && n_finiproc == 1, "begin_process_exit and fini_process exactly once");
    VF_ASSERT(kind != VF_END_ERRX, "process exit does not fail");
    if (how == H_SIGNAL) VF_ASSERT(kind == VF_END_SIGNAL && val == SIGTERM, "the process dies of its signal");
    else VF_ASSERT(val == (how == H_PTHREAD_EXIT ? 0 : 1), "the exit status is the application's");
#if HOW != 4
    VF_WITNESS("process ended");
#endif
#if HOW != 4
    if (act[NT] == A_NEVER) VF_WITNESS("ended without a thread that never ran");
#endif
}
static void choose(int t)
{
    if (t == VF_NTHR) {
	create();
	VF_STOP();
    }
    if (t == who) {
	act[t] = A_SIGNAL;
	choose(t + 1);
	VF_STOP();
    }
#ifdef FEW
    int last = t < NT ? A_SIGNAL : A_N - 1;	/* all but one thread: plain behaviour */
#else
    int last = A_N - 1;
#endif
    VF_EACH(a, 0, last) {
	act[t] = a;
	if (t == 0 && a != A_SIGNAL && a != A_NEVER) VF_STOP();
	if (a == A_NEVER && t < NT) never = 1;
	if (a == A_NEVER || a == A_ENDED || a == A_INFINI_END) {
	    choose(t + 1);
	    VF_STOP();
	}
	VF_EACH(d, 1, 2) {
	    delay[t] = d;
	    choose(t + 1);
	    VF_STOP();
	}
	VF_STOP();
    }
    VF_STOP();
}
static int app_main(int c, char **v, char **e)
{
    /* the application blocks all signals, or tries to; its threads inherit that */
    sigset_t all;
    vf_set_put(&all, HOW == H_SIGNAL ? VF_ALLSIGS & ~VF_BIT(SIGTERM) : VF_ALLSIGS);
    vf_sigprocmask(SIG_BLOCK, &all, NULL);
    vf_pthread_sigmask(SIG_SETMASK, &all, NULL);
    choose(0);
    return 0;
}
#ifdef VF_STATIC
int vfr_main(int c, char **v, char **e) { return app_main(c, v, e); }
#endif
void vf_harness(void)
{
    static char *av[2] = { "a", NULL }, *ev[1] = { NULL };
    vf_environ = ev;
    who = WHO;
    how = HOW;
    vf_ctors();
#ifdef VF_STATIC
    vf_libc_exit(vf_main(1, av, ev));
#else
    vf___libc_start_main(app_main, 1, av, NULL, NULL, NULL, NULL);
#endif
}
