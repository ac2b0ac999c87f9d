/* C03: fork, vfork and monitor_real_fork.  WHERE: 0 the initial thread, 1
   another thread, 2 an exit handler of the initial thread, 3 an exit handler
   of another thread that ends the process, 4 another thread while the initial
   thread, which is ending the process, runs exit handlers, 7 likewise while it
   waits for the other threads' fini_thread; 5 an exit handler of a process without
   threads, 6 the initial thread of a process without threads.
   REAL: monitor_real_fork.  Result: failure, parent, child; the child goes on
   to end in any of several ways, after creating a thread or not. */
#define VF_NTHR 4
#define VF_MAX_BLOCKS 8
#ifndef WHERE
#define WHERE 0
#endif
#define THREADS (WHERE < 5 || WHERE == 7)
#define IN_EXIT (WHERE == 2 || WHERE == 3 || WHERE == 4 || WHERE == 5)
static void *cl_init_process(void *d), *cl_pre_fork(void), *cl_init_thread(void *d);
static void cl_post_fork(int pid, void *d), cl_begin(int h), cl_fini(int h, void *d), cl_fini_lib(void), cl_fini_thread(void *d);
static void at_exit(int st), blocked(void);
static char pre_obj;
#define CB_INIT_PROCESS(a, v, d) return cl_init_process(d)
#define CB_PRE_FORK() return cl_pre_fork()
#define CB_POST_FORK(p, d) cl_post_fork(p, d)
#define CB_BEGIN_PROCESS_EXIT(h) cl_begin(h)
#define CB_FINI_PROCESS(h, d) cl_fini(h, d)
#define CB_FINI_LIBRARY() cl_fini_lib()
#define CB_PRE_CREATE() return &pre_obj
#define CB_INIT_THREAD(t, d) return cl_init_thread(d)
#define CB_FINI_THREAD(d) cl_fini_thread(d)
#define VF_HOOK_ATEXIT(st) at_exit(st)
#define VF_HOOK_BLOCK() blocked()
#define VF_OWN_FORK
#define VF_OWN_EXEC
#define VF_OWN_ACCESS
#include "env.c"
#include "cb.h"
#include "start.h"

enum { E_EXIT, E_UEXIT, E_EXEC, E_SIGNAL, E_THREAD_EXIT, E_THREAD_SHOT, E_PTHREAD_EXIT, E_N };
static int child, forks, n_pre, n_post, n_initp, n_begin, n_finip, n_finilib, how = MONITOR_EXIT_NORMAL, ending, result, child_end, in_fork, done;
static void *pre_data, *proc_data;
static int init[VF_NTHR], fini[VF_NTHR];
static void *data[VF_NTHR];
static pthread_t id[VF_NTHR];
static int exiting_thread, nblk0, exiting, plan;
static void *bottom, *addr_main;

static void *cl_init_process(void *d)
{
    if (forks == 0) {
	VF_ASSERT(n_initp == 0, "one init_process for the first process");
	n_initp++;
	proc_data = vf_cookie();
	return proc_data;
    }
#ifdef REAL
    VF_ASSERT(0, "no callback from monitor_real_fork");
#endif
    VF_ASSERT(child && in_fork, "init_process runs in the child, before fork returns");
    VF_ASSERT(d == pre_data, "the child's init_process gets pre_fork's data");
    n_initp++;
    VF_ASSERT(n_initp == 1, "one init_process per child");
    VF_ERRNO = (int)(vf_nd() & 0x7f);
    proc_data = vf_cookie();
    return proc_data;
}
static void *cl_pre_fork(void)
{
#ifdef REAL
    VF_ASSERT(0, "no callback from monitor_real_fork");
#endif
    n_pre++;
    VF_ASSERT(n_pre == 1 && in_fork == 1, "pre_fork once, before the fork");
    VF_ERRNO = (int)(vf_nd() & 0x7f);
    pre_data = vf_cookie();
    return pre_data;
}
static void cl_post_fork(int pid, void *d)
{
    n_post++;
    VF_ASSERT(n_pre == 1 && n_post == 1 && in_fork == 2, "post_fork once, after the fork");
    VF_ASSERT(!child && pid == result, "post_fork runs in the parent and gets fork's result");
    VF_ASSERT(d == pre_data, "post_fork gets pre_fork's data");
    VF_ERRNO = (int)(vf_nd() & 0x7f);
}
static void cl_begin(int h)
{
    n_begin++;
    VF_ASSERT(ending && n_begin == 1, "begin_process_exit once, at the end of a process");
    VF_ASSERT(h == how, "begin_process_exit gets the kind of exit");
}
static void cl_fini(int h, void *d)
{
    n_finip++;
    VF_ASSERT(ending && n_begin == 1 && n_finip == 1, "fini_process once, at the end of a process");
    VF_ASSERT(h == how && d == proc_data, "fini_process gets the kind of exit and this process's own data");
}
static void cl_fini_lib(void)
{
    n_finilib++;
    VF_ASSERT(n_finilib == 1 && n_finip == 1, "fini_library once, after fini_process");
}
static void *cl_init_thread(void *d)
{
    VF_ASSERT(init[vf_cur] == 0, "one init_thread per thread");
    init[vf_cur]++;
    data[vf_cur] = vf_cookie();
    return data[vf_cur];
}
static void cl_fini_thread(void *d)
{
    fini[vf_cur]++;
    VF_ASSERT(n_finip == 0, "no fini_thread after fini_process");
    VF_ASSERT(fini[vf_cur] == 1 && (vf_cur == 0 || init[vf_cur] == 1), "fini_thread once, only after init_thread");
    if (vf_cur != 0) VF_ASSERT(d == data[vf_cur], "fini_thread gets the thread's own data");
}

/* ---- the child's life */
static void *child_thread(void *a)
{
    VF_ASSERT(init[3] == 1, "a thread of the child gets init_thread");
    VF_ASSERT(monitor_get_user_data() == data[3], "a thread of the child has its own data");
    if (child_end == E_THREAD_SHOT) {
	vf_cur = vf_cur == 3 ? exiting_thread : vf_cur;
	ending = 1;
	vf_exit(7);
	VF_STOP();
    }
    return NULL;
}
static void live(void)
{
    int i;
#ifndef REAL
    VF_ASSERT(n_initp == 1, "the child has had its init_process when fork returns");
    VF_ASSERT(n_post == 0, "no post_fork in the child");
#endif
    VF_ASSERT(n_begin == 0 && n_finip == 0, "no exit callback yet");
    VF_ASSERT(monitor_get_user_data() == proc_data, "the child's data is its init_process's");
    VF_ASSERT(monitor_get_thread_num() == 0, "the thread that forked is the child's initial thread");
    VF_ASSERT(monitor_stack_bottom() == bottom, "the child's stack bottom is that of the thread that forked");
    VF_ASSERT(monitor_get_addr_main() == addr_main, "the address of main in the child");
    nblk0 = vf_nblocks;
    exiting_thread = vf_cur;
    for (i = 0; i < 3; i++)
	init[i] = fini[i] = 0;
    VF_EACH(k, 0, E_N - 1) {
	child_end = k;
	if (k == E_THREAD_EXIT || k == E_THREAD_SHOT) {
	    int r;
	    vf_nthreads = 3;
	    r = vf_pthread_create(&id[3], NULL, child_thread, NULL);
	    VF_ASSERT(r == 0, "the child creates a thread");
	    vf_thread_start(3);
	    VF_ASSERT(init[3] == 1 && fini[3] == 1, "a thread of the child gets init_thread and fini_thread");
	}
	ending = 1;
	if (k == E_UEXIT) vf__exit(7);
	if (k == E_EXEC) {
	    static char *av[2] = { "a", NULL };
	    how = MONITOR_EXIT_EXEC;
	    vf_execv("/a", av);
	}
	if (k == E_SIGNAL) {
	    how = MONITOR_EXIT_SIGNAL;
	    vf_deliver(vf_cur, SIGTERM, &vf_anyinfo, NULL);
	}
#if !IN_EXIT || WHERE == 4
	if (k == E_PTHREAD_EXIT) {
	    vf_pthread_exit(NULL);
	    VF_ASSERT(0, "pthread_exit does not return");
	}
#endif
	vf_exit(7);
	VF_STOP();
    }
    VF_STOP();
}
static void fork_as(int k);
static void shot(void)
{
    int t;
#if WHERE == 7
    if (!done) {
	int save = vf_cur;
	vf_cur = 1;
	fork_as(plan);
	vf_cur = save;
    }
#endif
    for (t = 0; t < 3; t++)
	if (t != vf_cur && vf_thr[t].live) vf_poll(t);
}
/* the parent's threads are not in the child */
static void blocked(void)
{
    if (child) {
	VF_ASSERT(child_end == E_THREAD_SHOT, "a child's exit does not wait for the parent's threads");
	if (vf_thr[3].live) vf_poll(3);
    } else
	shot();
}
int vfr_fork(void)
{
    int t;
    VF_ASSERT(in_fork == 1, "one fork of the system's");
#ifndef REAL
    VF_ASSERT(n_pre == 1, "pre_fork before the fork");
#endif
    in_fork = 2;
    forks++;
    if (result < 0) VF_ERRNO = EAGAIN;
    if (result == 0) {
	child = 1;
	vf_child();
#ifdef REAL
	if (WHERE == 1) proc_data = data[vf_cur];	/* the thread's data goes with it */
#else
	n_initp = 0;
#endif
	n_begin = n_finip = n_finilib = ending = 0;
	how = MONITOR_EXIT_NORMAL;
    }
    return result;
}
int vfr_vfork(void) { return vfr_fork(); }
int vf_access(const char *p, int m) { return 0; }
int vfr_execve(const char *p, char *const a[], char *const e[]) { vf_end(VF_END_EXEC, 0); return -1; }
int vfr_execv(const char *p, char *const a[]) { vf_end(VF_END_EXEC, 0); return -1; }
int vfr_execvp(const char *p, char *const a[]) { vf_end(VF_END_EXEC, 0); return -1; }
static void fork_as(int k)
{
    int r, vf = vf_bool(), me = vf_cur;
    result = k == 0 ? -1 : k == 1 ? 4321 : 0;
    in_fork = 1;
    bottom = monitor_stack_bottom();
    addr_main = monitor_get_addr_main();
    VF_ERRNO = 0;
#ifdef REAL
    r = monitor_real_fork();
#else
    r = vf ? vf_vfork() : vf_fork();
#endif
    VF_ASSERT(in_fork == 2 && r == result, "fork returns the system's result");
    if (r < 0) VF_ASSERT(VF_ERRNO == EAGAIN, "errno of a failed fork");
    in_fork = 3;
    VF_ASSERT(vf_cur == me, "harness");
    if (r == 0) live();
#ifndef REAL
    VF_ASSERT(n_pre == 1 && n_post == 1, "pre_fork and post_fork once each in the parent");
#endif
    VF_ASSERT(n_initp == 1, "no further init_process in the parent");
    if (r < 0) VF_WITNESS("failed fork");
    else VF_WITNESS("parent");
    done = 1;
}
static void do_fork(void)
{
    VF_EACH(k, 0, 2) {
	fork_as(k);
#if IN_EXIT
	vf_cur = exiting;
	vf_dtors();
	vf_end(VF_END_EXIT, 7);
#else
	ending = 1;
	vf_exit(7);
#endif
	VF_STOP();
    }
    VF_STOP();
}
static void at_exit(int st)
{
    if (IN_EXIT && !child) {
	exiting = vf_cur;
	if (WHERE == 4) vf_cur = 1;
	do_fork();
    }
}
static void *thread(void *a)
{
    if (vf_cur == 2) {		/* a thread that stays */
	vf_cur = 0;
#if WHERE == 0 
	do_fork();
#elif WHERE == 2
	ending = 1;
	vf_exit(7);
#else
	vf_pthread_create(&id[1], NULL, thread, NULL);
	vf_thread_start(vf_nthreads - 1);
#endif
	VF_STOP();
    }
#if WHERE == 1
    do_fork();
#elif WHERE == 3
    ending = 1;
    vf_exit(7);
#elif WHERE == 4 || WHERE == 7
    vf_cur = 0;
    ending = 1;
    vf_exit(7);
#endif
    VF_STOP();
    return NULL;
}
static void begin(void)
{
#if THREADS
    vf_nthreads = 2;		/* thread 2 first, so that the list has another node before and after */
    vf_pthread_create(&id[2], NULL, thread, NULL);
    vf_nthreads = 1;
    vf_thread_start(2);
#elif WHERE == 5
    ending = 1;
    vf_exit(7);
#else
    do_fork();
#endif
    VF_STOP();
}
static int app_main(int c, char **v, char **e)
{
#if WHERE == 7
    VF_EACH(k, 0, 2) {
	plan = k;
	begin();
	VF_STOP();
    }
#endif
    begin();
    return 0;
}
void vf_final(int kind, long val)
{
    if (child) {
	VF_ASSERT(n_begin == 1 && n_finip == 1, "a child gets begin_process_exit and fini_process once");
#ifndef VF_STATIC
	if (kind != VF_END_SIGNAL) VF_ASSERT(n_finilib == 1, "a child gets fini_library once");
#endif
	if (child_end == E_THREAD_SHOT) VF_ASSERT(init[3] == 1 && fini[3] == 1, "a thread of the child is shot down");
	VF_ASSERT(kind == (child_end == E_UEXIT ? VF_END_UEXIT : child_end == E_EXEC ? VF_END_EXEC : child_end == E_SIGNAL ? VF_END_SIGNAL : VF_END_EXIT), "a child ends the way it asks for");
	if (child_end == E_EXIT) VF_WITNESS("child exit");
	if (child_end == E_THREAD_SHOT) VF_WITNESS("child with a thread");
    } else {
	VF_ASSERT(kind == VF_END_EXIT && val == 7, "the parent ends as it asks for");
	VF_ASSERT(n_begin == 1 && n_finip == 1, "the parent gets its own exit callbacks once");
	VF_ASSERT(n_initp == 1, "one init_process in the parent");
	VF_WITNESS("parent ends");
    }
}
void vf_harness(void)
{
    vf_print_clobbers = 1;
    boot();
}
