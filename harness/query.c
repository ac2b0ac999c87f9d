/* C24: what the queries answer, at every callback, in main, in threads and in
   a thread libmonitor does not monitor.  WHO ends the process: 0 the initial
   thread, 1 a thread. */
#define VF_NTHR 4
#define VF_MAX_BLOCKS 4
#ifndef WHO
#define WHO 0
#endif
static void *cl_initp(void), *cl_pre(void), *cl_init(int n);
static void cl_post(void), cl_fini(void *d), cl_begin(void), cl_finip(void *d), cl_start_main(void), cl_at_main(void), cl_lib(void), blocked(void), cl_support(void);
#define CB_INIT_LIBRARY() cl_lib()
#define CB_START_MAIN_INIT() cl_start_main()
#define CB_INIT_PROCESS(a, v, d) return cl_initp()
#define CB_AT_MAIN() cl_at_main()
#define CB_THREAD_SUPPORT() cl_support()
#define CB_PRE_CREATE() return cl_pre()
#define CB_POST_CREATE(d) cl_post()
#define CB_INIT_THREAD(t, d) return cl_init(t)
#define CB_FINI_THREAD(d) cl_fini(d)
#define CB_BEGIN_PROCESS_EXIT(h) cl_begin()
#define CB_FINI_PROCESS(h, d) cl_finip(d)
#define VF_HOOK_BLOCK() blocked()
static int app_main(int, char **, char **);
#ifdef VF_STATIC
int vfr_main(int, char **, char **);
#define APP_MAIN vfr_main
#else
#define APP_MAIN app_main
#endif
#include "env.c"
#include "cb.h"
#include "start.h"
static int tid[VF_NTHR], created, support, exiting, fini[VF_NTHR], shot;
static void *data[VF_NTHR], *bottom[VF_NTHR];
static char pre_obj[VF_NTHR];
static pthread_t id[VF_NTHR];
static void *body(void *a), *body2(void *a);

/* what the calling thread's queries answer */
static void self(int with_data)
{
    int t = vf_cur, i;
    void *b;
    VF_ASSERT(monitor_get_addr_main() == (void *)APP_MAIN, "address of the application's main");
    VF_ASSERT(monitor_get_thread_num() == tid[t], "thread number");
    if (with_data) VF_ASSERT(monitor_get_user_data() == data[t], "user data");
    if (t != 0) VF_ASSERT(monitor_get_addr_thread_start() == (t == 3 ? NULL : t == 2 ? (void *)body2 : (void *)body), "start routine");
    VF_ASSERT(!!monitor_is_threaded() == !!support, "monitor_is_threaded after the first thread's init_thread_support");
    b = monitor_stack_bottom();
    VF_ASSERT((b != NULL) == (t != 3), "stack bottom of every monitored thread");
    if (bottom[t] == NULL) bottom[t] = b;
    VF_ASSERT(bottom[t] == b, "a thread's stack bottom stays the same");
    if (b != NULL) {
	VF_ASSERT(*(volatile char *)b == *(volatile char *)b, "the stack bottom is in the stack");
	for (i = 0; i < 3; i++) if (i != t) VF_ASSERT(bottom[i] != b, "threads' stack bottoms differ");
    }
    i = monitor_block_shootdown();
    VF_ASSERT(i == (exiting && t != 3), "monitor_block_shootdown tells whether the process is exiting");
    monitor_unblock_shootdown();
}
static void cl_lib(void)
{
    VF_ASSERT(!monitor_is_threaded() && monitor_get_thread_num() == 0 && monitor_get_user_data() == NULL, "queries before the process starts");
}
static void cl_start_main(void)
{
    VF_ASSERT(monitor_get_addr_main() == (void *)APP_MAIN, "main's address in start_main_init");
    VF_ASSERT(!monitor_is_threaded() && monitor_get_thread_num() == 0, "queries in start_main_init");
}
static void *cl_initp(void)
{
    self(0);
    data[0] = vf_cookie();
    return data[0];
}
static void cl_at_main(void) { self(1); }
static void cl_support(void) { support = 1; VF_ASSERT(monitor_get_thread_num() == 0 && monitor_get_user_data() == data[0], "queries in init_thread_support"); }
static void *cl_pre(void)
{
    self(1);
    created++;
    return created == 3 ? (void *)&vf_minus1 : (void *)&pre_obj[created];
}
static void cl_post(void) { self(1); }
static void *cl_init(int n)
{
    tid[vf_cur] = n;
    self(0);
    data[vf_cur] = vf_cookie();
    return data[vf_cur];
}
static void cl_fini(void *d)
{
    fini[vf_cur]++;
    shot++;
    self(1);
}
static void cl_begin(void) { self(1); }
static void cl_finip(void *d)
{
    exiting = 1;
    self(1);
}
static void *body2(void *a)
{
    self(1);
    return a;
}
static void end(void)
{
    vf_exit(4);
}
static void *body(void *a)
{
    self(1);
    /* a second thread comes and goes, then one that is not monitored */
    vf_cur = 0;
    vf_pthread_create(&id[2], NULL, body2, NULL);
    vf_cur = 0;
    self(1);
    vf_thread_start(2);
    vf_cur = 0;
    self(1);
    vf_cur = 1;
    self(1);
    vf_cur = 0;
    vf_pthread_create(&id[3], NULL, body2, NULL);
    tid[3] = -1;
    data[3] = NULL;
    vf_cur = 3;
    self(1);
    vf_cur = WHO;
    end();
    VF_STOP();
    return NULL;
}
static int app_main(int c, char **v, char **e)
{
    self(1);
    vf_pthread_create(&id[1], NULL, body, NULL);
    self(1);
    vf_thread_start(1);
    VF_STOP();
    return 0;
}
static void blocked(void)
{
    int save = vf_cur;
    if (vf_cur != WHO) return;
    exiting = 1;
    vf_cur = 3;
    self(1);
    vf_cur = 1 - WHO;
    if (fini[vf_cur] == 0) self(1);
    vf_poll(vf_cur);
    vf_cur = save;
}
void vf_final(int kind, long val)
{
    VF_ASSERT(val == 4 && exiting && fini[1] == 1 && fini[2] == 1, "the process and its threads ended");
    VF_WITNESS("end");
}
void vf_harness(void) { boot(); }
