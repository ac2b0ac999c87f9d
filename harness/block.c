/* C21: monitor_block_shootdown.  Thread WHO ends the process by HOW (0 exit,
   1 _exit, 2 a fatal signal); the other of threads 0 and 1 is inside a section
   between monitor_block_shootdown and monitor_unblock_shootdown, entered
   before the exit or (LATE) during it, and left at any of the exiting thread's
   first polls.  Thread 2 is outside such sections. */
#define VF_NTHR 3
#define VF_MAX_BLOCKS 6
static void cl_fini(void *d), cl_finip(void *d), blocked(void);
static void *cl_init(void), *cl_initp(void);
static char pre_obj;
#define CB_INIT_PROCESS(a, v, d) return cl_initp()
#define CB_PRE_CREATE() return &pre_obj
#define CB_INIT_THREAD(t, d) return cl_init()
#define CB_FINI_THREAD(d) cl_fini(d)
#define CB_FINI_PROCESS(h, d) cl_finip(d)
#define VF_HOOK_BLOCK() blocked()
#include "env.c"
#include "cb.h"
#include "start.h"
#define T (1 - WHO)
static int section, ever, polls, leave, twice, fini[VF_NTHR], n_finip;
static void *data[VF_NTHR];
static pthread_t id[VF_NTHR];
static void *cl_initp(void) { data[0] = vf_cookie(); return data[0]; }
static void *cl_init(void) { data[vf_cur] = vf_cookie(); return data[vf_cur]; }
static void cl_fini(void *d)
{
    VF_ASSERT(vf_cur != T || !section, "no fini_thread inside a section that blocks shootdown");
    fini[vf_cur]++;
    VF_ASSERT(fini[vf_cur] == 1 && n_finip == 0 && d == data[vf_cur], "fini_thread once, before fini_process, with the thread's data");
}
static void cl_finip(void *d)
{
    n_finip++;
    VF_ASSERT(n_finip == 1 && d == data[0], "fini_process once");
    VF_ASSERT(fini[T] == 1 && fini[2] == 1, "fini_process only after fini_thread of every thread, the one whose section delayed it included");
}
static void enter(int exiting)
{
    int save = vf_cur;
    vf_cur = T;
    VF_ASSERT(monitor_block_shootdown() == exiting, "monitor_block_shootdown tells whether the process is exiting");
    section = 1;
    ever = 1;
    if (twice) VF_ASSERT(monitor_block_shootdown() == exiting, "monitor_block_shootdown tells whether the process is exiting");
    vf_cur = save;
}
static void out(void)
{
    int save = vf_cur;
    vf_cur = T;
    section = 0;
    monitor_unblock_shootdown();
    vf_cur = save;
}
static void blocked(void)
{
    if (vf_cur != WHO) return;
    polls++;
#ifdef LATE
    if (polls == 1) enter(1);
#endif
    if (section && polls == leave) {
	if (vf_bool()) vf_poll(T);	/* a signal that arrived in time */
	out();
    }
    vf_poll(T);
    vf_poll(2);
}
static void end(void)
{
    VF_EACH(k, 1, 4) {
	leave = k;
	vf_cur = WHO;
	if (HOW == 0) vf_exit(3);
	if (HOW == 1) vf__exit(3);
	vf_deliver(WHO, SIGTERM, &vf_anyinfo, NULL);
	VF_STOP();
    }
}
static void *body2(void *a) { end(); VF_STOP(); return a; }
static void *body(void *a)
{
    vf_cur = 0;
    vf_pthread_create(&id[2], NULL, body2, NULL);
    twice = vf_bool();
#ifndef LATE
    enter(0);
    if (vf_bool()) { out(); enter(0); }
#endif
    vf_thread_start(2);
    VF_STOP();
    return a;
}
static int app_main(int c, char **v, char **e)
{
    vf_pthread_create(&id[1], NULL, body, NULL);
    vf_thread_start(1);
    VF_STOP();
    return 0;
}
void vf_final(int kind, long val)
{
    VF_ASSERT(n_finip == 1 && ever && !section, "the process ends after the section");
    if (leave == 3) VF_WITNESS("left at the third poll");
}
void vf_harness(void) { boot(); }
