/* C20: where unwinding stops.  Code addresses are modelled by vf_text: each
   label in libmonitor's functions has one, in the order of the text, with room
   between them; a frame's address lies between the label it passed last and
   the one it will pass next. */
#define VF_NTHR 2
static void in_callback(int t), in_process_end(void);
static char pre_obj;
#define CB_AT_MAIN() in_callback(0)
#define CB_INIT_PROCESS(a, v, d) do { in_callback(0); return NULL; } while (0)
#define CB_FINI_PROCESS(h, d) in_process_end()
#define CB_PRE_CREATE() return &pre_obj
#define CB_INIT_THREAD(t, d) do { in_callback(1); return NULL; } while (0)
#define CB_FINI_THREAD(d) in_callback(1)
#include "env.c"
#include "cb.h"
#include "start.h"
#define N 64
char vf_text[N];
/* labels passed by the bottom frame of each thread */
static char *first[2], *last[2], *before[2], *after[2];
static int in_app[2];
void vf_label(char *p)
{
    int t = vf_cur;
    VF_ASSERT(vf_cur < 2 && p > vf_text && p < vf_text + N - 4, "model bound: labels");
    if (first[t] == NULL) first[t] = p;
    if (in_app[t] == 0) before[t] = p;
    if (in_app[t] == 1) { after[t] = p; in_app[t] = 2; }
    last[t] = p;
}
/* the frame of thread t is just behind the last label it passed */
static void here(int t, int narrow)
{
    char *pc = last[t] + 1;
    VF_ASSERT(last[t] != NULL, "the bottom function's code is marked");
    VF_ASSERT(monitor_in_start_func_wide(pc) == 1, "the bottom frame is recognised");
    VF_ASSERT(monitor_in_start_func_narrow(pc) == narrow, "the bottom frame calling the application is recognised, and only there");
    VF_ASSERT(monitor_unwind_process_bottom_frame(pc) == (t == 0), "the process's bottom frame is recognised, and no other");
    VF_ASSERT(monitor_unwind_thread_bottom_frame(pc) == (t == 1), "a thread's bottom frame is recognised, and no other");
}
static void in_callback(int t) { here(t, 0); }
static void in_process_end(void) { here(0, 0); VF_WITNESS("main returned"); }
static void *body(void *a)
{
    in_app[1] = 1;
    here(1, 1);
    return a;
}
static int app_main(int c, char **v, char **e)
{
    pthread_t id;
    here(0, 1);
    vf_pthread_create(&id, NULL, body, NULL);
    vf_thread_start(1);
    vf_cur = 0;
    here(0, 1);
    in_app[0] = 1;
    return 3;
}
#define IN(a, lo, hi) ((lo) <= (a) && (a) <= (hi))
void vf_final(int kind, long val)
{
    int i = (int)(vf_nd() % N), p, q;
    char *a = vf_text + i;
    VF_ASSERT(in_app[0] == 2 && in_app[1] == 2, "the end of the call of the application's function is marked");
    VF_ASSERT(first[0] < before[0] && before[0] < after[0] && after[0] < last[0], "the marks of the process's bottom function are in order");
    VF_ASSERT(first[1] < before[1] && before[1] < after[1] && after[1] < last[1], "the marks of a thread's bottom function are in order");
    if (i % 4 == 0 && (a == first[0] || a == first[1] || a == before[0] || a == before[1])) return;	/* no return address is there */
    p = IN(a, first[0], last[0]);
    q = IN(a, first[1], last[1]);
    VF_ASSERT(monitor_unwind_process_bottom_frame(a) == p, "an address in the process's bottom function");
    VF_ASSERT(monitor_unwind_thread_bottom_frame(a) == q, "an address in a thread's bottom function");
    VF_ASSERT(monitor_in_start_func_wide(a) == (p || q), "an address in either bottom function");
    VF_ASSERT(monitor_in_start_func_narrow(a) == (IN(a, before[0], after[0]) || IN(a, before[1], after[1])), "an address at the call of the application's function");
    VF_WITNESS("any address");
}
void vf_harness(void) { boot(); }
