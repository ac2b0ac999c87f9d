/* C14: the choice of the shootdown signal. */
#define VF_NTHR 2
#define VF_MAX_BLOCKS 8
static void blocked(void);
static int n_finit, n_finip;
#define VF_HOOK_BLOCK() blocked()
#define CB_FINI_THREAD(d) n_finit++
#define CB_FINI_PROCESS(h, d) n_finip++
#define CB_PRE_CREATE() return &pre_obj
static char pre_obj;
#include "env.c"
#include "cb.h"
#include "start.h"
#define UNBLOCKABLE (VF_BIT(SIGKILL) | VF_BIT(SIGSTOP) | VF_BIT(32) | VF_BIT(33))
static u64 cfg, keep, chosen;
static int envsig = -1;		/* what MONITOR_SHOOTDOWN_SIGNAL says, or -1 */
static int usable(int s)
{
    return s > 0 && s < VF_NSIG && s != SIGKILL && s != SIGSTOP && s != 32 && s != 33 && s != SIGTSTP && s != SIGTTIN && s != SIGTTOU;
}
static void blocked(void)
{
    VF_ASSERT(n_finit || vf_thr[1].pending == chosen, "threads are sent the shootdown signal at process exit");
    vf_poll(1);
    if (vf_nblocks > 2)
	vf_now += 6000000;
}
void vf_final(int kind, long val)
{
    VF_ASSERT(kind == VF_END_EXIT && val == 5, "process exit works with any setting");
    VF_ASSERT(n_finit == 1 && n_finip == 1, "the thread got fini_thread and the process fini_process");
#ifdef RUN
    VF_WITNESS("exit");
#endif
}
static void *body(void *a) { vf_cur = 0; vf_exit(5); return NULL; }
static int app_main(int c, char **v, char **e)
{
    sigset_t s;
    int sig, n = 0, k = 0;
#ifdef CFG
    static const int list[] = { CFG };
    int i;
    for (i = 0; i < (int)(sizeof list / sizeof list[0]); i++) cfg |= VF_BIT(list[i]);
#endif
    vf_set_put(&s, VF_ALLSIGS);
    vf_sigprocmask(SIG_BLOCK, &s, NULL);
    keep = ~vf_thr[0].mask & VF_ALLSIGS & ~UNBLOCKABLE;
    vf_thr[0].mask = 0;
    chosen = keep & ~cfg;
    if (usable(envsig)) {
	VF_ASSERT(keep == (cfg | VF_BIT(envsig)), "MONITOR_SHOOTDOWN_SIGNAL chooses the shootdown signal");
	chosen = VF_BIT(envsig);
    } else {
#ifdef CONFSIG
	VF_ASSERT(keep == (cfg | VF_BIT(CONFSIG)), "the configured signal is the shootdown signal");
	chosen = VF_BIT(CONFSIG);
#else
	VF_ASSERT(chosen != 0 && (chosen & (chosen - 1)) == 0, "the shootdown signal is not one of the client's");
	if (VF_NSIG == 65)
	    VF_ASSERT((chosen & ((1UL << 33) - 1)) == 0, "the shootdown signal is a real-time signal if there is one");
	else
	    VF_ASSERT((chosen & (VF_BIT(SIGUSR1) | VF_BIT(SIGUSR2) | VF_BIT(SIGPWR) | VF_BIT(SIGURG) | VF_BIT(SIGPIPE) | VF_BIT(SIGWINCH))) != 0, "without real-time signals the shootdown signal is one that is little used");
#endif
    }
#ifdef RUN
    pthread_t id;
    VF_ASSERT(vf_pthread_create(&id, NULL, body, NULL) == 0, "pthread_create succeeds");
    vf_thread_start(1);
#else
    if (usable(envsig)) VF_WITNESS("chosen by the environment");
    if (envsig == 32) VF_WITNESS("environment names a signal of the C library");
    if (envsig > 65) VF_WITNESS("environment names an invalid signal");
#endif
    VF_STOP();
    return 0;
}
void vf_harness(void)
{
    static char b[6];
#ifdef RUN
    vf_env_shoot = RUN;
    envsig = RUNSIG;
#else
    int kind = vf_range(0, 5);
    if (kind == 0) vf_env_shoot = NULL;
    else if (kind == 1) vf_env_shoot = "";
    else if (kind == 2) vf_env_shoot = "USR1";
    else {
	int i = 0, h = vf_range(0, 1), t = vf_range(0, 9), u = vf_range(0, 9);
	if (kind == 4) b[i++] = '-';
	if (kind == 5) b[i++] = ' ';
	b[i++] = '0' + h; b[i++] = '0' + t; b[i++] = '0' + u; b[i] = 0;
	envsig = 100 * h + 10 * t + u;
	if (kind == 4) envsig = -envsig;
	vf_env_shoot = b;
    }
#endif
    boot();
}
