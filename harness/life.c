/* C01: process life cycle. */
enum { E_INITLIB, E_STARTMAIN, E_INITPROC, E_ATMAIN, E_MAIN, E_BEGINEXIT, E_FINIPROC, E_FINILIB, E_N };
static int n_[E_N], t_[E_N], clk_;
static void ev(int e) { n_[e]++; t_[e] = ++clk_; }
static int how_begin, how_fini;
static void *client_data, *fini_data;
static int argc_seen;
static char **argv_seen;

#define CB_INIT_LIBRARY() ev(E_INITLIB)
#define CB_FINI_LIBRARY() ev(E_FINILIB)
#define CB_START_MAIN_INIT() ev(E_STARTMAIN)
#define CB_INIT_PROCESS(a, v, d) do { ev(E_INITPROC); argc_seen = *(a); argv_seen = (v); fork_data = (d); if (cl_changes_argc) *(a) = 0; return client_data; } while (0)
#define CB_AT_MAIN() ev(E_ATMAIN)
#define CB_BEGIN_PROCESS_EXIT(h) do { ev(E_BEGINEXIT); how_begin = (h); } while (0)
#define CB_FINI_PROCESS(h, d) do { ev(E_FINIPROC); how_fini = (h); fini_data = (d); } while (0)
#define VF_HOOK_ATEXIT(st) app_atexit(st)
static void *fork_data;
static int cl_changes_argc;
static void app_atexit(int st);
#include "env.c"
#include "cb.h"

static int app_argc;
static char *app_argv[3] = { "app", "x", NULL };
static char *app_envp[2] = { "A=b", NULL };
static int way, status, status2, again, sig, want_how, want_kind;
static long want_val;
static int app_main(int, char **, char **);
#ifdef VF_STATIC
int vfr_main(int c, char **v, char **e) { return app_main(c, v, e); }
#define app_main_addr() vfr_main
#else
#define app_main_addr() app_main
#endif

enum { W_RETURN, W_EXIT, W_UEXIT, W_UUEXIT, W_SIGNAL, W_FAULT, W_EXEC, W_PTHREAD_EXIT, W_N };

static void app_atexit(int st)
{
    VF_ASSERT(st == (way == W_PTHREAD_EXIT ? 0 : status), "the system's exit() gets the application's status");
    VF_ASSERT(n_[E_FINIPROC] == 1, "fini_process has run before the system's exit()");
    if (again == 1) { want_val = status2; vf_exit(status2); }
    if (again == 2) { want_val = status2; want_kind = VF_END_UEXIT; vf__exit(status2); }
}

static void check_start(void)
{
    VF_ASSERT(n_[E_INITLIB] == 1, "init_library exactly once");
    VF_ASSERT(n_[E_STARTMAIN] == 1, "start_main_init exactly once");
    VF_ASSERT(n_[E_INITPROC] == 1, "init_process exactly once before main");
    VF_ASSERT(n_[E_ATMAIN] == 1, "at_main exactly once before main");
    VF_ASSERT(t_[E_INITLIB] < t_[E_INITPROC] && t_[E_STARTMAIN] < t_[E_INITPROC] && t_[E_INITPROC] < t_[E_ATMAIN], "start-up callback order");
#ifndef VF_STATIC
    VF_ASSERT(t_[E_INITLIB] < t_[E_STARTMAIN], "init_library first");
#endif
    VF_ASSERT(n_[E_BEGINEXIT] == 0 && n_[E_FINIPROC] == 0 && n_[E_FINILIB] == 0, "no exit callback before exit");
    VF_ASSERT(argc_seen == app_argc && argv_seen == app_argv, "init_process sees the command line");
    VF_ASSERT(fork_data == NULL, "init_process of an initial process gets no data");
}

#ifdef ALLSIGS
static const int sigs[] = { 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31,
    34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64 };
#else
static const int sigs[] = { SIGTERM, SIGABRT, SIGFPE, SIGSEGV, SIGUSR2, SIGPWR };
#endif
#define NSIGS ((int)(sizeof sigs / sizeof sigs[0]))
static int app_main(int argc, char **argv, char **envp)
{
    ev(E_MAIN);
    check_start();
    VF_ASSERT(argc == app_argc && argv == app_argv && envp == app_envp, "main gets its own arguments");
    VF_ASSERT(monitor_get_user_data() == client_data, "the client's process data is available in main");
    VF_ASSERT(monitor_get_thread_num() == 0, "main is thread 0");
    VF_ASSERT(monitor_get_addr_main() == (void *)app_main_addr(), "monitor_get_addr_main");
    want_how = MONITOR_EXIT_NORMAL;
    want_val = status;
    want_kind = VF_END_EXIT;
    switch (way) {
    case W_RETURN: return status;
    case W_EXIT: vf_exit(status); break;
    case W_UEXIT: want_kind = VF_END_UEXIT; vf__exit(status); break;
    case W_UUEXIT: want_kind = VF_END_UEXIT; vf__Exit(status); break;
    case W_SIGNAL:
    case W_FAULT:
	want_how = MONITOR_EXIT_SIGNAL; want_kind = VF_END_SIGNAL; want_val = sig;
	for (int i = 0; i < NSIGS; i++)
	    if (sigs[i] == sig) {
		int s = sigs[i];
		static siginfo_t si;
		si.si_code = way == W_FAULT ? 1 : 0;
		vf_deliver(0, s, &si, NULL);
		/* the faulting instruction is executed again */
		if (way == W_FAULT)
		    vf_deliver(0, s, &si, NULL);
	    }
	VF_ASSERT(0, "a signal with terminating default action ends the process");
	break;
    case W_EXEC:
	want_how = MONITOR_EXIT_EXEC; want_kind = VF_END_EXEC; want_val = 0;
	vf_execv("/bin/x", app_argv);
	break;
    case W_PTHREAD_EXIT:
	want_val = 0;
	vf_pthread_exit(NULL);
	break;
    }
    VF_STOP();
    return 0;
}

void vf_final(int kind, long val)
{
    VF_ASSERT(kind == want_kind, "the process ends the way the application asked for");
    VF_ASSERT(val == want_val, "the exit status (or signal) is the application's");
    VF_ASSERT(n_[E_BEGINEXIT] == 1, "begin_process_exit exactly once");
    VF_ASSERT(n_[E_FINIPROC] == 1, "fini_process exactly once");
    VF_ASSERT(t_[E_MAIN] < t_[E_BEGINEXIT] && t_[E_BEGINEXIT] < t_[E_FINIPROC], "exit callback order");
    VF_ASSERT(how_begin == want_how && how_fini == want_how, "exit callbacks get the right kind of exit");
    VF_ASSERT(fini_data == client_data, "fini_process gets init_process's data");
#ifdef VF_STATIC
    VF_ASSERT(n_[E_FINILIB] <= 1, "fini_library at most once");
#else
    VF_ASSERT(n_[E_FINILIB] == 1, "fini_library exactly once");
    VF_ASSERT(t_[E_FINIPROC] < t_[E_FINILIB], "fini_library last");
#endif
    VF_ASSERT(n_[E_INITLIB] == 1 && n_[E_INITPROC] == 1 && n_[E_ATMAIN] == 1 && n_[E_MAIN] == 1, "no start-up callback is repeated");
    if (way == W_SIGNAL) VF_WITNESS("ended by signal");
    if (way == W_PTHREAD_EXIT) VF_WITNESS("ended by pthread_exit");
    if (way == W_EXEC) VF_WITNESS("ended by exec");
    if (way == W_RETURN && again == 2) VF_WITNESS("_exit in an exit handler");
}

void vf_harness(void)
{
    client_data = vf_cookie();
    way = vf_range(0, W_N - 1);
#ifdef VF_STATIC
    VF_ASSUME(way != W_UUEXIT);		/* not interposed in the static flavour */
#endif
    status = vf_range(0, 255);
    status2 = vf_range(0, 255);
    again = vf_range(0, 2);
    cl_changes_argc = vf_bool();
    app_argc = vf_range(0, 2);
    sig = sigs[vf_range(0, NSIGS - 1)];
    if (way == W_FAULT)
	VF_ASSUME(sig == SIGSEGV || sig == SIGBUS || sig == SIGILL || sig == SIGFPE);
    else
	VF_ASSUME(sig != SIGSEGV && sig != SIGBUS && sig != SIGILL);
    vf_environ = app_envp;
    if (vf_bool())
	vf_env_debug = "1";
    vf_ctors();
#ifdef VF_STATIC

    vf_libc_exit(vf_main(app_argc, app_argv, app_envp));
#else
    vf___libc_start_main(app_main, app_argc, app_argv, NULL, NULL, NULL, NULL);
#endif
    VF_ASSERT(0, "control never comes back to the loader");
}
