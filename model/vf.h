/* Shared by the environment model and the harnesses.  Compiled twice: by
   goto-cc, where VF_ASSERT is a proof obligation and vf_nd() an arbitrary
   value, and by gcc (replay), where vf_nd() returns the recorded values of a
   counterexample and VF_ASSERT is checked. */
#ifndef VF_H
#define VF_H
#include "sigset1.h"
#include <stddef.h>
#include <signal.h>
#include <pthread.h>
#include <sys/types.h>
#include <errno.h>

#undef SIG_IGN
#undef SIG_ERR
void vf_sig_ign(int), vf_sig_err(int);	/* stand for SIG_IGN and SIG_ERR, see lib/prep.py */
#define SIG_IGN (&vf_sig_ign)
#define SIG_ERR (&vf_sig_err)
typedef unsigned long u64;

#ifndef VF_NATIVE
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_STOP() __CPROVER_assume(0)
#define VF_ASSERT(c, msg) do { int vf_c = (c) ? 1 : 0; __CPROVER_assert(vf_c, "VF " msg); __CPROVER_assume(vf_c); } while (0)
/* Reachability witness: must come back violated. */
#ifdef VF_NOWITNESS
#define VF_WITNESS(msg) do { } while (0)
#else
#define VF_WITNESS(msg) __CPROVER_assert(0, "WITNESS " msg)
#endif
#else
void vfrt_assume(int c, const char *what, const char *file, int line);
void vfrt_assert(int c, const char *msg, const char *file, int line);
void vfrt_stop(void);
void vfrt_note(const char *msg);
#define VF_ASSUME(c) vfrt_assume((c) ? 1 : 0, #c, __FILE__, __LINE__)
#define VF_ASSERT(c, msg) vfrt_assert((c) ? 1 : 0, msg, __FILE__, __LINE__)
#define VF_STOP() vfrt_stop()
#define VF_WITNESS(msg) vfrt_note(msg)
#endif

extern char vf_minus1, vf_caller;
extern void *vf_ra;			/* what __builtin_return_address gives */
u64 vf_nd(void);			/* arbitrary 64 bits */
static inline int vf_bool(void) { return (int)(vf_nd() & 1); }
static inline int vf_range(int lo, int hi)	/* arbitrary in [lo,hi] */
{
    u64 v = vf_nd();
    VF_ASSUME(v <= (u64)(hi - lo));
    return lo + (int)v;
}
/* VF_EACH(k, lo, hi) { ...; VF_STOP(); }   for an arbitrary k in [lo,hi]; the
   body sees k as a constant and must not return, so that the paths stay
   apart and each is executed symbolically with constant control. */
#define VF_EACH(k, lo, hi) for (int k = (lo), k##_any = vf_range(lo, hi); k <= (hi); k++) if (k##_any == k)
static inline void *vf_cookie(void) { return (void *)vf_nd(); }

/* ---- environment model: process */
enum { VF_END_EXIT = 1,		/* exit() or return from main, val = status */
       VF_END_UEXIT,		/* _exit()/_Exit(), val = status */
       VF_END_SIGNAL,		/* default action of a signal, val = signal */
       VF_END_EXEC,		/* successful exec, val = 0 */
       VF_END_PTHREAD_EXIT,	/* pthread_exit() in the initial thread */
       VF_END_ERRX };		/* libmonitor gave up with an error message */
void vf_end(int kind, long val);	/* process is gone: vf_final, then stop */
void vf_libc_exit(int status);		/* the system's exit() */
extern int vf_exit_depth;		/* inside the system's exit()? */

/* supplied by the harness */
void vf_harness(void);
void vf_final(int kind, long val);	/* the process has just ended */
#ifndef VF_HOOK_ATEXIT
#define VF_HOOK_ATEXIT(status) do { } while (0)	/* application's exit handlers */
#endif
#ifndef VF_HOOK_BEFORE_MAIN
#define VF_HOOK_BEFORE_MAIN() do { } while (0)	/* the program's own constructors, run by the system's __libc_start_main() */
#endif
#ifndef VF_HOOK_BLOCK
#define VF_HOOK_BLOCK() do { } while (0)	/* the calling thread sleeps */
#endif
#ifndef VF_HOOK_THREAD_EXIT
#define VF_HOOK_THREAD_EXIT(t) do { } while (0)	/* a thread ended by pthread_exit(); must not return */
#endif
#ifndef VF_HOOK_CREATED
#define VF_HOOK_CREATED(t) do { } while (0)	/* a new thread exists, its creator is inside the system's pthread_create() */
#endif
#ifndef VF_MAX_BLOCKS
#define VF_MAX_BLOCKS 6			/* bound: sleeps per history */
#endif

extern const char *vf_env_debug, *vf_env_nosys, *vf_env_shoot, *vf_env_path;
#ifndef VF_NTHR
#define VF_NTHR 4
#endif
extern int vf_errno_v[VF_NTHR];
#define VF_ERRNO (vf_errno_v[vf_cur])
extern char **vf_environ;
extern int vf_print_clobbers;		/* stdio output may change errno */
extern int vf_warnings;			/* messages written to stderr */

/* ---- threads */
struct vf_thr {
    char used, live, started, ended;
    void *(*start)(void *);
    void *arg, *ret;
    void *tsd[2];
    u64 mask, pending;
    int cancel_off;
    int ncleanup;
    void (*cfn[2])(void *);
    void *carg[2];
    size_t stacksize;
};
extern struct vf_thr vf_thr[VF_NTHR];
extern int vf_cur;
extern int vf_nthreads;			/* slots in use; 0 is the initial thread */
void vf_thread_start(int t);		/* run it from its entry point, nested */
void vf_thread_unwind(int t);		/* cancellation: its cleanup handlers run */
extern long vf_now;			/* microseconds */
extern int vf_nblocks;

/* ---- signals */
#ifndef VF_NSIG
#define VF_NSIG 65
#endif
extern struct sigaction vf_ksa[VF_NSIG];	/* the kernel's table */
extern u64 vf_invalid_sigs;		/* signals the kernel refuses */
extern int vf_stops;			/* times the process was stopped */
#define VF_BIT(s) (1UL << ((s) - 1))
#define VF_ALLSIGS (VF_NSIG == 65 ? ~0UL : (1UL << (VF_NSIG - 1)) - 1)
void vf_deliver(int t, int sig, siginfo_t *info, void *ctx);	/* kernel runs the action in thread t */
void vf_send(int t, int sig);		/* make pending; deliver at once if it is the running thread */
void vf_poll(int t);			/* deliver what is pending and unblocked */
static inline u64 vf_set_get(const sigset_t *s) { return s->__val[0]; }
static inline void vf_set_put(sigset_t *s, u64 v) { s->__val[0] = v; }

/* ---- generated glue: constructors and destructors found in the sources */
void vf_ctors(void);
void vf_dtors(void);

/* ---- what the application sees (libmonitor's overrides) */
void vf_exit(int);
void vf__exit(int);
void vf__Exit(int);
int vf_fork(void);
int vf_vfork(void);
int vf_system(const char *);
int vf_execl(const char *, const char *, ...);
int vf_execlp(const char *, const char *, ...);
int vf_execle(const char *, const char *, ...);
int vf_execv(const char *, char *const *);
int vf_execvp(const char *, char *const *);
int vf_execve(const char *, char *const *, char *const *);
int vf_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
void vf_pthread_exit(void *);
int vf_sigwait(const sigset_t *, int *);
int vf_sigwaitinfo(const sigset_t *, siginfo_t *);
int vf_sigtimedwait(const sigset_t *, siginfo_t *, const struct timespec *);
int vf_sigaction(int, const struct sigaction *, struct sigaction *);
void (*vf_signal(int, void (*)(int)))(int);
int vf_sigprocmask(int, const sigset_t *, sigset_t *);
int vf_pthread_sigmask(int, const sigset_t *, sigset_t *);
void *vf_dlopen(const char *, int);
int vf_dlclose(void *);
int vf_main(int, char **, char **);
int vf___libc_start_main(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);

/* ---- the system's own functions */
int vfr_fork(void), vfr_vfork(void), vfr_system(const char *);
int vfr_execve(const char *, char *const *, char *const *), vfr_execv(const char *, char *const *), vfr_execvp(const char *, char *const *);
int vfr_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int vfr_sigwait(const sigset_t *, int *), vfr_sigwaitinfo(const sigset_t *, siginfo_t *);
int vfr_sigtimedwait(const sigset_t *, siginfo_t *, const struct timespec *);
void *vfr_dlopen(const char *, int);
int vfr_dlclose(void *);
int vf_access(const char *, int), vf_waitpid(int, int *, int);
void *vf_malloc(size_t);
char *vf_getenv(const char *);
int vf_pthread_attr_init(pthread_attr_t *), vf_pthread_attr_destroy(pthread_attr_t *);
int vf_pthread_attr_getstacksize(const pthread_attr_t *, size_t *), vf_pthread_attr_setstacksize(pthread_attr_t *, size_t);
int vf_pthread_kill(pthread_t, int);

#endif
