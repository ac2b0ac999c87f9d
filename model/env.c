/* The environment libmonitor runs in, as far as it can observe it: a
   nondeterministic model of the C library and the kernel.  Included by every
   harness.  Each function returns any value its documented contract allows. */
#include "vf.h"
#include <stdarg.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <time.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <ucontext.h>

/* ------------------------------------------------------------------ values */
#ifndef VF_NATIVE
unsigned long nondet_ulong(void);
u64 vf_nd(void) { u64 vf_choice = nondet_ulong(); return vf_choice; }
#endif

char vf_caller;	/* stands for the caller's return address */
void vf_sig_ign(int s) { VF_ASSERT(0, "SIG_IGN is not called"); }
void vf_sig_err(int s) { VF_ASSERT(0, "SIG_ERR is not called"); }
char vf_minus1;	/* stands for (void *)-1, see lib/prep.py */

/* ----------------------------------------------------------------- process */
int vf_exit_depth;
int vf_errno_v[VF_NTHR];
char **vf_environ;
const char *vf_env_debug, *vf_env_nosys, *vf_env_shoot, *vf_env_path = "/bin";
int vf_print_clobbers, vf_warnings;
struct vf_thr vf_thr[VF_NTHR] = { { .used = 1, .live = 1, .started = 1 } };
int vf_cur, vf_nthreads = 1, vf_nblocks;
long vf_now = 1000000000;

void vf_end(int kind, long val) { vf_final(kind, val); VF_STOP(); }

void vf_libc_exit(int status)
{
    int nested = vf_exit_depth;
    vf_exit_depth++;
    if (nested == 0)
	VF_HOOK_ATEXIT(status);
    vf_dtors();
    vf_end(VF_END_EXIT, status);
}

void vfr_exit(int status) { vf_libc_exit(status); }
void vfr__exit(int status) { vf_end(VF_END_UEXIT, status); }
void vfr__Exit(int status) { vf_end(VF_END_UEXIT, status); }
#ifndef VF_OWN_ABORT
void vf_abort(void) { vf_end(VF_END_SIGNAL, SIGABRT); }
#endif
void vf_errx(int st, const char *fmt, ...) { vf_end(VF_END_ERRX, st); }
void vf_err(int st, const char *fmt, ...) { vf_end(VF_END_ERRX, st); }

int vfr___libc_start_main(int (*main)(int, char **, char **), int argc, char **argv,
			  void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *stack_end)
{
    int st;
    VF_HOOK_BEFORE_MAIN();
    st = main(argc, argv, vf_environ);
    vf_libc_exit(st);
    return 0;
}

#ifndef VF_OWN_FORK
#define VF_OWN_FORK_DEFAULT
int vf_fork_result(void);
#endif

/* ------------------------------------------------------- preemption points */
/* Thread vf_yield_thr is preempted once, at its vf_yield_at-th point after
   vf_yield_on was set; VF_HOOK_PREEMPT() is what happens there. */
int vf_unw;	/* a thread was suspended: leave its frames */
int vf_interrupt;	/* the preempted thread itself runs the hook: a signal handler */
int vf_yield_on, vf_yield_thr, vf_yield_at, vf_yield_n, vf_preempted;
#ifndef VF_HOOK_PREEMPT
#define VF_HOOK_PREEMPT() do { } while (0)
#endif
void vf_yield(void)
{
    if (vf_cur != vf_yield_thr || vf_preempted || vf_unw)
	return;
    vf_yield_n++;
    if (vf_yield_n == vf_yield_at) {
	vf_preempted = 1;
	VF_HOOK_PREEMPT();
	vf_preempted = 2;
    }
}
/* a loop that waits for another thread */
void vf_spin(void)
{
    if (vf_preempted == 1 && !vf_interrupt)
	VF_STOP();		/* the preempted thread has to go on first: another history */
    VF_ASSERT(0, "no thread waits for a lock that is never released");
}
void vf_stuck(void) { vf_spin(); }

/* ------------------------------------------------------------------- stdio */
static void vf_output(void)
{
    if (vf_print_clobbers)
	VF_ERRNO = (int)(vf_nd() & 0xff);
}
int vf_fprintf(FILE *f, const char *fmt, ...) { vf_warnings++; vf_output(); return 0; }
int vf_printf(const char *fmt, ...) { vf_output(); return 0; }
int vf_dprintf(int fd, const char *fmt, ...) { vf_output(); return 0; }
int vf_vfprintf(FILE *f, const char *fmt, va_list ap) { vf_warnings++; vf_output(); return 0; }
int vf_fputs(const char *s, FILE *f) { vf_output(); return 0; }
int vf_puts(const char *s) { vf_output(); return 0; }
int vf_fflush(FILE *f) { vf_output(); return 0; }
void vf_perror(const char *s) { vf_output(); }
void vf_warn(const char *f, ...) { vf_output(); }
void vf_warnx(const char *f, ...) { vf_output(); }
ssize_t vf_write(int fd, const void *b, size_t n) { vf_output(); return n; }

int *vf___errno_location(void) { return &vf_errno_v[vf_cur]; }
char *vf_strerror(int e) { return "error"; }

/* ----------------------------------------------------------------- strings */
/* bound on the length of strings, so that searches of symbolic text end */
#ifdef VF_STRMAX
#define VF_STR(i) ((i) < VF_STRMAX)
static int vf_scans;
#define VF_SCAN() do { VF_ASSERT(vf_scans < VF_SCANMAX, "model bound: number of string searches"); vf_scans++; } while (0)
#define VF_STRCHK(i) VF_ASSERT((i) < VF_STRMAX, "model bound: string length")
#else
#define VF_STR(i) 1
#define VF_SCAN() do { } while (0)
#define VF_STRCHK(i) do { } while (0)
#endif
void *vf_memcpy(void *d, const void *s, size_t n)
{
    size_t i;
    for (i = 0; VF_STR(i) && i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    VF_STRCHK(i);
    return d;
}
size_t vf_strlen(const char *s) { size_t n = 0; while (VF_STR(n) && s[n] != 0) n++; VF_STRCHK(n); return n; }
size_t vf_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n] != 0) n++; return n; }
int vf_strcmp(const char *a, const char *b)
{
    size_t i = 0;
    while (a[i] != 0 && a[i] == b[i]) i++;
    return (unsigned char)a[i] - (unsigned char)b[i];
}
int vf_strncmp(const char *a, const char *b, size_t n)
{
    size_t i = 0;
    if (n == 0) return 0;
    while (i + 1 < n && a[i] != 0 && a[i] == b[i]) i++;
    return (unsigned char)a[i] - (unsigned char)b[i];
}
int vf_memcmp(const void *x, const void *y, size_t n)
{
    const unsigned char *a = x, *b = y;
    size_t i = 0;
    for (i = 0; i < n; i++) if (a[i] != b[i]) return a[i] - b[i];
    return 0;
}
char *vf_strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i]) != 0) i++; return d; }
char *vf_stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i]) != 0) i++; return d + i; }
char *vf_strncpy(char *d, const char *s, size_t n)
{
    size_t i = 0;
    while (i < n && s[i] != 0) { d[i] = s[i]; i++; }
    while (i < n) d[i++] = 0;
    return d;
}
char *vf_strcat(char *d, const char *s) { vf_strcpy(d + vf_strlen(d), s); return d; }
char *vf_strncat(char *d, const char *s, size_t n)
{
    size_t l = vf_strlen(d), i = 0;
    while (i < n && s[i] != 0) { d[l + i] = s[i]; i++; }
    d[l + i] = 0;
    return d;
}
char *vf_strchrnul(const char *s, int c) { size_t i = 0; VF_SCAN(); while (VF_STR(i) && s[i] != 0 && s[i] != (char)c) i++; VF_STRCHK(i); return (char *)s + i; }
char *vf_strchr(const char *s, int c)
{
    size_t i = 0;
    VF_SCAN();
    for (; VF_STR(i); ) {
	if (s[i] == (char)c) return (char *)s + i;
	if (s[i] == 0) return NULL;
	i++;
    }
    VF_STRCHK(i);
    return NULL;
}
char *vf_strrchr(const char *s, int c)
{
    char *r = NULL;
    size_t i = 0;
    for (; VF_STR(i); ) {
	if (s[i] == (char)c) r = (char *)s + i;
	if (s[i] == 0) return r;
	i++;
    }
    VF_STRCHK(i);
    return NULL;
}
void *vf_memchr(const void *p, int c, size_t n)
{
    const unsigned char *s = p;
    size_t i;
    for (i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i);
    return NULL;
}
char *vf_strstr(const char *h, const char *n)
{
    size_t i, j;
    for (i = 0; ; i++) {
	for (j = 0; n[j] != 0 && h[i + j] == n[j]; j++) ;
	if (n[j] == 0) return (char *)h + i;
	if (h[i] == 0) return NULL;
    }
}
size_t vf_strspn(const char *s, const char *a)
{
    size_t i, j;
    for (i = 0; VF_STR(i) && s[i] != 0; i++) {
	for (j = 0; a[j] != 0 && a[j] != s[i]; j++) ;
	if (a[j] == 0) break;
    }
    VF_STRCHK(i);
    return i;
}
size_t vf_strcspn(const char *s, const char *a)
{
    size_t i, j;
    VF_SCAN();
    for (i = 0; VF_STR(i) && s[i] != 0; i++) {
	for (j = 0; a[j] != 0 && a[j] != s[i]; j++) ;
	if (a[j] != 0) break;
    }
    VF_STRCHK(i);
    return i;
}
char *vf_strpbrk(const char *s, const char *a) { size_t n = vf_strcspn(s, a); return s[n] ? (char *)s + n : NULL; }

/* ------------------------------------------------------------- environment */
#ifndef VF_OWN_GETENV
static int vf_streq(const char *a, const char *b) { return vf_strcmp(a, b) == 0; }
char *vf_getenv(const char *name)
{
    if (vf_streq(name, "MONITOR_DEBUG")) return (char *)vf_env_debug;
    if (vf_streq(name, "MONITOR_NO_SYSTEM_OVERRIDE")) return (char *)vf_env_nosys;
    if (vf_streq(name, "MONITOR_SHOOTDOWN_SIGNAL")) return (char *)vf_env_shoot;
    if (vf_streq(name, "PATH")) return (char *)vf_env_path;
    return NULL;
}
char *vf_secure_getenv(const char *name) { return vf_getenv(name); }
#endif

/* ------------------------------------------------------------------ memory */
#ifndef VF_OWN_MALLOC
void *vf_malloc(size_t n) { void *p = malloc(n); VF_ASSUME(p != NULL); return p; }
void *vf_calloc(size_t a, size_t b) { void *p = malloc(a * b); VF_ASSUME(p != NULL); memset(p, 0, a * b); return p; }
void vf_free(void *p) { free(p); }
#endif
#ifndef VF_OWN_MMAP
void *vf_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    void *p = malloc(n);
    VF_ASSUME(p != NULL);
    return p;
}
int vf_munmap(void *p, size_t n) { return 0; }
#endif
long vf_pagesize = 4096;
long vf_sysconf(int n) { return vf_pagesize; }
int vf_getpagesize(void) { return vf_pagesize; }

/* -------------------------------------------------------------------- time */
static void vf_sleep_us(long us)
{
    vf_now += us;
    vf_nblocks++;
    if (vf_nblocks > VF_MAX_BLOCKS) {
#ifdef VF_HOOK_MAX_BLOCKS
	VF_HOOK_MAX_BLOCKS();
#endif
	VF_STOP();
    }
    VF_HOOK_BLOCK();
}
int vf_usleep(unsigned us) { vf_sleep_us(us); return 0; }
unsigned vf_sleep(unsigned s) { vf_sleep_us(1000000L * s); return 0; }
int vf_nanosleep(const struct timespec *a, struct timespec *b) { vf_sleep_us(a->tv_sec * 1000000 + a->tv_nsec / 1000); return 0; }
int vf_sched_yield(void) { vf_sleep_us(1); return 0; }
int vf_pthread_yield(void) { vf_sleep_us(1); return 0; }
int vf_gettimeofday(struct timeval *tv, void *tz)
{
    tv->tv_sec = vf_now / 1000000;
    tv->tv_usec = vf_now % 1000000;
    return 0;
}
int vf_clock_gettime(clockid_t c, struct timespec *ts)
{
    ts->tv_sec = vf_now / 1000000;
    ts->tv_nsec = vf_now % 1000000 * 1000;
    return 0;
}
time_t vf_time(time_t *t) { if (t) *t = vf_now / 1000000; return vf_now / 1000000; }

/* --------------------------------------------------------------- processes */
int vf_getpid(void) { return 1000; }
int vf_getppid(void) { return 999; }
int vf_gettid(void) { return 1000 + vf_cur; }

/* ----------------------------------------------------------------- signals */
struct sigaction vf_ksa[VF_NSIG];
u64 vf_invalid_sigs = VF_BIT(32) | VF_BIT(33);
int vf_stops;

int vf_sigemptyset(sigset_t *s) { vf_set_put(s, 0); return 0; }
int vf_sigfillset(sigset_t *s) { s->__val[0] = VF_ALLSIGS & ~(VF_BIT(32) | VF_BIT(33)); return 0; }
static int vf_badsig(int sig) { return sig <= 0 || sig >= VF_NSIG || sig == 32 || sig == 33; }
/* glibc: sigaddset, sigdelset and sigismember reject only numbers out of
   range; sigaddset and sigdelset also reject the two internal signals. */
int vf_sigaddset(sigset_t *s, int sig) { if (vf_badsig(sig)) { VF_ERRNO = EINVAL; return -1; } s->__val[0] |= VF_BIT(sig); return 0; }
int vf_sigdelset(sigset_t *s, int sig) { if (vf_badsig(sig)) { VF_ERRNO = EINVAL; return -1; } s->__val[0] &= ~VF_BIT(sig); return 0; }
int vf_sigismember(const sigset_t *s, int sig) { if (sig <= 0 || sig >= VF_NSIG) { VF_ERRNO = EINVAL; return -1; } return (int)((s->__val[0] >> (sig - 1)) & 1); }
int vf_sigisemptyset(const sigset_t *s) { return s->__val[0] == 0; }
int vf___libc_current_sigrtmin(void) { return 34; }
int vf___libc_current_sigrtmax(void) { return VF_NSIG - 1; }

int vfr_sigaction(int sig, const struct sigaction *act, struct sigaction *old)
{
    if (sig <= 0 || sig >= VF_NSIG || (vf_invalid_sigs & VF_BIT(sig)) ||
	(act != NULL && (sig == SIGKILL || sig == SIGSTOP))) {
	VF_ERRNO = EINVAL;
	return -1;
    }
    if (old != NULL)
	*old = vf_ksa[sig];
    if (act != NULL)
	vf_ksa[sig] = *act;
    return 0;
}

void (*vfr_signal(int sig, void (*h)(int)))(int)
{
    struct sigaction a, o;
    a.sa_handler = h;
    vf_set_put(&a.sa_mask, 0);
    a.sa_flags = SA_RESTART;
    return vfr_sigaction(sig, &a, &o) == 0 ? o.sa_handler : SIG_ERR;
}

static int vf_chmask(int how, const sigset_t *set, sigset_t *old)
{
    u64 m = vf_thr[vf_cur].mask, n;
    if (set != NULL) {
	n = vf_set_get(set) & ~(VF_BIT(SIGKILL) | VF_BIT(SIGSTOP) | VF_BIT(32) | VF_BIT(33));
	if (how == SIG_BLOCK) m |= n;
	else if (how == SIG_UNBLOCK) m &= ~n;
	else if (how == SIG_SETMASK) m = n;
	else return EINVAL;
    }
    if (old != NULL)
	vf_set_put(old, vf_thr[vf_cur].mask);
    vf_thr[vf_cur].mask = m;
    return 0;
}
int vfr_pthread_sigmask(int how, const sigset_t *set, sigset_t *old)
{
    int r = vf_chmask(how, set, old);
#ifdef VF_POLL_ON_UNMASK
    vf_poll(vf_cur);
#endif
    return r;
}
int vfr_sigprocmask(int how, const sigset_t *set, sigset_t *old)
{
    int r = vf_chmask(how, set, old);
    if (r != 0) { VF_ERRNO = r; r = -1; }
#ifdef VF_POLL_ON_UNMASK
    vf_poll(vf_cur);
#endif
    return r;
}

void vf_deliver(int t, int sig, siginfo_t *info, void *ctx)
{
    int save = vf_cur, save_errno;
    struct sigaction sa = vf_ksa[sig];
    u64 omask = vf_thr[t].mask;
    if (sig == SIGKILL)
	vf_end(VF_END_SIGNAL, sig);
    if (sig == SIGSTOP) {
	vf_stops++;
	return;
    }
    if (sa.sa_handler == SIG_IGN)
	return;
    if (sa.sa_handler == SIG_DFL) {
	if (sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH)
	    return;
	if (sig == SIGTSTP || sig == SIGTTIN || sig == SIGTTOU) {
	    vf_stops++;
	    return;
	}
	vf_end(VF_END_SIGNAL, sig);
    }
    if (sa.sa_flags & SA_RESETHAND)
	vf_ksa[sig].sa_handler = SIG_DFL;
    vf_cur = t;
    save_errno = VF_ERRNO;
    vf_thr[t].mask |= vf_set_get(&sa.sa_mask) & ~(VF_BIT(SIGKILL) | VF_BIT(SIGSTOP));
    if (!(sa.sa_flags & SA_NODEFER))
	vf_thr[t].mask |= VF_BIT(sig);
    if (sa.sa_flags & SA_SIGINFO)
	(*sa.sa_sigaction)(sig, info, ctx);
    else
	(*sa.sa_handler)(sig);
    if (!vf_unw)	/* else suspended inside the handler */
	vf_thr[t].mask = omask;
    VF_ERRNO = save_errno;
    vf_cur = save;
}

static siginfo_t vf_anyinfo;
void vf_poll(int t)
{
    u64 p = vf_thr[t].pending & ~vf_thr[t].mask;
    int sig;
    if (p == 0)
	return;
    for (sig = 1; sig < VF_NSIG; sig++)
	if (vf_thr[t].pending & ~vf_thr[t].mask & VF_BIT(sig)) {
	    vf_thr[t].pending &= ~VF_BIT(sig);
	    vf_deliver(t, sig, &vf_anyinfo, NULL);
	}
}
void vf_send(int t, int sig)
{
    if (t == vf_cur && !(vf_thr[t].mask & VF_BIT(sig)))
	vf_deliver(t, sig, &vf_anyinfo, NULL);
    else
	vf_thr[t].pending |= VF_BIT(sig);
}
#ifndef VF_OWN_RAISE
int vf_raise(int sig) { vf_send(vf_cur, sig); return 0; }
#endif
int vf_kill(int pid, int sig) { vf_send(vf_cur, sig); return 0; }
void *vf_ra = &vf_caller;
void *vf_return_address(void) { return vf_ra; }
int vf_getcontext(ucontext_t *c) { return 0; }

/* ----------------------------------------------------------------- threads */
#define VF_SELF(t) ((pthread_t)(0x7000 + (t)))
static char vf_key_used[2];

#ifndef VF_OWN_PTHREAD
pthread_t vf_pthread_self(void) { return VF_SELF(vf_cur); }
int vf_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int vf_pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
    int i;
    for (i = 0; i < 2; i++)
	if (!vf_key_used[i]) {
	    int t;
	    vf_key_used[i] = 1;
	    for (t = 0; t < VF_NTHR; t++)
		vf_thr[t].tsd[i] = NULL;
	    *k = i;
	    return 0;
	}
    return EAGAIN;
}
int vf_pthread_key_delete(pthread_key_t k)
{
    if (k >= 2 || !vf_key_used[k])
	return EINVAL;
    vf_key_used[k] = 0;
    return 0;
}
void *vf_pthread_getspecific(pthread_key_t k)
{
    if (k >= 2 || !vf_key_used[k])
	return NULL;
    return vf_thr[vf_cur].tsd[k];
}
int vf_pthread_setspecific(pthread_key_t k, const void *p)
{
    if (k >= 2 || !vf_key_used[k])
	return EINVAL;
    vf_thr[vf_cur].tsd[k] = (void *)p;
    return 0;
}
#ifndef VF_OWN_PTHREAD_KILL
int vf_pthread_kill(pthread_t p, int sig)
{
    int t = (int)((unsigned long)p - 0x7000);
    VF_ASSERT(t >= 0 && t < VF_NTHR && vf_thr[t].used, "pthread_kill is only given threads that exist");
    if (sig < 0 || sig >= VF_NSIG)
	return EINVAL;
    if (sig == 32 || sig == 33)
	return EINVAL;
    if (vf_thr[t].live && sig != 0)
	vf_send(t, sig);
    return 0;
}
#endif
int vf_pthread_setcancelstate(int st, int *old)
{
    if (old != NULL)
	*old = vf_thr[vf_cur].cancel_off;
    vf_thr[vf_cur].cancel_off = st;
    return 0;
}
void vf_pthread_testcancel(void) { }

void vf_cleanup_push(void (*fn)(void *), void *arg)
{
    int n = vf_thr[vf_cur].ncleanup;
    VF_ASSERT(n < 2, "model bound: nested cleanup handlers");
    vf_thr[vf_cur].cfn[n] = fn;
    vf_thr[vf_cur].carg[n] = arg;
    vf_thr[vf_cur].ncleanup = n + 1;
}
void vf_cleanup_pop(void) { vf_thr[vf_cur].ncleanup--; }
void vf_cleanup_run(void (*fn)(void *), void *arg) { fn(arg); }

#ifndef VF_OWN_ATTR
#define VF_DEFAULT_STACK 0x800000UL
/* the model keeps an attribute object's stack size in its first word, and a
   liveness tag in the second */
#define VF_ATTR_TAG 0x5a5a5a5a5a5aUL
int vf_pthread_attr_init(pthread_attr_t *a) { ((u64 *)a)[0] = VF_DEFAULT_STACK; ((u64 *)a)[1] = VF_ATTR_TAG; return 0; }
int vf_pthread_attr_destroy(pthread_attr_t *a) { ((u64 *)a)[1] = 0; return 0; }
int vf_pthread_attr_getstacksize(const pthread_attr_t *a, size_t *s) { *s = ((const u64 *)a)[0]; return 0; }
int vf_pthread_attr_setstacksize(pthread_attr_t *a, size_t s) { if (s < 16384) return EINVAL; ((u64 *)a)[0] = s; return 0; }
#endif

#ifndef VF_OWN_PTHREAD_CREATE
#ifndef VF_CREATE_FAILS
#define VF_CREATE_FAILS 0
#endif
int vfr_pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*start)(void *), void *arg)
{
    int t = vf_nthreads, i;
    VF_ASSUME(t < VF_NTHR);
    vf_nthreads++;		/* a failed creation uses up a slot of the model, to keep indices constant */
    if (VF_CREATE_FAILS)
	return EAGAIN;
    vf_thr[t].used = vf_thr[t].live = 1;
    vf_thr[t].start = start;
    vf_thr[t].arg = arg;
    vf_thr[t].mask = vf_thr[vf_cur].mask;
    vf_thr[t].stacksize = a == NULL ? VF_DEFAULT_STACK : ((const u64 *)a)[0];
    *p = VF_SELF(t);
    VF_HOOK_CREATED(t);
    return 0;
}
#endif
void vf_thread_start(int t)
{
    int save = vf_cur;
    vf_cur = t;
    vf_thr[t].started = 1;
    vf_thr[t].ret = (*vf_thr[t].start)(vf_thr[t].arg);
    vf_thr[t].live = 0;
    vf_thr[t].ended = 1;
    vf_cur = save;
}
static void vf_run_cleanups(int t)
{
    while (vf_thr[t].ncleanup > 0) {
	int n = --vf_thr[t].ncleanup;
	(*vf_thr[t].cfn[n])(vf_thr[t].carg[n]);
    }
}
void vf_thread_unwind(int t)
{
    int save = vf_cur;
    vf_cur = t;
    vf_run_cleanups(t);
    vf_thr[t].live = 0;
    vf_thr[t].ended = 1;
    vf_cur = save;
}
static int vf_live(void)
{
    int t, n = 0;
    for (t = 0; t < VF_NTHR; t++)
	n += vf_thr[t].used && vf_thr[t].live;
    return n;
}
void vfr_pthread_exit(void *ret)
{
    int t = vf_cur;
    vf_run_cleanups(t);
    vf_thr[t].ret = ret;
    vf_thr[t].live = 0;
    vf_thr[t].ended = 1;
    if (vf_live() == 0)		/* the last thread: the system calls exit(0) */
	vf_libc_exit(0);
    VF_HOOK_THREAD_EXIT(t);
    VF_STOP();
}
#endif

#ifndef VF_OWN_SIGWAIT
int vfr_sigwaitinfo(const sigset_t *s, siginfo_t *i) { VF_STOP(); return -1; }
int vfr_sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *t) { VF_STOP(); return -1; }
int vfr_sigwait(const sigset_t *s, int *i) { VF_STOP(); return -1; }
#endif

/* ------------------------------------------------------------- fork, exec */
/* In the child only the calling thread survives. */
static void vf_child(void)
{
    int t;
    for (t = 0; t < VF_NTHR; t++)
	if (t != vf_cur)
	    vf_thr[t].live = 0;
    vf_thr[vf_cur].pending = 0;
}
#ifndef VF_OWN_FORK
int vf_forked;		/* 1 in a child */
int vfr_fork(void)
{
    u64 r = vf_nd();
    VF_ASSUME(r <= 2);
    if (r == 0) {
	VF_ERRNO = EAGAIN;
	return -1;
    }
    if (r == 1) {
	vf_forked++;
	vf_child();
	return 0;
    }
    return 4321;
}
int vfr_vfork(void) { return vfr_fork(); }
#endif
#ifndef VF_OWN_ACCESS
static int vf_access_ok;
int vf_access(const char *p, int m) { if (vf_bool()) { vf_access_ok = 1; return 0; } VF_ERRNO = EACCES; return -1; }
#endif
#ifndef VF_OWN_EXEC
int vfr_execve(const char *p, char *const a[], char *const e[]) { if (vf_access_ok && vf_bool()) vf_end(VF_END_EXEC, 0); VF_ERRNO = ENOENT; return -1; }
int vfr_execv(const char *p, char *const a[]) { return vfr_execve(p, a, vf_environ); }
int vfr_execvp(const char *p, char *const a[]) { return vfr_execve(p, a, vf_environ); }
#endif
#ifndef VF_OWN_WAITPID
int vf_waitpid(int pid, int *st, int opt) { *st = (int)vf_nd(); return pid; }
#endif
#ifndef VF_OWN_SYSTEM
int vfr_system(const char *c) { return 0; }
#endif

/* ------------------------------------------------------------------- dlopen */
#ifndef VF_OWN_DL
void *vfr_dlopen(const char *p, int f) { return vf_cookie(); }
int vfr_dlclose(void *h) { return 0; }
int vf_dladdr(const void *a, Dl_info *i) { return 0; }
int vf_dl_iterate_phdr(int (*cb)(void *, size_t, void *), void *d) { return 0; }
#endif

#ifndef VF_OWN_DLSYM
static const char *vf_dlerr;
char *vf_dlerror(void) { const char *e = vf_dlerr; vf_dlerr = NULL; return (char *)e; }
void *vf_dlsym(void *h, const char *name)
{
    unsigned x = 5381;
    size_t i;
    for (i = 0; name[i] != 0; i++)
	x = x * 33 + (unsigned char)name[i];
    switch (x) {
#include "dlsym_tab.h"
    }
    vf_dlerr = "undefined symbol";
    return NULL;
}
#endif

/* ---------------------------------------------------- formatted conversions */
#ifndef VF_OWN_PRINTF
/* %d %u %ld %s %c %% only: what libmonitor writes into buffers */
static int vf_putn(char *buf, size_t size, size_t pos, long v)
{
    char d[20];
    int n = 0, k = 0;
    if (v < 0) { if (pos < size) buf[pos] = '-'; k++; v = -v; }
    do { d[n++] = '0' + v % 10; v /= 10; } while (v != 0);
    while (n > 0) { n--; if (pos + k < size) buf[pos + k] = d[n]; k++; }
    return k;
}
static int vf_vsn(char *buf, size_t size, const char *fmt, va_list ap)
{
    size_t pos = 0, i;
    const char *s;
    for (i = 0; fmt[i] != 0; i++) {
	if (fmt[i] != '%') { if (pos < size) buf[pos] = fmt[i]; pos++; continue; }
	i++;
	if (fmt[i] == 'd') pos += vf_putn(buf, size, pos, va_arg(ap, int));
	else if (fmt[i] == 'u') pos += vf_putn(buf, size, pos, va_arg(ap, unsigned));
	else if (fmt[i] == 'l') { i++; pos += vf_putn(buf, size, pos, va_arg(ap, long)); }
	else if (fmt[i] == 'c') { char c = (char)va_arg(ap, int); if (pos < size) buf[pos] = c; pos++; }
	else if (fmt[i] == 's') { s = va_arg(ap, const char *); while (*s) { if (pos < size) buf[pos] = *s; pos++; s++; } }
	else { if (pos < size) buf[pos] = fmt[i]; pos++; }
    }
    if (pos < size) buf[pos] = 0; else if (size > 0) buf[size - 1] = 0;
    return (int)pos;
}
int vf_sprintf(char *buf, const char *fmt, ...)
{
    va_list ap; int r;
    va_start(ap, fmt); r = vf_vsn(buf, (size_t)1 << 40, fmt, ap); va_end(ap);
    return r;
}
int vf_snprintf(char *buf, size_t size, const char *fmt, ...)
{
    va_list ap; int r;
    va_start(ap, fmt); r = vf_vsn(buf, size, fmt, ap); va_end(ap);
    return r;
}
#endif
#ifndef VF_OWN_SCANF
long vf_strtol(const char *s, char **end, int base)
{
    long v = 0; int i = 0, neg = 0, any = 0;
    while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++;
    if (s[i] == '-' || s[i] == '+') neg = s[i++] == '-';
    while (s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i] - '0'); i++; any = 1; }
    if (end != NULL) *end = (char *)s + (any ? i : 0);
    return neg ? -v : v;
}
long vf___isoc23_strtol(const char *s, char **end, int base) { return vf_strtol(s, end, base); }
int vf_atoi(const char *s) { return (int)vf_strtol(s, NULL, 10); }
static int vf_vsscan(const char *s, const char *fmt, va_list ap)
{
    char *e; long v; int *out;
    VF_ASSERT(fmt[0] == '%' && fmt[1] == 'd' && fmt[2] == 0, "model bound: only sscanf(\"%d\") is modelled");
    v = vf_strtol(s, &e, 10);
    out = va_arg(ap, int *);
    if (e == s) return s[0] == 0 ? -1 : 0;
    *out = (int)v;
    return 1;
}
int vf_sscanf(const char *s, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vf_vsscan(s, fmt, ap); va_end(ap); return r; }
int vf___isoc99_sscanf(const char *s, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vf_vsscan(s, fmt, ap); va_end(ap); return r; }
int vf___isoc23_sscanf(const char *s, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vf_vsscan(s, fmt, ap); va_end(ap); return r; }
#endif
