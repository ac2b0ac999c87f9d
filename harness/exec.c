/* C04: the six exec functions.  FN: 0 execl, 1 execlp, 2 execle, 3 execv,
   4 execvp, 5 execve.  Without PATHLEN: any outcome of the test for an
   executable file and of the exec itself, any number of arguments up to NARG.
   With PATHLEN: any PATH and file name, against the search rules of execvp. */
#ifndef NARG
#define NARG 9
#endif
#define IS_P (FN == 1 || FN == 4)
static int n_begin, n_fini, n_finilib, how, order;
static void *fini_data;
static char cdata;
#define CB_INIT_PROCESS(a, v, d) return &cdata
#define CB_BEGIN_PROCESS_EXIT(h) do { VF_ASSERT((h) == how, "begin_process_exit gets the kind of exit"); n_begin++; clobber(); } while (0)
#define CB_FINI_PROCESS(h, d) do { VF_ASSERT((h) == how && n_begin == 1, "fini_process gets the kind of exit, after begin_process_exit"); fini_data = (d); n_fini++; clobber(); } while (0)
#define CB_FINI_LIBRARY() do { n_finilib++; clobber(); } while (0)
static void clobber(void);
#ifdef PATHLEN
#define VF_STRMAX 15
#define VF_SCANMAX (UNSET_OR(PATHLEN) + 4)
#ifdef UNSET
#define UNSET_OR(n) 2
#else
#define UNSET_OR(n) n
#endif
#endif
#define VF_OWN_EXEC
#define VF_OWN_ACCESS
#include "env.c"
#include "cb.h"
#include "start.h"
static void clobber(void) { VF_ERRNO = (int)(vf_nd() & 0x7f); }

static char arg[NARG + 1];
static char *argv_[NARG + 2], *envv[3] = { "A=b", "LD_PRELOAD=x", NULL };
static int nargs, execs, executable, exec_err, going;

#ifdef PATHLEN
#ifndef FILELEN
#define FILELEN 3
#endif
#ifndef XLEN
#define XLEN 6
#endif
static char path_[PATHLEN + 1], file_[FILELEN + 1], x_[XLEN + 1];
/* the only executable file there is */
static int fs(const char *p)
{
    int i;
    for (i = 0; i <= XLEN; i++) {
	if (p[i] != x_[i]) return 0;
	if (p[i] == 0) return 1;
    }
    return 0;
}
static int search(void)
{
    char b[PATHLEN + FILELEN + 4];
    const char *p = vf_env_path != NULL ? path_ : "/bin:/usr/bin";
    int i, flen, n, last = vf_env_path != NULL ? PATHLEN : 13;
    for (flen = 0; file_[flen] != 0; flen++)
	if (file_[flen] == '/') return fs(file_);
    if (flen == 0) return 0;
    n = 0;
    for (i = 0; i <= last; i++) {
	if (p[i] == ':' || p[i] == 0) {
	    int k = n, j;
	    if (k > 0) b[k++] = '/';
	    for (j = 0; j <= FILELEN; j++) {
		b[k + j] = file_[j];
		if (file_[j] == 0) break;
	    }
	    if (k + flen < VF_PATH_MAX && fs(b)) return 1;
	    if (p[i] == 0) break;
	    n = 0;
	} else
	    b[n++] = p[i];
    }
    return 0;
}
int vf_access(const char *p, int m)
{
    if (fs(p)) return 0;
    VF_ERRNO = ENOENT;
    return -1;
}
#define the_file file_
#else
static char the_file[] = "a/b";
int vf_access(const char *p, int m)
{
    VF_ASSERT(m == X_OK, "the test is for execute permission");
    VF_ASSERT(p == the_file || vf_strcmp(p, the_file) == 0, "the file to be executed is tested");
    if (executable) return 0;
    VF_ERRNO = EACCES;
    return -1;
}
#endif
static int at_exec(const char *p, char *const a[], char *const e[])
{
    int i;
    execs++;
    VF_ASSERT(execs == 1, "one exec of the system's");
    VF_ASSERT(p == the_file || vf_strcmp(p, the_file) == 0, "the program is the application's");
    for (i = 0; i <= nargs; i++)
	VF_ASSERT(a[i] == argv_[i], "the arguments are the application's, ended by NULL");
    if (FN == 2 || FN == 5)
	VF_ASSERT(e == envv || (vf_strcmp(e[0], envv[0]) == 0 && vf_strcmp(e[1], envv[1]) == 0 && e[2] == NULL), "the environment is the application's");
    else
	VF_ASSERT(e == vf_environ, "the environment is the process's");
    VF_ASSERT(n_begin == n_fini && n_fini == executable, "fini_process once before the exec if the file can be executed, not at all otherwise");
#ifndef VF_STATIC
    VF_ASSERT(n_finilib == n_fini, "fini_library follows fini_process");
#endif
    if (n_fini) VF_ASSERT(fini_data == &cdata, "fini_process gets init_process's data");
    if (executable && vf_bool()) vf_end(VF_END_EXEC, 0);
    exec_err = vf_range(1, 100);
    VF_ERRNO = exec_err;
    return -1;
}
int vfr_execve(const char *p, char *const a[], char *const e[]) { VF_ASSERT(!IS_P, "execlp and execvp search PATH"); return at_exec(p, a, e); }
int vfr_execv(const char *p, char *const a[]) { VF_ASSERT(!IS_P, "execlp and execvp search PATH"); return at_exec(p, a, vf_environ); }
int vfr_execvp(const char *p, char *const a[]) { VF_ASSERT(IS_P, "only execlp and execvp search PATH"); return at_exec(p, a, vf_environ); }

#define A(k) (char *)&arg[k]
/* FN 0 or 2 with k arguments, a NULL, and for execle the environment; what lies
   beyond is not to be looked at */
#define END (char *)NULL, envv, &arg[0], &arg[0]
#define CALL(f, ...) f(the_file, __VA_ARGS__)
static int call(int k)
{
    int i;
    for (i = 0; i < k; i++)
	argv_[i] = A(i);
    argv_[k] = NULL;
    nargs = k;
#if FN == 3
    return vf_execv(the_file, argv_);
#elif FN == 4
    return vf_execvp(the_file, argv_);
#elif FN == 5
    return vf_execve(the_file, argv_, envv);
#else
#if FN == 0
#define F vf_execl
#elif FN == 1
#define F vf_execlp
#else
#define F vf_execle
#endif
    if (k == 0) return F(the_file, END);
    if (k == 1) return F(the_file, A(0), END);
    if (k == 2) return F(the_file, A(0), A(1), END);
    if (k == 3) return F(the_file, A(0), A(1), A(2), END);
    if (k == 4) return F(the_file, A(0), A(1), A(2), A(3), END);
    if (k == 5) return F(the_file, A(0), A(1), A(2), A(3), A(4), END);
    if (k == 6) return F(the_file, A(0), A(1), A(2), A(3), A(4), A(5), END);
    if (k == 7) return F(the_file, A(0), A(1), A(2), A(3), A(4), A(5), A(6), END);
    if (k == 8) return F(the_file, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), END);
    return F(the_file, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), END);
#endif
}
static void after(int r)
{
    VF_ASSERT(execs == 1, "the system's exec is tried in any case");
    VF_ASSERT(r == -1, "a failed exec returns -1");
    VF_ASSERT(VF_ERRNO == exec_err, "a failed exec leaves its errno");
    if (!executable) {
	VF_ASSERT(n_fini == 0, "no fini_process when the file cannot be executed");
	VF_WITNESS("not executable");
    } else
	VF_WITNESS("exec failed");
    if (!executable) how = MONITOR_EXIT_NORMAL;
    going = 1;
    vf_exit(3);
}
static int app_main(int c, char **v, char **e)
{
    how = MONITOR_EXIT_EXEC;
#ifdef PATHLEN
    {
	int i;
	for (i = 0; i < PATHLEN; i++) path_[i] = (char)vf_nd();
	for (i = 0; i < FILELEN; i++) file_[i] = (char)vf_nd();
	for (i = 0; i < XLEN; i++) x_[i] = (char)vf_nd();
#ifdef UNSET
	vf_env_path = NULL;
#else
	vf_env_path = path_;
#endif
	executable = search();
#ifndef UNSET
	if (executable) VF_WITNESS("found");
#endif
	after(call(1));
    }
#else
    executable = vf_bool();
    VF_EACH(k, 0, NARG) {
	after(call(k));
	VF_STOP();
    }
    VF_STOP();
#endif
    return 0;
}
void vf_final(int kind, long val)
{
    if (going) {
	VF_ASSERT(kind == VF_END_EXIT && val == 3, "the process goes on after a failed exec");
	VF_ASSERT(n_begin == 1 && n_fini == 1 && n_finilib <= 1, "fini_process exactly once in the end");
    } else {
	VF_ASSERT(kind == VF_END_EXEC && execs == 1, "the program is replaced");
#if !defined PATHLEN || !defined UNSET
	VF_WITNESS("exec");
#endif
    }
}
void vf_harness(void)
{
    vf_print_clobbers = 1;
    vf_environ = envv;
    if (vf_bool()) vf_env_debug = "1";
    boot();
}
