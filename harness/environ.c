/* C06: monitor_real_execve and monitor_real_system: the environment given to
   the new program is the caller's without LD_PRELOAD. */
#ifndef LEN
#define LEN 13
#endif
#ifndef NVAR
#define NVAR 3
#endif
#define VF_OWN_EXEC
#define VF_OWN_FORK
#define VF_OWN_WAITPID
static void no(void);
#define CB_PRE_FORK() do { no(); return NULL; } while (0)
#define CB_POST_FORK(p, d) no()
#define CB_BEGIN_PROCESS_EXIT(h) no()
#define CB_FINI_PROCESS(h, d) no()
#define CB_INIT_PROCESS(a, v, d) do { if (started) no(); return NULL; } while (0)
#define CB_FINI_LIBRARY() no()
static int started;
#include "env.c"
#include "cb.h"
#include "start.h"
static void no(void) { VF_ASSERT(0, "no callback from monitor_real_execve and monitor_real_system"); }

/* flat: CBMC 6.11 misreads pointers into an array of arrays */
static char text_[NVAR * (LEN + 1)];
#define TEXT(i) (text_ + (i) * (LEN + 1))
#ifdef BIG
#define CAP (BIG + 8)
#else
#define CAP (NVAR + 1)
#endif
static char *env[CAP], *want[CAP], path[] = "/x/prog", *args[3] = { "a", "b", NULL };
static const char *cmd = "ls -l";
static int nenv, nwant, execs;
static int is_preload(const char *s)
{
    static const char name[] = "LD_PRELOAD=";
    int i;
    for (i = 0; name[i] != 0; i++)
	if (s[i] != name[i])
	    return 0;
    return 1;
}
static int same(const char *a, const char *b)
{
    int j;
    for (j = 0; j <= LEN; j++) {
	if (a[j] != b[j]) return 0;
	if (a[j] == 0) return 1;
    }
    return 0;
}
int vfr_fork(void) { vf_child(); return 0; }
int vfr_vfork(void) { return vfr_fork(); }
int vf_waitpid(int p, int *s, int o) { VF_STOP(); return 0; }
int vfr_execve(const char *p, char *const a[], char *const e[])
{
    int i;
    execs++;
    VF_ASSERT(execs == 1, "the system's execve is called once");
#ifdef SYSTEM
    VF_ASSERT(vf_strcmp(p, "/bin/sh") == 0 && vf_strcmp(a[1], "-c") == 0 && a[2] == cmd && a[3] == NULL, "the shell gets the command");
#else
    VF_ASSERT(p == path && a == args, "execve gets the program and arguments");
#endif
    VF_ASSERT(e != NULL, "there is an environment");
    for (i = 0; i < nwant; i++)
	VF_ASSERT(e[i] == want[i] || (e[i] != NULL && same(e[i], want[i])), "every variable but LD_PRELOAD is there, in order");
    VF_ASSERT(e[nwant] == NULL, "LD_PRELOAD is not there, and nothing is added");
    for (i = 0; i < nenv; i++)
	VF_ASSERT(vf_environ[i] != NULL, "the caller's own environment is not changed");
    VF_ASSERT(vf_environ[nenv] == NULL, "the caller's own environment is not changed");
#ifndef BIG
    if (nwant == NVAR) VF_WITNESS("nothing dropped");
    if (nwant == NVAR - 2) VF_WITNESS("two dropped");
#endif
    VF_WITNESS("execve");
    VF_ERRNO = E2BIG;
    return -1;
}
int vfr_execv(const char *p, char *const a[]) { return vfr_execve(p, a, vf_environ); }
int vfr_execvp(const char *p, char *const a[]) { return vfr_execve(p, a, vf_environ); }
static void act(void)
{
    vf_environ = env;
#ifdef SYSTEM
    monitor_real_system(cmd);
    VF_ASSERT(0, "the child of monitor_real_system does not return");
#else
    int r = monitor_real_execve(path, args, env);
    VF_ASSERT(execs == 1, "the system's execve is called");
    VF_ASSERT(r == -1 && VF_ERRNO == E2BIG, "a failed execve returns its error");
#endif
    VF_STOP();
}
static int app_main(int c, char **v, char **e)
{
    int i, j;
    started = 1;
#ifdef BIG
    /* around the size of the built-in array; one LD_PRELOAD somewhere */
    VF_EACH(n, BIG - 4, BIG + 5) {
	VF_EACH(where, 0, 3) {
	    int at = where == 0 ? 0 : where == 1 ? n - 1 : where == 2 ? n / 2 : n;
	    nenv = n;
	    for (i = 0; i < n; i++) {
		env[i] = i == at ? "LD_PRELOAD=x" : "A=b";
		if (i != at) want[nwant++] = env[i];
	    }
	    env[n] = NULL;
	    act();
	}
	VF_STOP();
    }
    VF_STOP();
#else
    for (i = 0; i < NVAR; i++) {
	for (j = 0; j < LEN; j++)
	    TEXT(i)[j] = (char)vf_nd();
	TEXT(i)[LEN] = 0;
    }
    nenv = NVAR;
    for (i = 0; i < NVAR; i++) {
	env[i] = TEXT(i);
	if (!is_preload(TEXT(i))) want[nwant++] = TEXT(i);
    }
    env[NVAR] = NULL;
    act();
#endif
    return 0;
}
void vf_final(int kind, long val)
{
    VF_ASSERT(kind == VF_END_UEXIT && val == 127 && execs == 1, "the child ends with status 127 when the shell cannot be run");
}
void vf_harness(void)
{
    if (vf_bool()) vf_env_debug = "1";
    vf_pagesize = 16;
    boot();
}
