/* C16: dlopen and dlclose, nested through the constructors and destructors of
   the loaded libraries, and the client's direct access. */
#ifndef DEPTH
#define DEPTH 3
#endif
struct call { int close, flags, ret, phase; const char *path; void *handle; };
static struct call st[DEPTH + 1];
static int top, direct, ncb, ncb0;
static void cb(int phase, int close, const char *path, int flags, void *handle, int ret);
#define CB_PRE_DLOPEN(p, f) cb(1, 0, p, f, NULL, 0)
#define CB_DLOPEN(p, f, h) cb(3, 0, p, f, h, 0)
#define CB_DLCLOSE(h) cb(1, 1, NULL, 0, h, 0)
#define CB_POST_DLCLOSE(h, r) cb(3, 1, NULL, 0, h, r)
#define VF_OWN_DL
#include "env.c"
#include "cb.h"
#include "start.h"
int vf_dladdr(const void *a, Dl_info *i) { return 0; }
int vf_dl_iterate_phdr(int (*cb)(void *, size_t, void *), void *d) { return 0; }

static void cb(int phase, int close, const char *path, int flags, void *handle, int ret)
{
    struct call *c = &st[top];
    ncb++;
    VF_ASSERT(!direct, "monitor_real_dlopen and monitor_real_dlclose give no callback");
    VF_ASSERT(top > 0 && c->close == close, "a callback only for a call in progress, of its own kind");
    VF_ASSERT(c->phase == phase - 1, "one callback before and one after the system's call");
    c->phase = phase;
    if (close) {
	VF_ASSERT(handle == c->handle, "dlclose callbacks get the application's handle");
	if (phase == 3) VF_ASSERT(ret == c->ret, "post_dlclose gets the system's result");
    } else {
	VF_ASSERT(path == c->path && flags == c->flags, "dlopen callbacks get the application's arguments");
	if (phase == 3) VF_ASSERT(handle == c->handle, "the dlopen callback gets the system's handle");
    }
    VF_ERRNO = (int)(vf_nd() & 0x7f);
}
static void call(void);
static void *real_open(const char *p, int f)
{
    struct call *c = &st[top];
    VF_ASSERT(top > 0 && !c->close && c->phase == (direct ? 0 : 1), "the system's dlopen once per dlopen, after pre_dlopen");
    VF_ASSERT(p == c->path && f == c->flags, "the system's dlopen gets the application's arguments");
    c->phase = 2;
    if (!direct && top < DEPTH && vf_bool()) call();	/* a constructor */
    c->handle = vf_cookie();
    return c->handle;
}
static int real_close(void *h)
{
    struct call *c = &st[top];
    VF_ASSERT(top > 0 && c->close && c->phase == (direct ? 0 : 1), "the system's dlclose once per dlclose, after its callback");
    VF_ASSERT(h == c->handle, "the system's dlclose gets the application's handle");
    c->phase = 2;
    if (!direct && top < DEPTH && vf_bool()) call();	/* a destructor */
    c->ret = (int)vf_nd();
    return c->ret;
}
void *vfr_dlopen(const char *p, int f) { return real_open(p, f); }
int vfr_dlclose(void *h) { return real_close(h); }
static char pathbuf[4];
static void call(void)
{
    struct call *c = &st[++top];
    void *r; int s;
    c->close = vf_bool();
    c->phase = 0;
    c->flags = (int)vf_nd();
    c->path = vf_bool() ? pathbuf : NULL;
    c->handle = vf_cookie();
    if (c->close) {
	s = vf_dlclose(c->handle);
	VF_ASSERT(s == c->ret, "dlclose returns the system's result");
    } else {
	r = vf_dlopen(c->path, c->flags);
	VF_ASSERT(r == c->handle, "dlopen returns the system's handle");
    }
    VF_ASSERT(c->phase == 3, "both callbacks have run");
    if (top == DEPTH) VF_WITNESS("deepest nesting");
    top--;
}
static void real(void)
{
    struct call *c = &st[++top];
    int n = ncb;
    direct = 1;
    c->close = vf_bool();
    c->phase = 0;
    c->flags = (int)vf_nd();
    c->path = vf_bool() ? pathbuf : NULL;
    c->handle = vf_cookie();
    if (c->close) {
	int s = monitor_real_dlclose(c->handle);
	VF_ASSERT(s == c->ret, "monitor_real_dlclose returns the system's result");
    } else {
	void *r = monitor_real_dlopen(c->path, c->flags);
	VF_ASSERT(r == c->handle, "monitor_real_dlopen returns the system's handle");
    }
    VF_ASSERT(c->phase == 2 && ncb == n, "monitor_real_dlopen and monitor_real_dlclose reach the system and give no callback");
    top--;
    direct = 0;
    VF_WITNESS("direct access");
}
static int app_main(int c, char **v, char **e)
{
    VF_ASSERT(ncb == ncb0, "no dlopen callback without a dlopen");
    if (vf_bool()) real();
    call();
    if (vf_bool()) real(); else call();
    VF_WITNESS("two calls");
    VF_STOP();
    return 0;
}
void vf_final(int kind, long val) { }
void vf_harness(void)
{
    if (vf_bool()) vf_env_debug = "1";
    if (vf_bool()) real();		/* before libmonitor has been initialised */
    else if (vf_bool()) call();
    ncb0 = ncb;
    boot();
}
