/* C10: stack size and attributes.  Any application attributes or none, any
   answer of monitor_reset_stacksize, any failing attribute function, creation
   succeeding or failing, monitored or ignored. */
#define VF_NTHR 2
static unsigned long cl_reset(unsigned long old);
static void *cl_pre(void);
#define CB_RESET_STACKSIZE(old) return cl_reset(old)
#define CB_PRE_CREATE() return cl_pre()
#define VF_OWN_ATTR
#define VF_OWN_PTHREAD_CREATE
#include "env.c"
#include "cb.h"
#include "start.h"
#define NW 7
struct { pthread_attr_t a; } app;
static u64 app0[NW], def0[NW];
static int use, init_fails, get_fails, set_fails, n_init, n_destroy, n_reset, n_create, ign, create_ret, asked, set_refused;
static pthread_attr_t *inited;
static size_t want, old;
static pthread_t *id_arg, id;
static char pre_obj;

static void *cl_pre(void) { return ign == 2 ? MONITOR_IGNORE_NEW_THREAD : &pre_obj; }
static int accept(size_t s) { return s >= 16384; }
static u64 *W(const pthread_attr_t *a) { return (u64 *)a; }
int vf_pthread_attr_init(pthread_attr_t *a)
{
    int i;
    VF_ASSERT(a != &app.a, "the application's attributes are not initialised again");
    if (init_fails) return ENOMEM;
    VF_ASSERT(n_init == 0, "default attributes are initialised once");
    n_init++;
    inited = a;
    for (i = 0; i < NW; i++) W(a)[i] = def0[i];
    return 0;
}
int vf_pthread_attr_destroy(pthread_attr_t *a)
{
    VF_ASSERT(a != &app.a, "the application's attributes are not destroyed");
    VF_ASSERT(n_init == 1 && a == inited && n_create == 1, "default attributes are destroyed after use");
    n_destroy++;
    VF_ASSERT(n_destroy == 1, "default attributes are destroyed once");
    return 0;
}
int vf_pthread_attr_getstacksize(const pthread_attr_t *a, size_t *s)
{
    VF_ASSERT(a == &app.a ? use : n_init == 1 && a == inited && !n_destroy, "only valid attributes are looked at");
    if (get_fails) return EINVAL;
    *s = W(a)[0];
    return 0;
}
int vf_pthread_attr_setstacksize(pthread_attr_t *a, size_t s)
{
    VF_ASSERT(a == &app.a ? use : n_init == 1 && a == inited && !n_destroy, "only valid attributes are changed");
    if (n_create == 0 && set_fails) { set_refused = 1; return EINVAL; }
    if (!accept(s)) { set_refused = 1; return EINVAL; }
    W(a)[0] = s;
    return 0;
}
static unsigned long cl_reset(unsigned long o)
{
    n_reset++;
    VF_ASSERT(n_reset == 1 && !ign && n_create == 0, "reset_stacksize once per monitored thread, before it is created");
    VF_ASSERT(o == (use ? app0[0] : def0[0]), "reset_stacksize gets the application's or the default size");
    return want;
}
static void *start(void *a) { return a; }
int vfr_pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*st)(void *), void *arg)
{
    u64 *ref = use ? app0 : def0;
    size_t expect;
    int i;
    n_create++;
    VF_ASSERT(n_create == 1 && p == id_arg, "one creation, for the application's id");
    if (ign) {
	VF_ASSERT(a == (use ? &app.a : NULL) && st == start && arg == &pre_obj, "an ignored thread is created just as asked for");
	VF_ASSERT(n_reset == 0, "no reset_stacksize for an ignored thread");
    }
    expect = ref[0];
    if (n_reset && want != ref[0] && accept(want) && !set_fails) {
	expect = want;
	VF_WITNESS("changed size");
    }
    if (a == NULL) VF_ASSERT(!use && expect == def0[0], "default attributes only if the application gave none");
    else {
	VF_ASSERT(a == &app.a ? use : n_init == 1 && a == inited && !n_destroy, "the creation gets valid attributes");
	VF_ASSERT(W(a)[0] == expect, "the thread's stack size is the client's choice, or the application's if that cannot be had");
	for (i = 1; i < NW; i++) VF_ASSERT(W(a)[i] == ref[i], "the other attributes are the application's");
    }
    if (!ign && !get_fails && (use || !init_fails)) VF_ASSERT(n_reset == 1, "reset_stacksize is asked");
    *p = 0x7001;
    return create_ret;
}
static int app_main(int c, char **v, char **e)
{
    int i, r;
    for (i = 0; i < NW; i++) { app0[i] = vf_nd(); def0[i] = vf_nd(); W(&app.a)[i] = app0[i]; }
    VF_ASSUME(accept(app0[0]) && accept(def0[0]));
    want = vf_nd();
    init_fails = vf_bool(); get_fails = vf_bool(); set_fails = vf_bool();
    create_ret = vf_range(0, 100);
    id_arg = &id;
    VF_EACH(k, 0, 5) {
	use = k & 1;
	ign = k >> 1;
	if (ign == 1) monitor_disable_new_threads();
	r = vf_pthread_create(&id, use ? &app.a : NULL, start, &pre_obj);
	VF_ASSERT(n_create == 1, "the thread is created");
	VF_ASSERT(r == create_ret, "pthread_create returns the system's result");
	for (i = 0; i < NW; i++) VF_ASSERT(W(&app.a)[i] == app0[i], "the application's attributes are as before");
	VF_ASSERT(n_destroy == n_init, "default attributes that were initialised are destroyed");
	VF_WITNESS("created");
	VF_STOP();
    }
    VF_STOP();
    return 0;
}
void vf_final(int kind, long val) { VF_ASSERT(0, "the process does not end"); }
void vf_harness(void) { boot(); }
