/* C22: finding the system's functions (dynamic case).  The lookup of one name,
   HIDDEN (of function HID), in the objects after libmonitor fails, as for a library that was
   loaded with RTLD_LOCAL.  Five objects are loaded, libmonitor is the third
   (or, LAST, the last); each may or may not be available by name and have the symbol. */
#define VF_NTHR 2
static void cb(void);
#define CB_PRE_DLOPEN(p, f) cb()
#define CB_DLOPEN(p, f, h) cb()
#define CB_DLCLOSE(h) cb()
#define CB_POST_DLCLOSE(h, r) cb()
#define CB_PRE_FORK() do { return NULL; } while (0)
#define VF_OWN_DLSYM
#define VF_OWN_DL
#define VF_OWN_FORK
#include "env.c"
#include <link.h>
#include "cb.h"
#include "start.h"
#define NOBJ 5
#ifdef LAST
#define SELF 4
#else
#define SELF 2
#endif
static char base[NOBJ], handle[NOBJ];
static const char *const name[NOBJ] = { "", "c.so", "m.so", "x.so", "y.so" };
enum { O_ABSENT, O_NOSYM, O_SYM };
static int obj[NOBJ], open_n[NOBJ], looked, called, which, dlerr;
static void cb(void) { VF_ASSERT(0, "libmonitor's own lookups give the client no dlopen or dlclose callback"); }
int vf_dladdr(const void *a, Dl_info *i)
{
    memset(i, 0, sizeof(Dl_info));
    i->dli_fname = name[SELF];
    i->dli_fbase = &base[SELF];
    return 1;
}
int vf_dl_iterate_phdr(int (*f)(void *, size_t, void *), void *d)
{
    struct dl_phdr_info info;
    int i, r;
    memset(&info, 0, sizeof(info));
    for (i = 0; i < NOBJ; i++) {
	info.dlpi_addr = (ElfW(Addr))&base[i];
	info.dlpi_name = name[i];
	r = (*f)(&info, sizeof(info), d);
	if (r != 0) return r;
    }
    return 0;
}
void *vfr_dlopen(const char *p, int f)
{
    int i;
    for (i = 0; i < NOBJ; i++)
	if (p == name[i]) {
	    VF_ASSERT(f & RTLD_NOLOAD, "the lookup loads nothing");
	    if (obj[i] == O_ABSENT) { dlerr = 1; return NULL; }
	    open_n[i]++;
	    return &handle[i];
	}
    VF_ASSERT(0, "only loaded objects are looked at");
    return NULL;
}
int vfr_dlclose(void *h)
{
    int i;
    for (i = 0; i < NOBJ; i++)
	if (h == &handle[i]) {
	    VF_ASSERT(open_n[i] > 0, "a handle is closed once");
	    open_n[i]--;
	    return 0;
	}
    VF_ASSERT(0, "only handles of open objects are closed");
    return -1;
}
static int fork1(void) { which = 1; called++; return 77; }
static int fork3(void) { which = 3; called++; return 77; }
static int fork4(void) { which = 4; called++; return 77; }
int vfr_fork(void) { which = 99; called++; return 77; }
int vfr_vfork(void) { return vfr_fork(); }
char *vf_dlerror(void) { int e = dlerr; dlerr = 0; return e ? (char *)"undefined symbol" : NULL; }
static int is_hidden(const char *n)
{
    const char *h = HIDDEN;
    int i;
    for (i = 0; n[i] == h[i]; i++) if (h[i] == 0) return 1;
    return 0;
}
void *vf_dlsym(void *h, const char *n)
{
    unsigned x = 5381;
    size_t i;
    if (h == RTLD_NEXT) {
	if (is_hidden(n)) { looked++; dlerr = 1; return NULL; }
	for (i = 0; n[i] != 0; i++)
	    x = x * 33 + (unsigned char)n[i];
	switch (x) {
#include "dlsym_tab.h"
	}
	dlerr = 1;
	return NULL;
    }
    for (i = 0; i < NOBJ; i++)
	if (h == &handle[i]) {
	    VF_ASSERT(open_n[i] > 0, "lookups in open objects only");
	    VF_ASSERT(is_hidden(n), "the name itself is looked up");
	    if (obj[i] == O_SYM) return i == 1 ? (void *)fork1 : i == 3 ? (void *)fork3 : (void *)fork4;
	    dlerr = 1;
	    return NULL;
	}
    VF_ASSERT(0, "lookups in open objects only");
    return NULL;
}
/* the first object after libmonitor that has it */
static int expected(void)
{
    int i;
    for (i = SELF + 1; i < NOBJ; i++) if (obj[i] == O_SYM) return i;
    return -1;
}
static int app_main(int c, char **v, char **e)
{
    int r, i;
    r = HID();
    VF_ASSERT(looked > 0, "harness");
    VF_ASSERT(expected() >= 0, "a program is not run with a function missing");
    VF_ASSERT(called == 1 && which == expected() && r == 77, "the function of that name in the first object after libmonitor is called");
    for (i = 0; i < NOBJ; i++) VF_ASSERT(open_n[i] == 0, "lookups leave the objects' use counts as they were");
#ifndef LAST
    VF_WITNESS("found");
#endif
    VF_STOP();
    return 0;
}
void vf_final(int kind, long val)
{
    VF_ASSERT(kind == VF_END_ERRX && expected() < 0 && called == 0, "the program stops with an error exactly if the function is missing");
    VF_WITNESS("missing");
}
void vf_harness(void)
{
    if (vf_bool()) vf_env_debug = NULL;
    VF_EACH(a, 0, 2) {
	VF_EACH(b, 0, 2) {
	    obj[0] = O_SYM;
	    obj[1] = O_SYM;
	    obj[2] = O_SYM;
	    obj[SELF] = O_SYM;
	    if (SELF == 2) { obj[3] = a; obj[4] = b; } else { obj[1] = a; obj[2] = b; obj[3] = O_SYM; }
	    boot();
	}
    }
}
