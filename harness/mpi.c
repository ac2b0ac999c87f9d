/* C17, C18: MPI callbacks, and the size and rank libmonitor reports.
   Every entry point (C and Fortran spellings, and the profiling names in the
   dynamic flavour), with an MPI library that calls back into other entry
   points of itself. */
#define VF_WITH_MPI
static void cb_pre_init(void), cb_init(int *, char ***), cb_fini(void), cb_post_fini(void);
#define CB_MPI_PRE_INIT() cb_pre_init()
#define CB_INIT_MPI(c, v) cb_init(c, v)
#define CB_FINI_MPI() cb_fini()
#define CB_MPI_POST_FINI() cb_post_fini()

/* variants: 0 C, 1..3 Fortran, 4 profiling C, 5..7 profiling Fortran */
#define FORT(F) F(mpi_, , 1) F(mpi_, _, 2) F(mpi_, __, 3)
#define PFORT(F) F(pmpi_, , 5) F(pmpi_, _, 6) F(pmpi_, __, 7)
#include "vf.h"
int vf_MPI_Init(int *, char ***), vf_PMPI_Init(int *, char ***);
int vf_MPI_Init_thread(int *, char ***, int, int *), vf_PMPI_Init_thread(int *, char ***, int, int *);
int vf_MPI_Finalize(void), vf_PMPI_Finalize(void);
int vf_MPI_Comm_rank(void *, int *), vf_PMPI_Comm_rank(void *, int *);
#define D(p, s, n) void vf_##p##init##s(int *), vf_##p##init_thread##s(int *, int *, int *), vf_##p##finalize##s(int *), vf_##p##comm_rank##s(int *, int *, int *);
FORT(D) PFORT(D)
#undef D
/* the MPI library */
int vfr_MPI_Init(int *, char ***), vfr_PMPI_Init(int *, char ***);
int vfr_MPI_Init_thread(int *, char ***, int, int *), vfr_PMPI_Init_thread(int *, char ***, int, int *);
int vfr_MPI_Finalize(void), vfr_PMPI_Finalize(void);
int vfr_MPI_Comm_rank(void *, int *), vfr_PMPI_Comm_rank(void *, int *);
int vf_MPI_Comm_size(void *, int *), vf_PMPI_Comm_size(void *, int *);
#define D(p, s, n) void vfr_##p##init##s(int *), vfr_##p##init_thread##s(int *, int *, int *), vfr_##p##finalize##s(int *), vfr_##p##comm_rank##s(int *, int *, int *), vf_##p##comm_size##s(int *, int *, int *);
FORT(D) PFORT(D)
#undef D
#include "env.c"
#include "cb.h"
#include "start.h"

enum { F_INIT, F_INIT_THREAD, F_FINI, F_RANK };
static int chain[3], chainf[3], nchain, depth;	/* the nested calls of the library */
static int n_pre, n_init, n_fini, n_post, inner_done, started;
static int outer_fam, outer_var;
/* the application's arguments of the outer call */
static int a_argc, a_req, a_prov, a_ierr, a_rank, a_comm;
static char **a_argv, *a_argv_[2] = { "a", NULL };
static int ret_val, real_calls;
/* inner calls use others */
static int i_argc, i_prov, i_ierr, i_rank, i_comm;
static char **i_argv;

static void cb_pre_init(void)
{
    n_pre++;
    VF_ASSERT(n_pre == 1, "mpi_pre_init once per call of the application");
    VF_ASSERT(real_calls == 0 && n_init == 0, "mpi_pre_init comes before the MPI library");
}
static void cb_init(int *c, char ***v)
{
    n_init++;
    VF_ASSERT(n_init == 1 && n_pre == 1, "init_mpi once per call of the application, after mpi_pre_init");
    VF_ASSERT(real_calls > 0 && depth == 0, "init_mpi comes after the MPI library has finished its initialisation");
    if (outer_var % 4 == 0)
	VF_ASSERT(c == &a_argc && v == &a_argv, "init_mpi gets the arguments of MPI_Init");
    else
	VF_ASSERT(*c == 1 && *v == boot_av, "init_mpi gets main's arguments in Fortran");
}
static void cb_fini(void)
{
    n_fini++;
    VF_ASSERT(n_fini == 1 && real_calls == 0, "fini_mpi once per call of the application, before the MPI library");
}
static void cb_post_fini(void)
{
    n_post++;
    VF_ASSERT(n_post == 1 && n_fini == 1 && real_calls > 0 && depth == 0, "mpi_post_fini once, after the MPI library has finished");
}
static void call(int fam, int var, int *argc, char ***argv, int *prov, int *ierr, int *comm, int *rank, int *r)
{
    int one = a_req;
#define C(p, s, n) if (var == n) { \
	if (fam == F_INIT) vf_##p##init##s(ierr); \
	if (fam == F_INIT_THREAD) vf_##p##init_thread##s(&a_req, prov, ierr); \
	if (fam == F_FINI) vf_##p##finalize##s(ierr); \
	if (fam == F_RANK) vf_##p##comm_rank##s(comm, rank, ierr); }
    FORT(C)
#define CC(P, n) if (var == n) { \
	if (fam == F_INIT) *r = vf_##P##MPI_Init(argc, argv); \
	if (fam == F_INIT_THREAD) *r = vf_##P##MPI_Init_thread(argc, argv, one, prov); \
	if (fam == F_FINI) *r = vf_##P##MPI_Finalize(); \
	if (fam == F_RANK) *r = vf_##P##MPI_Comm_rank(comm, rank); }
    CC(, 0)
#ifndef VF_STATIC
    PFORT(C) CC(P, 4)
#endif
}
static int set_in_init;
static int real(int fam, int var, int *argc, char ***argv, int *prov, int *ierr, int *comm, int *rank)
{
    int r;
    if (depth == 0) {
	VF_ASSERT(fam == outer_fam && var == outer_var, "the call goes to the same function of the MPI library");
	if (var % 4 == 0 && fam <= F_INIT_THREAD) VF_ASSERT(argc == &a_argc && argv == &a_argv, "the MPI library gets the application's arguments");
	if (fam == F_INIT_THREAD) VF_ASSERT(prov == &a_prov, "the MPI library gets the application's arguments");
	if (var % 4 != 0) VF_ASSERT(ierr == &a_ierr, "the MPI library gets the application's ierror");
	if (fam == F_RANK) VF_ASSERT(comm == &a_comm && rank == &a_rank, "the MPI library gets the application's arguments");
    }
    real_calls++;
    if (fam <= F_INIT_THREAD) VF_ASSERT(n_pre == 1 && n_init == 0, "mpi_pre_init before, init_mpi after the MPI library");
    if (fam == F_FINI) VF_ASSERT(n_fini == 1 && n_post == 0, "fini_mpi before, mpi_post_fini after the MPI library");
    depth++;
    if (depth <= nchain) {
	int x;
	call(chainf[depth - 1], chain[depth - 1], &i_argc, &i_argv, &i_prov, &i_ierr, &i_comm, &i_rank, &x);
    }
    depth--;
    if (fam == F_RANK) *rank = depth == 0 ? a_comm + 1 : 7777;
    if (ierr != NULL) *ierr = ret_val;
    if (fam == F_INIT_THREAD) *prov = 3;
    return ret_val;
}
#define RC(P, n) \
    int vfr_##P##MPI_Init(int *c, char ***v) { return real(F_INIT, n, c, v, NULL, NULL, NULL, NULL); } \
    int vfr_##P##MPI_Init_thread(int *c, char ***v, int q, int *p) { VF_ASSERT(depth > 0 || q == a_req, "the MPI library gets the application's arguments"); return real(F_INIT_THREAD, n, c, v, p, NULL, NULL, NULL); } \
    int vfr_##P##MPI_Finalize(void) { return real(F_FINI, n, NULL, NULL, NULL, NULL, NULL, NULL); } \
    int vfr_##P##MPI_Comm_rank(void *c, int *r) { return real(F_RANK, n, NULL, NULL, NULL, NULL, c, r); } \
    int vf_##P##MPI_Comm_size(void *c, int *s) { *s = *(int *)c + 100; return ret_val; }
RC(, 0) RC(P, 4)
#define R(p, s, n) \
    void vfr_##p##init##s(int *e) { real(F_INIT, n, NULL, NULL, NULL, e, NULL, NULL); } \
    void vfr_##p##init_thread##s(int *q, int *pr, int *e) { VF_ASSERT(depth > 0 || q == &a_req, "the MPI library gets the application's arguments"); real(F_INIT_THREAD, n, NULL, NULL, pr, e, NULL, NULL); } \
    void vfr_##p##finalize##s(int *e) { real(F_FINI, n, NULL, NULL, NULL, e, NULL, NULL); } \
    void vfr_##p##comm_rank##s(int *c, int *r, int *e) { real(F_RANK, n, NULL, NULL, NULL, e, c, r); } \
    void vf_##p##comm_size##s(int *c, int *s_, int *e) { *s_ = *c + 100; *e = ret_val; }
FORT(R) PFORT(R)

static int r_out;
static void outer(int fam, int var)
{
    n_pre = n_init = n_fini = n_post = real_calls = depth = 0;
    outer_fam = fam; outer_var = var;
    ret_val = vf_range(0, 3);
    a_ierr = 99;
    r_out = 98;
    call(fam, var, &a_argc, &a_argv, &a_prov, &a_ierr, &a_comm, &a_rank, &r_out);
    VF_ASSERT(n_pre == (fam <= F_INIT_THREAD) && n_init == (fam <= F_INIT_THREAD), "mpi_pre_init and init_mpi exactly once per MPI_Init, and only then");
    VF_ASSERT(n_fini == (fam == F_FINI) && n_post == (fam == F_FINI), "fini_mpi and mpi_post_fini exactly once per MPI_Finalize, and only then");
    VF_ASSERT(real_calls == 1 + nchain, "the MPI library's function is called once");
    if (var % 4 == 0) VF_ASSERT(r_out == ret_val, "the application gets the MPI library's result");
    else VF_ASSERT(a_ierr == ret_val, "the application gets the MPI library's error code");
    if (fam == F_RANK) VF_ASSERT(a_rank == a_comm + 1, "the application gets its rank");
}
#ifdef VF_STATIC
#define LASTVAR 3
#else
#define LASTVAR 7
#endif
void vf_final(int kind, long val) { VF_ASSERT(0, "the process goes on"); }

#if defined INIT
/* all initialisations, nested up to three deep */
static void rest(int v0)
{
    outer(INIT, v0);
    VF_ASSERT(monitor_mpi_comm_size() == -1 && monitor_mpi_comm_rank() == -1, "no size and rank before the application asks MPI for them");
    /* a second time: again exactly one callback of each */
    nchain = 0;
    outer(INIT, v0);
    VF_WITNESS("initialised twice");
    VF_STOP();
}
static void go(void)
{
    VF_EACH(v0, 0, LASTVAR) {
	VF_EACH(v1, 0, 5) {
	    nchain = v1 > 0;
	    chainf[0] = v1 == 3 || v1 == 4 ? F_INIT_THREAD : v1 == 5 ? F_RANK : F_INIT;
	    chain[0] = v1 == 1 || v1 == 3 || v1 == 5 ? 0 : LASTVAR == 7 ? 4 : 2;
	    if (v1 == 0) { rest(v0); VF_STOP(); }
	    VF_EACH(v2, 0, 2) {
		nchain = 1 + (v2 > 0);
		chainf[1] = v2 == 2 ? F_RANK : F_INIT_THREAD;
		chain[1] = LASTVAR == 7 ? 4 : 0;
		rest(v0);
		VF_STOP();
	    }
	    VF_STOP();
	}
	VF_STOP();
    }
}
#elif defined FINI
static void go(void)
{
    VF_EACH(v0, 0, LASTVAR) {
	VF_EACH(v1, 0, 2) {
	    nchain = v1 > 0;
	    chainf[0] = chainf[1] = F_FINI;
	    chain[0] = v1 == 1 ? 0 : LASTVAR == 7 ? 4 : 2;
	    chain[1] = LASTVAR == 7 ? 4 : 0;
	    VF_EACH(v2, 0, 1) {
		if (v1 == 0 && v2) VF_STOP();
		nchain += v2;
		outer(F_FINI, v0);
		VF_WITNESS("finalised");
		VF_STOP();
	    }
	    VF_STOP();
	}
	VF_STOP();
    }
}
#else
/* the first rank asked for after initialisation counts, or what the client set before */
static int want_size = -1, want_rank = -1;
static void check(void)
{
    VF_ASSERT(monitor_mpi_comm_size() == want_size && monitor_mpi_comm_rank() == want_rank, "size and rank are those of the first communicator asked for after MPI_Init");
}
static void ask(int v)
{
    a_comm = vf_range(0, 50);
    outer(F_RANK, v);
}
static void go(void)
{
    VF_EACH(v0, 0, LASTVAR) {
	VF_EACH(k, 0, 4) {
	    int s = vf_range(0, 1000), r = vf_range(0, 1000);
	    check();
	    if (k == 1 || k == 3) { ask(v0); check(); }		/* before MPI_Init: does not count */
	    if (k == 2) { monitor_set_size_rank(s, r); want_size = s; want_rank = r; check(); }
	    /* an MPI_Init that asks for a rank itself: does not count */
	    nchain = k != 4; chainf[0] = F_RANK; chain[0] = 0;
	    outer(k & 1 ? F_INIT : F_INIT_THREAD, v0);
	    check();
	    nchain = 0;
	    if (k == 3) { monitor_set_size_rank(s, r); want_size = s; want_rank = r; check(); }
	    ask(v0);
	    if (k != 2 && k != 3) { want_size = a_comm + 100; want_rank = a_comm + 1; }
	    check();
	    ask((v0 + 1) & LASTVAR);
	    check();
	    ask(v0);
	    check();
	    monitor_set_size_rank(s + 1, r + 1);
	    check();
	    outer(F_FINI, v0);
	    check();
	    if (k == 0) VF_WITNESS("first rank");
	    if (k == 3) VF_WITNESS("set by the client");
	    VF_STOP();
	}
	VF_STOP();
    }
}
#endif
static int app_main(int c, char **v, char **e)
{
    a_req = vf_range(0, 3);
    a_argv = a_argv_;
    go();
    VF_STOP();
    return 0;
}
void vf_harness(void) { boot(); }
