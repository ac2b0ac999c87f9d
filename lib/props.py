"""Which harnesses decide which property, in which configurations and bounds."""
from vf import Unit, decide

COMMON = [
    "the C library and the kernel behave as modelled in model/env.c (nondeterministic within their documented contracts)",
    "configuration of model/config.h: all features on, x86-64, GNU atomics",
    "sigset_t is modelled with the one word (64 signals) that the kernel uses",
]


class Prop:
    def __init__(self, quick, thorough=None, assumptions=()):
        self.q, self.t = quick, thorough
        self.assumptions = COMMON + list(assumptions)
        self.known = []

    def units(self, tier):
        return list(self.q) + (list(self.t) if tier == "thorough" and self.t else [])

    def run(self, u, root, tier):
        return decide(u, root, tier)


PROPS = {}

PROPS["C01"] = Prop(
    [Unit("life_" + f, "life", f, what="start, end by any of 8 ways, exit repeated from an exit handler",
          bounds=["one process, one thread", "one repeated exit", "6 signals"]) for f in ("dyn", "static")],
    [Unit("life_allsig_" + f, "life", f, defs=["ALLSIGS", "WAYS_SIGNAL"], nsig=None, timeout=2400,
          what="as above, each of the 53 terminating signals") for f in ("dyn", "static")],
)

PROPS["C07"] = Prop([Unit("thr_" + f, "thr", f, tn=2) for f in ("dyn", "static")])

HOWS = ["exit", "_exit", "signal", "return", "pthread_exit"]


def shoot(who, how, f, nt=2, few=True, **kw):
    return Unit("shoot_%s_w%d_%s_%d%s" % (f, who, HOWS[how], nt, "" if few else "_full"), "shoot", f,
                defs=["NT=%d" % nt, "WHO=%d" % who, "HOW=%d" % how] + (["FEW"] if few else []), tn=2 if nt == 2 else 3, suspend=["pthread", "signal"],
                what="%d threads, the process ended by %s in thread %d" % (nt, HOWS[how], who),
                bounds=["%d application threads" % nt, "each takes its turn at the first or second poll of the exiting thread"], **kw)


PROPS["C08"] = Prop(
    [shoot(0, 0, "dyn"), shoot(1, 0, "dyn"), shoot(1, 2, "dyn"), shoot(0, 2, "dyn"), shoot(0, 4, "dyn"), shoot(1, 1, "dyn"),
     shoot(1, 0, "static")],
    [shoot(w, h, f, few=False, timeout=2400) for w in (0, 1) for h in (0, 1, 2) for f in ("dyn", "static")] +
    [shoot(1, 0, "dyn", nt=3, timeout=2400)],
)

BOTH = ("dyn", "static")
MPIS = ["mpi_%s_%s" % (a, b) for a in ("init", "init_thread", "final", "comm") for b in ("c", "f0", "f1", "f2")]

# ---- signals
PROPS["C01"].q += [shoot(1, 0, "dyn"), shoot(1, 2, "static")]
PROPS["C11"] = Prop(
    [Unit("sig_full_%d" % s, "sig", "dyn", defs=["FULL=%d" % s],
          what="signal %d: every kind of client handler and every kind of application action" % s,
          bounds=["one delivery per history", "32 signals in the modelled system"]) for s in (15, 10, 17, 20, 11)] +
    [Unit("sig_range_%d" % lo, "sig", "dyn", defs=["LO=%d" % lo, "HI=%d" % (lo + 15)], nsig=None,
          what="signals %d to %d with their default action, with and without a client handler" % (lo, lo + 15),
          bounds=["one delivery per history"]) for lo in (1, 17, 33, 49)],
    [Unit("sig_full_%d_%s" % (s, f), "sig", f, defs=["FULL=%d" % s], timeout=1500,
          what="signal %d in full" % s) for f in BOTH for s in (1, 2, 3, 4, 6, 7, 8, 12, 13, 14, 18, 19, 21, 22, 23, 28, 30)] +
    [Unit("sig_handlers_%d" % lo, "sig", "static", defs=["LO=%d" % lo, "HI=%d" % (lo + 7), "HANDLERS"], timeout=1500, nsig=None,
          what="signals %d to %d with handlers" % (lo, lo + 7)) for lo in range(1, 64, 8)],
)
def sigact(s, f):
    return Unit("sigact_%s_%d" % (f, s), "sigact", f, defs=["SIG=%d" % s] + (["SETTABLE"] if s in (1, 10, 12, 15, 17, 11, 18, 20) else []),
                what="a history of actions on signal %d" % s, bounds=["32 signals in the modelled system"])
PROPS["C12"] = Prop([sigact(s, "dyn") for s in (10, 12, 17, 9, 32, 0, 1000)] + [sigact(10, "static"), sigact(-1, "static")],
                    [sigact(s, f) for s in (1, 11, 15, 18, 19, 20, 2000000000, -2000000000) for f in BOTH])
PROPS["C13"] = Prop(
    [Unit("mask_%s_%d" % (f, s), "mask", f, defs=["CSIG=%d" % s], what="client signal %d" % s) for f in BOTH for s in (10, 14)] +
    [Unit("mask_list", "mask", "dyn", defs=["CSIG=14", "CFG=10,12"], cfg=["MONITOR_CLIENT_SIGNALS_LIST=10,12,"],
          what="signals configured as the client's")],
    [Unit("mask_%s_%d" % (f, s), "mask", f, defs=["CSIG=%d" % s], nsig=None) for f in BOTH for s in (1, 2, 17, 27, 29, 34, 50, 64)])
PROPS["C14"] = Prop(
    [Unit("shootsig_text", "shootsig", "dyn", nsig=None, what="any text in MONITOR_SHOOTDOWN_SIGNAL", bounds=["text of the length stated in the harness"])] +
    [Unit("shootsig_run_%d" % n, "shootsig", f, defs=['RUN="%d"' % n, "RUNSIG=%d" % n], what="a run with the variable set to %d" % n)
     for n, f in ((32, "dyn"), (9, "dyn"), (10, "dyn"), (16, "static"))],
    [Unit("shootsig_run_%d_t" % n, "shootsig", "static", nsig=None, defs=['RUN="%d"' % n, "RUNSIG=%d" % n]) for n in (33, 19, 34, 64, 0)])

# ---- MPI
def mpi(name, f, *defs, **kw):
    return Unit("mpi_%s_%s" % (name, f), "mpi", f, defs=list(defs), tn=2, srcs=list(__import__("vf").ALL) + MPIS + (["pmpi"] if f == "dyn" else []), **kw)
PROPS["C17"] = Prop([mpi("init", f, "INIT=0", what="MPI_Init from every entry point, nested up to 3 deep") for f in BOTH] +
                    [mpi("init_thread", f, "INIT=1", what="MPI_Init_thread from every entry point, nested up to 3 deep") for f in BOTH] +
                    [mpi("fini", f, "FINI", what="MPI_Finalize from every entry point, nested up to 3 deep") for f in BOTH])
PROPS["C18"] = Prop([mpi("rank", f, what="histories of MPI_Comm_rank, MPI_Init and monitor_set_size_rank") for f in BOTH])

# ---- exec, environment, system
EXECS = ["execl", "execlp", "execle", "execv", "execvp", "execve"]
ARGV = {"MONITOR_INIT_ARGV_SIZE": 4}


def execs(n, f, **kw):
    return Unit("exec_%s_%s" % (EXECS[n], f), "exec", f, defs=["FN=%d" % n], tune=ARGV,
                what="%s: which program, arguments and environment the system gets; end of process only if it can succeed; errno" % EXECS[n],
                bounds=["at most 6 arguments, with libmonitor's initial argument table shrunk to 4"], **kw)


def execpath(n, f, m):
    d = ["VF_PATH_MAX=%d" % m, "PATHLEN=%d" % m, "FILELEN=2", "XLEN=%d" % m]
    return Unit("path_%s_%s_%d" % (EXECS[n], f, m), "exec", f, defs=["FN=%d" % n] + d, cfg=["VF_PATH_MAX=%d" % m], bytewise=["fork"], timeout=800,
                what="%s: PATH search, any PATH and any file name" % EXECS[n],
                bounds=["PATH of up to %d bytes, file names of up to 2 bytes, PATH_MAX shrunk to %d" % (m, m)])


def execunset(f):
    return Unit("path_unset_%s" % f, "exec", f, defs=["FN=1", "VF_PATH_MAX=16", "PATHLEN=12", "FILELEN=2", "XLEN=12", "UNSET"], cfg=["VF_PATH_MAX=16"],
                bytewise=["fork"], what="PATH not set")


PROPS["C04"] = Prop([execs(n, "dyn") for n in range(6)] + [execs(n, "static") for n in (0, 4)] + [execpath(4, "dyn", 8), execunset("dyn")],
                    [execs(n, "static") for n in (1, 2, 3, 5)] + [execpath(1, "static", 8), execunset("static")])


def system(f, *d):
    return Unit("_".join(["system", f] + [x.lower().replace("=", "") for x in d]), "system", f, defs=list(d),
                what="system(): fork, wait, signals, callbacks, status and errno", bounds=["at most two interrupted waits"])


PROPS["C05"] = Prop([system("dyn"), system("dyn", "REAL"), system("dyn", "NOOVERRIDE"), system("static"), system("static", "REAL"), system("static", "NOOVERRIDE"),
                     system("dyn", "HINT=SIG_DFL", "HQUIT=h1"), system("static", "HINT=SIG_IGN", "HQUIT=SIG_DFL")])


def env(f, *d, **kw):
    return Unit("_".join(["environ", f] + [x.lower().replace("=", "") for x in d]), "environ", f, defs=list(d),
                what="the environment given to a program started by the client", **kw)


BIG = {"MONITOR_INIT_ENVIRON_SIZE": 6}
PROPS["C06"] = Prop([env("dyn"), env("dyn", "SYSTEM"), env("static", "BIG=6", tune=BIG)],
                    [env("static"), env("static", "SYSTEM"), env("dyn", "BIG=6", tune=BIG)])


def sigwait(f, n, *d):
    return Unit("_".join(["sigwait", f, ["sigwait", "sigwaitinfo", "sigtimedwait"][n]] + [x.lower().replace("=", "") for x in d]), "sigwait", f, defs=["FN=%d" % n] + list(d),
                what="signals accepted in a wait: whose they are, what the application gets")


PROPS["C15"] = Prop([sigwait("dyn", 0, "CLIENT"), sigwait("static", 1, "CLIENT"), sigwait("dyn", 2, "CLIENT"), sigwait("dyn", 1), sigwait("dyn", 0, "OUT", "N=2"), sigwait("dyn", 1, "OUT", "N=2"), sigwait("static", 2, "OUT", "N=2"), shoot(0, 0, "dyn"), shoot(1, 0, "static")],
                    [sigwait(f, n, *d) for f in BOTH for n in (0, 1, 2) for d in ((), ("CLIENT",)) if (f, n, d) not in
                     (("dyn", 0, ("CLIENT",)), ("static", 1, ("CLIENT",)), ("dyn", 2, ("CLIENT",)), ("dyn", 1, ()))])
PROPS["C16"] = Prop([Unit("dl_" + f, "dl", f, what="dlopen and dlclose") for f in BOTH])


# ---- races
RHOW = ["exit", "_exit", "signal", "return"]
RMODS = ["main", "pthread", "signal"]


def race(who, a, b, lo, hi, f="dyn", **kw):
    return Unit("race_%s_w%d_%s_%s_%d" % (f, who, RHOW[a], RHOW[b], lo), "race", f,
                defs=["WHO=%d" % who, "HOWA=%d" % a, "HOWB=%d" % b, "KLO=%d" % lo, "KHI=%d" % hi] + (["NOTLAST"] if hi < 180 else []), tn=3, unwind=hi + 30, yields=RMODS, suspend=RMODS, timeout=800,
                what="thread %d ends the process by %s and is preempted at one of its points %d to %d by another thread that does so by %s" % (who, RHOW[a], lo, hi, RHOW[b]),
                bounds=["three threads, one preemption"], **kw)


def races(who, a, b, f="dyn", **kw):
    return [race(who, a, b, 1, 59, f, **kw), race(who, a, b, 60, 180, f, **kw)]


PROPS["C02"] = Prop(sum([races(1, 0, 0), races(0, 0, 2), races(1, 2, 0), races(0, 1, 0)], []),
                    sum([races(w, a, b, f) for f in BOTH for w in (0, 1) for a in (0, 1, 2, 3) for b in (0, 1, 2) if w == 0 or a != 3], []),
                    ["a thread that exits second waits for the first; what follows that wait is not explored"])


def fork(w, f, *d):
    return Unit("_".join(["fork", f, str(w)] + [x.lower() for x in d]), "fork", f, defs=["WHERE=%d" % w] + list(d),
                what="fork or vfork, succeeding or failing, then the life of parent and child")


PROPS["C03"] = Prop([fork(w, "dyn") for w in range(8)] + [fork(w, "static") for w in range(8)] + [fork(w, "dyn", "REAL") for w in (0, 1, 6)],
                    [fork(w, "static", "REAL") for w in (0, 1, 6)])
PROPS["C09"] = Prop([Unit("ignore_dyn_%d" % w, "ignore", "dyn", defs=["WHEN=%d" % w], tn=2) for w in (0, 1, 2)] +
                    [Unit("ignore_static_1", "ignore", "static", defs=["WHEN=1"], tn=2)],
                    [Unit("ignore_%s_%d_n3" % (f, w), "ignore", f, defs=["WHEN=%d" % w, "NOPS=3"], tn=2, timeout=2400) for w in (0, 1, 2) for f in BOTH])
PROPS["C10"] = Prop([Unit("attr_" + f, "attr", f, tn=2) for f in BOTH])
PROPS["C19"] = Prop([Unit("bcast_" + f, "bcast", f, tn=2) for f in BOTH] + [Unit("bcast_exiting_" + f, "bcast", f, defs=["EXITING"], tn=2) for f in BOTH] +
                    [Unit("bcast_preempt%d" % p, "bcast", "dyn", defs=["PREEMPT=%d" % p, "PREEMPT_N=120"], tn=2, unwind=140, yields=["pthread"]) for p in (0, 2)])


def pool(x, y, f="dyn"):
    r = [(1, 100)] if x < 2 else [(1, 50), (51, 115)]
    return [Unit("pool_%s_%d%d_%d" % (f, x, y, lo), "pool", f, defs=["X=%d" % x, "Y=%d" % y, "KLO=%d" % lo, "PREEMPT_N=%d" % hi] + (["NOTLAST"] if (lo, hi) != r[-1] else []), tn=2 if y == 1 else 3, unwind=hi + 50,
                 yields=["pthread"], suspend=["pthread"], timeout=800) for lo, hi in r]


QP = [(0, 1), (0, 3), (1, 0), (1, 1), (2, 1), (2, 3)]
PROPS["C23"] = Prop(sum([pool(x, y) for x, y in QP], []),
                    sum([pool(x, y) for x in (0, 1, 2) for y in range(4) if (x, y) not in QP] + [pool(x, y, "static") for x in (0, 1, 2) for y in range(4)], []))
PROPS["C26"] = Prop([execs(n, "dyn") for n in (0, 4, 5)] + [system("dyn"), system("static")] + [fork(0, f) for f in BOTH] + [fork(1, "dyn", "REAL")])
PROPS["C20"] = Prop([Unit("fence_" + f, "fence", f, tn=2, fences=True, what="where unwinding stops: callbacks, application code, any address", bounds=["one thread besides the initial one", "the labels' order in the code is that of the text"]) for f in BOTH])
PROPS["C22"] = Prop([Unit("lookup_fork", "lookup", "dyn", defs=['HIDDEN="fork"', "HID=vf_fork"], what="a function that the ordinary lookup does not find", bounds=["5 loaded objects"]),
                     Unit("lookup_last", "lookup", "dyn", defs=['HIDDEN="fork"', "HID=vf_fork", "LAST"])])
PROPS["C24"] = Prop([Unit("query_%s_%d" % (f, w), "query", f, defs=["WHO=%d" % w], tn=2, what="every query at every callback, in main, in threads and in an unmonitored thread",
                          bounds=["three threads"]) for f in BOTH for w in (0, 1)] + [fork(w, "dyn") for w in (0, 1)] + [Unit("thr_dyn", "thr", "dyn", tn=2)])
PROPS["C25"] = Prop([Unit("real_%s_%d_%d" % (f, w, n), "real", f, defs=["WHEN=%d" % w, "FN=%d" % n], tn=2,
                          what="monitor_real_" + ["exit", "abort", "sigprocmask", "pthread_sigmask"][n]) for f in BOTH for n in range(4) for w in (0, 1, 2)
                     if f == "dyn" or w == 1] +
                    [system("dyn", "REAL"), env("dyn"), fork(0, "dyn", "REAL"), fork(1, "dyn", "REAL"), Unit("dl_dyn", "dl", "dyn")],
                    [system("static", "REAL"), env("static"), fork(6, "static", "REAL"), Unit("dl_static", "dl", "static")])


def block(w, h, f, *d):
    return Unit("_".join(["block", f, str(w), str(h)] + [x.lower() for x in d]), "block", f, defs=["WHO=%d" % w, "HOW=%d" % h] + list(d), tn=3,
                what="exit while a thread is inside a section with shootdown blocked", bounds=["three threads, the section left at one of the first four polls"])


PROPS["C21"] = Prop([block(0, 0, "dyn"), block(1, 0, "dyn"), block(0, 2, "dyn", "LATE"), block(1, 1, "static", "LATE")],
                    [block(w, h, f, *d) for f in BOTH for w in (0, 1) for h in (0, 1, 2) for d in ((), ("LATE",))
                     if (f, w, h, d) not in (("dyn", 0, 0, ()), ("dyn", 1, 0, ()), ("dyn", 0, 2, ("LATE",)), ("static", 1, 1, ("LATE",)))])


def late(m, f):
    return Unit("late_%s_%d" % (f, m), "late", f, defs=["MODE=%d" % m, "PREEMPT_N=60"], tn=3, unwind=90, yields=["pthread"], suspend=["pthread"],
                what=["a thread ends by itself during exit and takes the shootdown signal at any statement", "a thread's end preempted at any statement by the exit"][m],
                bounds=["three threads, one preemption"])


PROPS["C08"].q += [late(0, "dyn"), late(1, "dyn")]
PROPS["C08"].t += [late(0, "static"), late(1, "static")]


def early(pt, lo, f, **kw):
    return Unit("early_%s_%d_%d" % (f, pt, lo), "early", f, defs=["POINT=%d" % pt, "LO=%d" % lo, "HI=%d" % (lo + 2)], tn=2,
                what="libmonitor entered before main, " + ["before its own constructor", "between constructors and __libc_start_main", "in the program's constructors",
                                                           "in another library's and then in the program's constructors"][pt],
                bounds=["two steps before main, at most two threads and two forks", "four ways of ending"], **kw)


PROPS["C27"] = Prop([early(3, lo, "dyn") for lo in (0, 3, 6)] + [early(0, lo, "static") for lo in (0, 3, 6)],
                    [early(pt, lo, "dyn", timeout=2400) for pt in (0, 1, 2) for lo in (0, 3, 6)])
