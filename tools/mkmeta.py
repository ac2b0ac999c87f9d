#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property
is claimed when lib/props.py has units for it."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
import props

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


CB = ["the client's callbacks (monitor.h) and the calls that reach the system's own functions"]

p("C01", "Each process gets init once and fini once, in order",
  "However a process ends - exit, _exit, _Exit, returning from main, pthread_exit of main, a fatal signal - the client sees "
  "init_library, start_main_init, init_process (with main's argc and argv), at_main, then begin_process_exit and fini_process exactly once with the "
  "matching exit kind and the pointer that init_process returned, and fini_library only after that. A further exit from an exit handler repeats none of it, and the process "
  "still ends the way and with the status the application asked for.",
  ["histories", "inputs"], "every way of ending, every status, every client return value, an exit repeated in an exit handler, both link flavours",
  "the tests run a few endings with one client and look at printed text; the order and the exactly-once claims over all endings, and repeated exits, are never sampled together",
  ["main.c", "common.h"], [("begin/end process functions", "main.c"), ("exit, _exit, _Exit overrides", "main.c"), ("library destructor", "main.c")], CB)

p("C02", "Racing exits: one fini_process, and it sees all threads done",
  "When two threads end the process at the same time by any mix of exit, _exit, return from main and fatal signals, begin_process_exit and fini_process still run exactly once, both in the thread that was first and with its kind of exit, "
  "after every other monitored thread - the second to exit included, even if inside a signal handler - has had its fini_thread exactly once with its own data; fini_library runs at most once and after that; the wait for the other threads ends, and the process ends.",
  ["schedules", "histories"], "three threads; one exits and is preempted once, at any statement of the exit path, by a second that exits too",
  "tests cannot choose the preemption point; the windows are a few instructions wide",
  ["main.c", "pthread.c"], [("exit arbitration", "main.c")], CB)

p("C03", "fork: callbacks around it, a fresh process life in the child",
  "Around every fork or vfork the client gets pre_fork before and post_fork after in the parent (with the child's pid and pre_fork's pointer), also when the fork fails; the child gets its own init_process with pre_fork's pointer, and later its "
  "own fini_process, whatever state the parent was in when it forked, once and with what that init_process returned, if the child ends by exit, _exit, exec, a fatal signal or pthread_exit, also after creating threads of its own. "
  "No other callback of the parent's is repeated in the child. The application sees fork's own result, and errno when it fails. monitor_real_fork gives no callbacks and leaves the child as it is.",
  ["histories", "inputs"], "fork and vfork, success and failure, in parent and child, from the main thread, another thread, an exit handler of either, or another thread while the process is exiting, followed by any of seven endings of the child",
  "the tests fork once from main and do not fork while exiting or from threads",
  ["fork.c", "main.c", "pthread.c"], [("fork and vfork overrides", "fork.c"), ("child's process start", "main.c")], CB)

p("C04", "exec family: arguments unchanged, fini_process iff it will exec",
  "Each of the six exec functions hands the system's exec the same program, argument list (also an empty or long one) and environment the application gave; "
  "begin_process_exit and fini_process(EXEC), with init_process's pointer, run once before the exec if the file can be executed - for execlp and execvp: found by the system's PATH rules, with PATH unset, empty components and components that are too long included - "
  "and not at all if it cannot. In either case the system's exec is tried exactly once, and when it fails the application gets -1 with that call's errno whatever callbacks and messages did to errno; a process that was not finished by it stays monitored and gets its fini_process at its real end.",
  ["inputs"], "any argument lists, PATH texts and file names within the stated sizes, the file executable or not, the exec succeeding or failing with any errno, debug output on or off",
  "the tests exec a handful of fixed commands with few arguments; PATH corner cases, long lists and failing execs are not run",
  ["fork.c"], [("exec overrides", "fork.c"), ("variable argument copying", "fork.c"), ("executable test", "fork.c")], CB)

p("C05", "system(): same result and signal discipline as the C library's",
  "system() executes /bin/sh -c command in one child that has the signal mask and actions the caller had and the caller's environment (status 127 if that fails, without exit callbacks); in the parent pre_fork runs before and post_fork after with the child's pid and pre_fork's pointer; "
  "while waiting SIGINT and SIGQUIT are ignored and SIGCHLD is blocked in the parent; interrupted waits are restarted; on every way out mask and actions are as before. The result is the child's wait status, -1 with errno when the fork or the wait fails, and for a NULL command whether there is a shell. "
  "monitor_real_system does the same without callbacks; with MONITOR_NO_SYSTEM_OVERRIDE set the system's own function is used, without callbacks.",
  ["inputs", "fault_sequences"], "any wait status, failing fork, failing or interrupted wait, any signal mask and several kinds of actions before",
  "the tests run a few commands that succeed",
  ["fork.c"], [("system override", "fork.c")], CB)

p("C06", "monitor_real_execve/system drop only libmonitor's own preload",
  "A command started through monitor_real_execve or monitor_real_system gets the given environment with LD_PRELOAD removed, so that it is not monitored, and every other variable present, unchanged and in order; no callback runs.",
  ["inputs"], "any environment within the stated sizes",
  "environment contents are unbounded; the tests use the caller's own",
  ["fork.c"], [("environment copying", "fork.c")], ["the environment passed to the system's execve"])

p("C07", "Each thread gets init once and fini once, with its own data",
  "For each application thread the client sees thread_pre_create and thread_post_create with the same pointer in the creator, init_thread with a positive thread number no live thread shares and that pointer, and fini_thread exactly "
  "once with init_thread's result, whether the thread returns, calls pthread_exit or is cancelled; main gets its own. The start routine gets its argument, and its result and a failed creation's error code reach the application.",
  ["histories", "inputs"], "histories of two threads, creation failing or not, nested, every way of ending, every client pointer",
  "the tests look at a few orderly runs",
  ["pthread.c"], [("pthread_create override and thread wrapper", "pthread.c"), ("thread ends", "pthread.c")], CB)

p("C08", "Process exit shoots down every live thread, then fini_process",
  "When the process ends by exit, _exit, return, a fatal signal or the last pthread_exit, every other thread that got init_thread and is executing its start routine or ending gets fini_thread exactly once and before fini_process, wherever it was executing - even with all signals blocked by the application, though not in the middle of a signal handler - and "
  "threads without init_thread get none; a thread that does not respond delays the exit by a bounded time only.",
  ["schedules", "histories"], "two or three threads in any of the states of the harness, each taking its turn at any poll of the exiting thread",
  "needs particular thread states at the moment of exit",
  ["main.c", "pthread.c"], [("thread shootdown", "pthread.c"), ("exit path", "main.c")], CB)

p("C09", "Ignored threads get no callbacks; creation info is the thread's own",
  "A thread created with monitor_disable_new_threads in force, or for which thread_pre_create answered MONITOR_IGNORE_NEW_THREAD, gets no init_thread, fini_thread or post_create and otherwise behaves the same; every other thread does. "
  "monitor_get_new_thread_info answers only inside the callbacks of a creation, and then for that creation.",
  ["histories"], "histories of creations with monitoring disabled, enabled or refused per thread",
  "the tests do not combine these",
  ["pthread.c"], [("pthread_create override", "pthread.c")], CB)

p("C10", "Stack size: adjusted as the client asks, application's attr untouched",
  "The thread is created with the stack size monitor_reset_stacksize chose from the application's (or the default) size, every other attribute kept; the application's attribute object is as before once pthread_create returns, on success and failure.",
  ["inputs", "fault_sequences"], "any sizes, no or any attributes, any failure of the attribute functions or of the creation",
  "the tests use one size",
  ["pthread.c"], [("attribute adjusting", "pthread.c")], ["attributes seen by the system's pthread_create and by the application afterwards"])

p("C11", "Each signal goes to client, then application, then default action",
  "A signal is offered to the client's handler first; if that takes it, the application sees nothing; otherwise the application's own action applies exactly: handler with the same signal, siginfo and context, ignored, or the default - "
  "where fatal signals run fini_process(SIGNAL) once and the process dies of that very signal, stop signals stop it, and the others are discarded.",
  ["inputs", "histories"], "every signal, every kind of client handler and application action",
  "64 signals times the kinds of handlers; the tests send a few",
  ["signal.c"], [("signal handler", "signal.c"), ("signal table", "signal.c")], CB)

p("C12", "sigaction and signal behave to the application as without monitor",
  "sigaction and signal report and set the application's own action for every signal it may set, fail with EINVAL exactly where the system's would, never show libmonitor's or the client's handler, and do not disturb them; a client's monitor_sigaction stays in force.",
  ["inputs", "histories"], "histories of calls on any signal with any action",
  "histories and signal numbers are unbounded",
  ["signal.c"], [("sigaction and signal overrides", "signal.c")], ["what sigaction and signal return; the kernel's table"])

p("C13", "The application cannot block the client's or monitor's signals",
  "Through sigprocmask, pthread_sigmask and the masks of its handlers the application can change blocking of every signal except those of the client and the shootdown signal, which stay unblocked; otherwise masks, results and errors are as without libmonitor.",
  ["inputs"], "any masks and operations, any client signal",
  "2^64 masks",
  ["signal.c"], [("mask overrides", "signal.c")], ["the thread's mask in the kernel, and what the calls return"])

p("C14", "The shootdown signal is always one that works",
  "Whatever MONITOR_SHOOTDOWN_SIGNAL and the build's choice contain, the signal used for thread shootdown can be caught and is not one the system keeps to itself: a usable choice of the environment is honoured, then the build's, then a fixed default.",
  ["inputs", "configurations"], "any text in the variable up to the stated length, any build choice",
  "texts are unbounded; the tests set none",
  ["signal.c"], [("choice of the signal", "signal.c")], ["monitor_shootdown_signal(), and an exit with threads"])

p("C15", "sigwait family: application gets its signals, client and monitor theirs",
  "sigwait, sigwaitinfo and sigtimedwait return to the application only a signal of its set, one that the client's handler for it (called first) did not take, with the system's siginfo, or the system's error; interruptions, signals outside the set and signals the client took restart the wait. "
  "Optional result arguments may be NULL, the time limit is passed on, and set and signal mask stay as they were. A thread waiting there still gets its fini_thread when the process exits.",
  ["inputs", "histories"], "any signal set, any sequence of up to three answers of the system's call, the client taking or refusing each; a thread waiting while the process exits",
  "the order of signals and interruptions is the environment's",
  ["pthread.c", "signal.c"], [("sigwait overrides", "pthread.c"), ("client's handler", "signal.c")], CB)

p("C16", "dlopen and dlclose callbacks bracket the real calls",
  "Each dlopen calls monitor_pre_dlopen before and monitor_dlopen after the real one, each dlclose monitor_dlclose before and monitor_post_dlclose after, with the application's arguments and the real result, also when such calls nest through library constructors and destructors or fail; the application gets the real result. "
  "monitor_real_dlopen and monitor_real_dlclose give no callback.",
  ["inputs", "histories"], "any arguments and results, nesting three deep through library constructors",
  "nested and failing loads are not sampled", ["dlopen.c"], [("overrides", "dlopen.c")], CB)

p("C17", "MPI: one init and one fini pair per application call",
  "For every C, Fortran and profiling spelling, MPI_Init or MPI_Init_thread runs mpi_pre_init before and init_mpi after the library's own initialisation exactly once, and MPI_Finalize runs fini_mpi before and mpi_post_fini after, however the MPI library calls its own entry points inside; "
  "arguments and results pass unchanged.",
  ["histories", "inputs"], "every entry point and every nesting up to three deep",
  "the tests have no MPI library with these nestings",
  ["mpi.c", "mpi_init_c.c", "mpi_init_thread_c.c", "mpi_final_c.c", "pmpi.c"], [("nesting counter", "mpi.c"), ("overrides", "mpi_init_c.c")], CB)

p("C18", "MPI size and rank are the application's first answer",
  "monitor_mpi_comm_size and monitor_mpi_comm_rank answer -1 until the application, after MPI_Init, first asks for its rank or the client sets them; then they give that communicator's size and rank (or the client's values) and never change.",
  ["histories", "inputs"], "histories of rank queries, initialisation and monitor_set_size_rank",
  "no test calls several communicators", ["mpi.c", "mpi_comm_c.c"], [("size and rank", "mpi.c")], ["the two query functions"])

p("C19", "monitor_broadcast_signal reaches every monitored thread once",
  "monitor_broadcast_signal(sig) sends sig exactly once to the initial thread and to each other monitored thread that has started and not finished, except to the caller, and to no other thread. If the list of threads is in use it returns -1 and sends nothing; otherwise it returns 0. "
  "It never hangs, also when called from a signal handler that interrupts libmonitor at any statement, or during process exit.",
  ["histories", "schedules"], "any combination of states of two threads, any caller, any signal, and a handler interrupting thread creation or start at any statement",
  "states at the moment of broadcast are not sampled", ["pthread.c"], [("broadcast", "pthread.c")], ["signals sent"])

p("C20", "Unwinders recognise the bottom frame of process and threads",
  "monitor_unwind_process_bottom_frame and monitor_unwind_thread_bottom_frame answer 1 exactly for addresses in libmonitor's bottom function of the process and of threads, from before the init callbacks to after the fini callbacks; monitor_in_start_func_wide for either; "
  "monitor_in_start_func_narrow exactly for the part of either that calls the application's main or start routine, the return address of that call included. So in application code narrow recognises the bottom frame, and in init and fini callbacks made from there only wide does.",
  ["inputs"], "any code address, relative to libmonitor's labels; frames in every callback and in application code", "addresses are unbounded", ["main.c", "pthread.c"], [("fences", "main.c"), ("thread fences", "pthread.c")], ["the query functions"])

p("C21", "A section with shootdown blocked delays fini_thread, never loses it",
  "Between monitor_block_shootdown and monitor_unblock_shootdown a thread gets no fini_thread even though the process is exiting; the exit waits, and once the thread has left the section it gets fini_thread exactly once, before fini_process. "
  "monitor_block_shootdown returns 1 if the process is already exiting, else 0. Other threads are not affected.",
  ["schedules", "histories"], "the section entered before or during the exit and left at any of the first polls, by the initial or another thread; exit, _exit or a fatal signal",
  "the section has to coincide with process exit", ["pthread.c"], [("block and unblock", "pthread.c"), ("shootdown handler", "pthread.c")], CB)

p("C22", "The real function is found or the program stops with an error",
  "When the ordinary lookup of a function to override fails (a library loaded with RTLD_LOCAL), the function of that name in the first loaded object after libmonitor that is available and has it is called instead, never one of an object before it; "
  "if there is none the program stops with an error before anything is called. The lookup loads nothing, leaves no object open, and gives the client no dlopen or dlclose callback.",
  ["inputs", "fault_sequences"], "five loaded objects, libmonitor third or last, each available or not and with the function or without", "lookups do not fail in tests", ["common.c", "common.h"], [("lookup", "common.c")], ["the calls that reach the system"])

p("C23", "Threads never share libmonitor's state, however many come and go",
  "When threads are created, start and end concurrently and in any order, reusing libmonitor's records of ended threads or not, each gets init_thread once with its own creation's data and a number no other thread has, and fini_thread once with its own data, and its number, data and start routine queries answer about itself.",
  ["schedules", "histories"], "the creation, start or end of a thread preempted at any statement by another thread's creation, start or end", "needs particular interleavings",
  ["pthread.c"], [("thread node pool", "pthread.c")], CB)

p("C24", "Queries give the right thread and process data",
  "In every callback and in application code, monitor_get_thread_num, monitor_get_user_data, monitor_get_addr_thread_start and monitor_stack_bottom answer for the calling thread (0 and init_process's data for the initial one; its number, init_thread's data, start routine and an address in its own stack for a thread; "
  "-1 and NULL for an ignored thread), monitor_get_addr_main gives the application's main from start_main_init on, and monitor_is_threaded turns true with init_thread_support. In a forked child they answer for the child.",
  ["histories"], "every query at every callback and in main and thread bodies", "tests call a few",
  ["main.c", "pthread.c"], [("query functions", "pthread.c")], ["the query functions"])

p("C25", "monitor_real_* act like the system's functions, without callbacks",
  "Each of monitor_real_exit, _abort, _sigprocmask, _pthread_sigmask, _fork, _execve, _system, _dlopen and _dlclose has the effect, result and errno of the system's function (exec and system: with LD_PRELOAD removed) and triggers no callback. "
  "A process ended through monitor_real_exit or monitor_real_abort gets no fini_process; monitor_real_abort dies of SIGABRT whatever handlers and masks are set; the real mask functions are not restricted for the client's and libmonitor's own signals. They work in any thread and already in init_process.",
  ["inputs", "histories"], "any arguments and results, the initial or another thread", "the tests do not use them", ["main.c", "fork.c", "pthread.c", "dlopen.c"], [("real entry points", "main.c")], CB)

p("C26", "Overrides preserve results and errno",
  "Whatever the client's callbacks and libmonitor's own messages do to errno, the result and errno that fork, vfork, the exec functions and system leave when they fail are those of the system's call that failed.",
  ["inputs"], "any results, any errno left behind by callbacks", "errno after callbacks is not looked at", ["fork.c", "main.c", "pthread.c", "signal.c"], [("overrides", "fork.c")], ["results and errno"])

p("C27", "Entered before main, the process still starts once",
  "When libmonitor is first entered before main - by the client's monitor_initialize, a thread created, a fork, sigaction or monitor_sigaction in a constructor that runs before or after libmonitor's own - init_library still runs exactly once and before init_process; "
  "monitor_initialize and pthread_create give init_process at once, before any thread callback; every process, a child forked before main included, gets init_process exactly once by the time its main starts (the child's with pre_fork's pointer, before its fork returns), "
  "then at_main once, and at its end begin_process_exit and fini_process once with what its own init_process returned. Threads created before main get init_thread and fini_thread once with their own data whether they run at once or only during main, and signal handlers set before main stay in force.",
  ["histories", "schedules"], "every sequence of two such steps at any of three points before main, fork failing or succeeding, seen from parent and child, four ways of ending, both link flavours",
  "one test calls monitor_initialize in a constructor; forks, handlers and mixed sequences before main are not run", ["main.c", "pthread.c", "fork.c", "signal.c"],
  [("process start", "main.c"), ("early entry in pthread_create", "pthread.c"), ("child's process start", "fork.c")], CB)

NOTE = ("Bounded: every value of the harness's symbolic inputs within the stated bounds (evidence lists them), for the real sources in the "
        "configuration of model/config.h, against the environment model model/env.c, which is trusted; counterexamples are replayed on the "
        "same sources compiled by gcc before they are reported.")


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for x in P:
            if x["id"] in props.PROPS:
                f.write(json.dumps(x) + "\n")
    checks = []
    for x in P:
        if x["id"] not in props.PROPS:
            continue
        checks.append({"property": x["id"], "quick_cmd": "python3 check.py " + x["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % x["id"],
                       "technique": "bounded symbolic execution of the real C sources (CBMC/SAT), counterexamples replayed natively",
                       "level": "other", "level_note": NOTE})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo. The fix: commits in /repo are listed in known-findings.txt."}
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
    open(HERE + "/MANIFEST.json", "a").write("\n")


main()
