"""Turns a translation unit of /repo/src into a self-contained C file whose
external names are moved into a private name space, so that the same text can
be given to goto-cc (symbolic execution) and to gcc (replay).

  X         for an X that libmonitor overrides  -> vf_X   (what an application calls)
  __wrap_X  (static flavour)                    -> vf_X
  __real_X  (static flavour)                    -> vfr_X  (the system's own X)
  X         for any other modelled libc name    -> vf_X   (environment model)

Strings, struct tags and everything else are left as they are.  Nothing here
knows the name of any internal function or variable of libmonitor.
"""
import json, os, re, subprocess

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MPI_C = "MPI_Init MPI_Init_thread MPI_Finalize MPI_Comm_rank".split()
MPI_F = [b + s for b in "mpi_init mpi_init_thread mpi_finalize mpi_comm_rank".split()
         for s in ("", "_", "__")]
PMPI = ["P" + n for n in MPI_C] + ["p" + n for n in MPI_F]

#: overridden in both flavours (the --wrap list of configure.ac, plus _Exit)
WRAPPED = ("main exit _exit _Exit dlopen dlclose fork vfork system execl execlp execle "
           "execv execvp execve pthread_create pthread_exit sigwait sigwaitinfo sigtimedwait "
           "signal sigaction sigprocmask pthread_sigmask").split() + MPI_C + MPI_F
#: overridden in the dynamic flavour only
WRAPPED_DYN = ["__libc_start_main"] + PMPI

#: libc functions with a model in model/env.c
ENV = ("access faccessat euidaccess eaccess stat getenv secure_getenv dlsym dlerror dladdr dl_iterate_phdr err errx warn warnx "
       "fprintf printf vfprintf fputs puts fputc putc fwrite write fflush perror dprintf sprintf snprintf "
       "sscanf __isoc99_sscanf __isoc23_sscanf strtol __isoc23_strtol atoi getcontext getpid getppid gettid gettimeofday clock_gettime time "
       "mmap munmap raise kill sigemptyset sigfillset sigaddset sigdelset sigismember sigisemptyset sigpending sigsuspend "
       "sleep usleep nanosleep sched_yield pause select poll abort "
       "strlen strnlen strcmp strncmp strcpy strncpy strcat strncat strchr strrchr strstr strspn strcspn strdup strerror stpcpy "
       "strchrnul strpbrk strsep strtok strtok_r memchr memcmp "
       "sysconf getpagesize confstr waitpid wait4 wait malloc calloc realloc free unsetenv setenv "
       "__libc_current_sigrtmin __libc_current_sigrtmax __errno_location "
       "pthread_attr_init pthread_attr_destroy pthread_attr_getstacksize pthread_attr_setstacksize "
       "pthread_equal pthread_key_create pthread_key_delete pthread_kill pthread_self "
       "pthread_getspecific pthread_setspecific pthread_setcancelstate pthread_testcancel pthread_yield "
       "pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock environ "
       "vf_cleanup_push vf_cleanup_pop vf_cleanup_run "
       "MPI_Comm_size PMPI_Comm_size mpi_comm_size mpi_comm_size_ mpi_comm_size__ "
       "pmpi_comm_size pmpi_comm_size_ pmpi_comm_size__").split()

TOK = re.compile(r'''"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[A-Za-z_]\w*|\d[\w.]*|\s+|.''', re.S)


def rename_map(static):
    m = {}
    for n in ENV:
        if not n.startswith("vf_"):
            m[n] = "vf_" + n
    for n in WRAPPED + WRAPPED_DYN:
        if n == "main":
            continue
        m[n] = "vf_" + n
    if static:
        for n in WRAPPED:
            m["__wrap_" + n] = "vf_" + n
            m["__real_" + n] = "vfr_" + n
    return m


def rename(text, static):
    m = rename_map(static)
    out, prev = [], ""
    toks = TOK.findall(text)
    for i, t in enumerate(toks):
        if t[0].isspace():
            out.append(t)
            continue
        if t in m and prev not in ("struct", "union", "enum", ".", "->") and not (
                prev == ">" and len(out) > 1 and out[-2:] == ["-", ">"]):
            out.append(m[t])
        else:
            out.append(t)
        prev = t
    return "".join(out)


def preprocess(src, static, defs=(), incs=()):
    cmd = ["gcc", "-E", "-P", "-std=gnu17",
           "-DMONITOR_STATIC" if static else "-DMONITOR_DYNAMIC",
           "-DUSE_GNU_ATOMIC_OPS", "-include", HERE + "/model/sigset1.h", "-I" + HERE + "/model", "-I" + REPO + "/src"]
    cmd += ["-D" + d for d in defs] + ["-I" + i for i in incs] + [src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("preprocessing %s failed:\n%s" % (src, r.stderr))
    return r.stdout


ASM_LABEL = re.compile(r'__asm__\s*\(\s*"[^"]*"\s*(?:"[^"]*"\s*)*\)(?=\s*(?:__attribute__|;|$))', re.M)
ASM_STMT = re.compile(r'\b(?:asm|__asm__|__asm)\s*(?:volatile|__volatile__)?\s*\(\s*(?:"[^"]*"\s*)+\)\s*;')


def prep_text(src, static, defs=(), tn=None, nsig=None, tune=(), bytewise=False, fences=None):
    # Sizes of built-in arrays (thread nodes per block, 600 as shipped, ...) are
    # tuning constants; small ones let a bounded history run past them.
    sub = dict(tune)
    if tn:
        sub["MONITOR_TN_ARRAY_SIZE"] = tn
    text = new = open(src).read()
    for n in sub:
        new = re.sub(r'(?m)^(#\s*define\s+%s\s+)\d+' % n, r'\g<1>%d' % sub[n], new)
    if new != text:
        import tempfile
        with tempfile.NamedTemporaryFile("w", suffix=".c", delete=False) as f:
            f.write(new)
        try:
            t = preprocess(f.name, static, defs)
        finally:
            os.unlink(f.name)
    else:
        t = preprocess(src, static, defs)
    if nsig:
        # a system with fewer signals (NSIG as <signal.h> would define it)
        t = re.sub(r'\(\s*64\s*\+\s*1\s*\)', '(%d)' % nsig, t)
    # redirected declarations (sscanf -> __isoc99_sscanf, ...) keep their C name
    t = re.sub(r'(\)\s*)__asm__\s*\(\s*"[^"]*"\s*(?:"[^"]*"\s*)*\)', r'\1', t)
    # the fence labels: `asm volatile(".globl x"); asm volatile("x:")` have no effect on values
    if fences is not None:
        # code addresses: labels in the order of the text, with room between them
        for n in re.findall(r'\b(?:asm|__asm__|__asm)\s*(?:volatile|__volatile__)?\s*\(\s*"\s*(\w+)\s*(?:"\s*")?\s*:\s*"\s*\)\s*;', t):
            if n not in fences:
                fences[n] = 4 * len(fences) + 4
        t = re.sub(r'\b(?:asm|__asm__|__asm)\s*(?:volatile|__volatile__)?\s*\(\s*"\s*(\w+)\s*(?:"\s*")?\s*:\s*"\s*\)\s*;', r'vf_label (&\1);', t)
        for n in fences:
            t = re.sub(r'\bextern\s+char\s+%s\s*;' % n, '', t)
            t = re.sub(r'\b%s\b(?!")' % n, 'vf_text[%d]' % fences[n], t)
        t = "extern char vf_text[];\nvoid vf_label(char *);\n" + t
    t = ASM_STMT.sub(";", t)
    # pthread_cleanup_push/pop as glibc expands them
    t = re.sub(r'__pthread_register_cancel\s*\(\s*&__cancel_buf\s*\)',
               'vf_cleanup_push (__cancel_routine, __cancel_arg)', t)
    t = re.sub(r'__pthread_unregister_cancel\s*\(\s*&__cancel_buf\s*\)', 'vf_cleanup_pop ()', t)
    t = re.sub(r'__sigsetjmp_cancel\s*\(\s*__cancel_buf[^)]*\)', '0', t)
    t = re.sub(r'__cancel_routine\s*\(\s*__cancel_arg\s*\)',
               'vf_cleanup_run (__cancel_routine, __cancel_arg)', t)
    # the pointer (void *)-1 (MONITOR_IGNORE_NEW_THREAD, MAP_FAILED) as the
    # address of an object of its own: comparisons with it become decidable
    # during symbolic execution; the environment returns the same value
    t = re.sub(r'\(\s*\(\s*void\s*\*\s*\)\s*-\s*1\s*\)', '((void *)&vf_minus1)', t)
    t = re.sub(r'\(\s*\(\s*void\s*\*\s*\)\s*\(\s*-\s*1\s*\)\s*\)', '((void *)&vf_minus1)', t)
    # likewise SIG_IGN and SIG_ERR as addresses of functions of their own
    t = re.sub(r'\(\s*\(\s*__sighandler_t\s*\)\s*1\s*\)', '(&vf_sig_ign)', t)
    t = re.sub(r'\(\s*\(\s*__sighandler_t\s*\)\s*-\s*1\s*\)', '(&vf_sig_err)', t)
    t = re.sub(r'\b__builtin_return_address\s*\(\s*0\s*\)', 'vf_return_address()', t)
    pre = ("void vf_sig_ign(int), vf_sig_err(int);\nvoid *vf_return_address(void);\nextern char vf_minus1;\nvoid vf_cleanup_push(void (*)(void *), void *);\nvoid vf_cleanup_pop(void);\n"
           "void vf_cleanup_run(void (*)(void *), void *);\n")
    t = typed_mem(t)
    if bytewise:
        t = re.sub(r'\bmemcpy\b', 'vf_memcpy', t)
    return pre + rename(t, static)


# ---------------------------------------------------------------- AST work

def ast(path):
    r = subprocess.run(["clang", "-Xclang", "-ast-dump=json", "-fsyntax-only", "-w", path],
                       capture_output=True, text=True)
    return json.loads(r.stdout)


def functions(tree):
    for d in tree.get("inner", []):
        if d.get("kind") == "FunctionDecl" and any(
                c.get("kind") == "CompoundStmt" for c in d.get("inner", [])):
            yield d


def attr_functions(tree):
    ctors, dtors = [], []
    seen = {}
    for d in tree.get("inner", []):
        if d.get("kind") == "FunctionDecl":
            for c in d.get("inner", []):
                if c.get("kind") == "ConstructorAttr":
                    ctors.append(d["name"])
                if c.get("kind") == "DestructorAttr":
                    dtors.append(d["name"])
    return sorted(set(ctors)), sorted(set(dtors))


def body_of(fn):
    return [c for c in fn["inner"] if c.get("kind") == "CompoundStmt"][0]


def is_weak(fn):
    return any(c.get("kind") == "WeakAttr" for c in fn.get("inner", []))


def linkage(fn):
    return fn.get("storageClass") != "static"


def drop_bodies(text, tree, names):
    """Turns the weak definitions of `names` into declarations."""
    b = text.encode()
    for f in sorted((f for f in functions(tree) if is_weak(f) and f["name"] in names),
                    key=lambda f: -body_of(f)["range"]["begin"]["offset"]):
        r = body_of(f)["range"]
        e = r["end"]["offset"] + r["end"]["tokLen"]
        # keep the length, so that other offsets stay valid
        b = b[:r["begin"]["offset"]] + b";" + re.sub(rb'[^\n]', b' ', b[r["begin"]["offset"] + 1:e]) + b[e:]
    return b.decode()


def from_repo(fn):
    """A function libmonitor defines (everything with a body in the .i is,
    apart from inline functions of the system headers)."""
    n = fn["name"]
    return not n.startswith("__") or n.startswith("__wrap")


def asm_labels(text):
    """`extern char x;` that no C code defines: code labels, given storage so
    that everything links (only C20 looks at their addresses)."""
    return set(re.findall(r'\bextern\s+char\s+(\w*fence\w*)\s*;', text))


def _args(t, i):
    """t[i] is '('; returns (list of argument texts, index after ')')."""
    depth, start, out, j = 0, i + 1, [], i
    while j < len(t):
        c = t[j]
        if c in '"\'':
            q = c
            j += 1
            while t[j] != q:
                j += 2 if t[j] == '\\' else 1
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
            if depth == 0:
                out.append(t[start:j])
                return out, j + 1
        elif c == ',' and depth == 1:
            out.append(t[start:j])
            start = j + 1
        j += 1
    raise ValueError


def typed_mem(t):
    """memset(p, 0, sizeof(T)) and memcpy(d, s, sizeof(T)) as assignments of a
    T: the same effect, in a form that keeps the fields visible to symbolic
    execution.  Anything of another shape is left alone."""
    out, i = [], 0
    for m in re.finditer(r'\b(memset|memcpy)\s*(?=\()', t):
        if m.start() < i:
            continue
        try:
            a, e = _args(t, m.end())
        except (ValueError, IndexError):
            continue
        if len(a) != 3:
            continue
        z = re.fullmatch(r'sizeof\s*(\(.*\)|\*\s*\w+)', a[2].strip(), re.S)
        if not z:
            continue
        ty = z[1].strip()
        ty = ty[1:-1].strip() if ty.startswith("(") else ty
        if not (re.fullmatch(r'struct\s+\w+', ty) or re.fullmatch(r'\*\s*\w+', ty)):
            continue
        if m[1] == "memset":
            if a[1].strip() != "0":
                continue
            r = "({ *(__typeof__(%s) *)(%s) = (__typeof__(%s)){0}; (void *)(%s); })" % (ty, a[0], ty, a[0])
        else:
            r = "({ *(__typeof__(%s) *)(%s) = *(const __typeof__(%s) *)(%s); (void *)(%s); })" % (ty, a[0], ty, a[1], a[0])
        out.append(t[i:m.start()])
        out.append(r)
        i = e
    out.append(t[i:])
    return "".join(out)


# ------------------------------------------------------- preemption points

LOOPS = ("WhileStmt", "ForStmt", "DoStmt")
YIELD = "if (vf_yield_on) vf_yield(); "


def _off(n):
    return n["range"]["begin"]["offset"]


def instrument(text, tree, skip=(), suspend=False, yields=True):
    """Inserts a preemption point before every statement of every function
    (`vf_yield`), and marks loops that wait for another thread.  Statements
    keep their meaning: the points are calls of an external function.
    With `suspend`, every statement is guarded (without `yields`: instead) so that, once a thread
    has been suspended inside a callback (`vf_unw`), its frames are left."""
    b = text.encode()
    YIELD = globals()["YIELD"]
    ins = []

    def end(n):
        r = n["range"]["end"]
        e = r["offset"] + r["tokLen"]
        m = re.compile(rb'\s*;').match(b, e)
        if b[e - 1:e] not in (b"}", b";") and m:
            return m.end()
        return e

    def empty(n):
        return n.get("kind") == "NullStmt" or (n.get("kind") == "CompoundStmt" and
                                               all(empty(c) for c in n.get("inner", [])))

    def sub(n, pre="", post=""):
        """a statement that is the body of a loop or a branch"""
        if n.get("kind") == "CompoundStmt":
            ins.append((_off(n) + 1, 1, " " + pre))
            stmts(n)
            if post:
                ins.append((end(n) - 1, 0, post))
        else:
            ins.append((_off(n), 1, "{ " + pre + YIELD))
            stmt(n)
            ins.append((end(n), 0, " " + post + "}"))

    def stmt(n):
        k = n.get("kind")
        c = n.get("inner", [])
        if k == "CompoundStmt":
            stmts(n)
        elif k == "IfStmt":
            for x in c[1:]:
                sub(x)
        elif k in LOOPS:
            body = c[0] if k == "DoStmt" else c[-1]
            if k == "DoStmt" and c[1].get("kind") == "IntegerLiteral" and c[1].get("value") == "0":
                sub(body)
            elif empty(body) and not (k == "ForStmt" and not _empty_for(n)):
                if body["kind"] == "NullStmt":
                    ins.append((_off(body), 1, "{ vf_spin(); "))
                    ins.append((end(body), 0, " }"))
                else:
                    ins.append((_off(body) + 1, 1, " vf_spin(); "))
            else:
                ins.append((_off(n), 1, "{ int vf_lc = 0; "))
                sub(body, "if (++vf_lc > 66) vf_stuck(); ")
                ins.append((end(n), 0, " }"))
        elif k == "SwitchStmt":
            sub(c[-1])
        elif k in ("CaseStmt", "DefaultStmt", "LabelStmt"):
            pass

    def _empty_for(n):
        # for (init; cond; inc) ; with an increment does work of its own
        return not n["inner"][3].get("kind")

    def covered(c):
        """needs no point of its own: begins with one, or only looks at
        monitor_debug, which does not change while threads run"""
        if suspend and not yields:
            return False
        k = c.get("kind")
        if k == "DoStmt" and c["inner"][0].get("kind") == "CompoundStmt" and c["inner"][1].get("kind") == "IntegerLiteral":
            return True
        if k == "IfStmt":
            x = c["inner"][0]
            while x.get("kind") in ("ImplicitCastExpr", "ParenExpr") and x.get("inner"):
                x = x["inner"][0]
            return x.get("referencedDecl", {}).get("name") == "monitor_debug"
        return False

    def stmts(n):
        for c in n.get("inner", []):
            k = c.get("kind")
            if k in ("CaseStmt", "DefaultStmt", "LabelStmt", None):
                continue
            if k != "NullStmt" and not covered(c):
                ins.append((_off(c), 0, YIELD))
            stmt(c)

    for f in functions(tree):
        if f["name"] in skip or not from_repo(f):
            continue
        if suspend:
            ty = f["type"]["qualType"].split("(")[0].strip()
            YIELD = "if (vf_unw) return%s; " % ("" if ty == "void" else " (%s)0" % ty)
            if yields:
                YIELD = globals()["YIELD"] + YIELD
        stmts(body_of(f))
    out, last = [], 0
    # same offset: closing text first, then preemption points, then opening text
    order = sorted(range(len(ins)), key=lambda i: (ins[i][0], i))
    for i in order:
        o, _, s = ins[i]
        out.append(b[last:o])
        out.append(s.encode())
        last = o
    out.append(b[last:])
    pre = "extern int vf_unw, vf_yield_on; void vf_yield(void); void vf_spin(void); void vf_stuck(void);\n"
    return pre + b"".join(out).decode()
