"""Builds a harness together with /repo's current sources, lets CBMC decide
it, and replays any counterexample against the same sources compiled by gcc."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
import prep, gen

HERE = prep.HERE
REPO = prep.REPO
CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check",
          "--unwinding-assertions", "--no-malloc-may-fail"]
ALL = "main pthread signal fork common utils dlopen mpi".split()


class Broken(Exception):
    """the check itself could not give an answer"""


class Unit:
    """One harness, one configuration, one solver run."""

    def __init__(self, name, harness, flavour="dyn", srcs=None, defs=(), unwind=70, cfg=(), opts=(),
                 timeout=600, tn=4, what="", patch=(), unwindset=(), yields=(), witness=True, bounds=(), nsig=33, suspend=(), tune=(), bytewise=(), fences=False):
        self.bytewise = list(bytewise)  # sources whose memcpy copies text of symbolic length
        self.tune = dict(tune)        # sizes of built-in arrays, by macro name
        self.suspend = list(suspend)  # sources in which a thread may be suspended inside a callback
        self.nsig = nsig              # NSIG of the modelled system; None: 65
        self.name, self.harness, self.static = name, harness, flavour == "static"
        self.srcs = list(srcs if srcs is not None else ALL)
        self.defs = list(defs)
        self.cfg = list(cfg)          # configuration macros given to the sources
        self.unwind, self.opts, self.timeout = unwind, list(opts), timeout
        self.tn = tn                  # thread nodes per block instead of 600
        self.what = what
        self.patch, self.unwindset, self.yields = list(patch), list(unwindset), yields
        self.witness = witness
        self.fences = fences
        self.bounds = list(bounds)


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def prepared(u, d):
    """The sources, renamed and preprocessed; returns the .c files."""
    out, funcs, ctors, dtors, labels = [], [], [], [], set()
    tus, strong = [], set()
    fences = {} if u.fences else None
    for s in u.srcs:
        src = "%s/src/%s.c" % (REPO, s)
        if not os.path.exists(src):
            raise Broken("no " + src)
        t = prep.prep_text(src, u.static, u.cfg, tn=u.tn, nsig=u.nsig, tune=u.tune, bytewise=s in u.bytewise, fences=fences)
        p = "%s/%s.c" % (d, s)
        open(p, "w").write(t)
        tree = prep.ast(p)
        strong |= {f["name"] for f in prep.functions(tree) if prep.linkage(f) and not prep.is_weak(f)}
        tus.append((s, p, t, tree))
    for s, p, t, tree in tus:
        labels |= prep.asm_labels(t)
        c, x = prep.attr_functions(tree)
        # the linker's choice between weak and strong definitions
        t = prep.drop_bodies(t, tree, strong)
        funcs += ["%s:%s" % (s, f["name"]) for f in prep.functions(tree)
                  if prep.from_repo(f) and not (prep.is_weak(f) and f["name"] in strong)]
        if s in u.yields or s in u.suspend:
            t = prep.instrument(t, tree, strong & {f["name"] for f in prep.functions(tree) if prep.is_weak(f)}, s in u.suspend, s in u.yields)
        t = re.sub(r'__attribute__\s*\(\(\s*(?:constructor|destructor)\s*(?:\(\d+\))?\s*\)\)', '', t)
        if c:
            t += "\nvoid vf_ctors_%s(void){ %s }\n" % (s, " ".join(n + "();" for n in c))
            ctors.append("vf_ctors_" + s)
        if x:
            t += "\nvoid vf_dtors_%s(void){ %s }\n" % (s, " ".join(n + "();" for n in x))
            dtors.append("vf_dtors_" + s)
        open(p, "w").write(t)
        out.append(p)
    g = "%s/glue.c" % d
    with open(g, "w") as f:
        for n in ctors + dtors:
            f.write("void %s(void);\n" % n)
        f.write("void vf_ctors(void){ %s }\n" % " ".join(n + "();" for n in ctors))
        f.write("void vf_dtors(void){ %s }\n" % " ".join(n + "();" for n in dtors))
        for n in sorted(labels):
            f.write("char %s;\n" % n)
    out.append(g)
    return out, funcs


def build(u, d):
    os.makedirs(d, exist_ok=True)
    open(d + "/dlsym_tab.h", "w").write(gen.dlsym_tab())
    files, funcs = prepared(u, d)
    defs = ["-D" + x for x in u.defs] + (["-DVF_STATIC"] if u.static else []) + (["-DVF_NSIG=%d" % u.nsig] if u.nsig else [])
    inc = ["-I" + d, "-I" + HERE + "/model", "-I" + REPO + "/src"]
    h = "%s/harness/%s.c" % (HERE, u.harness)
    cmd = ["goto-cc", "-D_GNU_SOURCE", "-o", d + "/g.gb"] + defs + inc + [h] + files
    r = sh(cmd)
    if r.returncode:
        raise Broken("goto-cc failed for %s:\n%s" % (u.name, (r.stdout + r.stderr)[-3000:]))
    return files, funcs, h, defs, inc


def cbmc(u, d, extra=()):
    cmd = ["cbmc", d + "/g.gb", "--function", "vf_harness", "--unwind", str(u.unwind), "--object-bits", "12",
           "--max-field-sensitivity-array-size", "80", "--json-ui", "--verbosity", "8", "--drop-unused-functions",
           "--sat-solver", "cadical"]
    cmd += CHECKS + u.opts + list(extra)
    if u.unwindset:
        cmd += ["--unwindset", ",".join(u.unwindset)]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=u.timeout)
    except subprocess.TimeoutExpired:
        raise Broken("solver time limit (%d s) reached for %s" % (u.timeout, u.name))
    dt = time.time() - t0
    try:
        js = json.loads(r.stdout)
    except ValueError:
        raise Broken("cbmc gave no JSON for %s (exit %d): %s" % (u.name, r.returncode, (r.stdout[-1500:] + r.stderr[-1500:])))
    res, msgs = None, []
    for o in js:
        if "result" in o:
            res = o["result"]
        if "messageText" in o:
            msgs.append(o["messageText"])
    if res is None:
        raise Broken("cbmc gave no result for %s: %s" % (u.name, "\n".join(msgs[-12:])))
    return res, msgs, dt


def stats(msgs):
    s = {"vars": 0, "clauses": 0, "steps": 0, "vccs": 0, "solver_s": 0.0, "nobody": []}
    for m in msgs:
        x = re.search(r"(\d+) variables, (\d+) clauses", m)
        if x:
            s["vars"], s["clauses"] = max(s["vars"], int(x[1])), max(s["clauses"], int(x[2]))
        x = re.search(r"size of program expression: (\d+) steps", m)
        if x:
            s["steps"] = int(x[1])
        x = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if x:
            s["vccs"] = int(x[1])
            s["vccs_solved"] = int(x[2])
        x = re.search(r"Runtime Solver: ([\d.e+-]+)s", m)
        if x:
            s["solver_s"] += float(x[1])
        x = re.search(r"no body for (?:function|callee) (\S+)", m)
        if x:
            s["nobody"].append(x[1])
    return s


def choices(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "assignment" and st.get("lhs") == "vf_choice" and not st.get("hidden"):
            v = st.get("value", {})
            b = v.get("binary")
            if b is not None:
                vals.append(int(b, 2))
            else:
                vals.append(int(re.sub(r"[^\d-]", "", v.get("data", "0")) or 0) & (2**64 - 1))
    return vals


def native(u, d, files, h, defs, inc, san=True):
    exe = d + "/replay"
    cmd = ["gcc", "-g", "-O0", "-w", "-D_GNU_SOURCE", "-DVF_NATIVE", "-std=gnu17", "-fno-builtin"]
    if san:
        cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    r = sh(cmd + ["-o", exe] + defs + inc + [h, HERE + "/model/rt.c"] + files)
    if r.returncode:
        raise Broken("replay build failed for %s:\n%s" % (u.name, r.stderr[-3000:]))
    return exe


def replay(exe, vals, d):
    p = d + "/choices"
    open(p, "w").write("".join("%d\n" % v for v in vals))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=43:detect_stack_use_after_return=0", UBSAN_OPTIONS="exitcode=43")
    try:
        r = sh([exe, p], env=env, timeout=60)
    except subprocess.TimeoutExpired:
        return "hang", ""
    o = r.stdout + r.stderr
    if "REPLAY-VIOLATED" in o:
        return "violated", re.search(r"REPLAY-VIOLATED (.*)", o)[1]
    if "REPLAY-ASSUME" in o:
        return "assume", re.search(r"REPLAY-ASSUME (.*)", o)[1]
    if r.returncode == -14:
        return "hang", "no progress for 20 s"
    if r.returncode == 43 or "AddressSanitizer" in o or "runtime error" in o:
        x = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*)", o)
        return "ub", x[1] if x else "sanitizer"
    if r.returncode < 0:
        return "ub", "signal %d" % -r.returncode
    return "clean", o[-300:]


class Result:
    pass


def classify(r):
    d, p = r["description"], r["property"]
    if d.startswith("WITNESS"):
        return "witness"
    if ".no-body." in p:
        return "nobody"
    if d.startswith("VF model bound"):
        return "bound"
    if d.startswith("VF "):
        return "property"
    if "unwind" in p or "recursion" in p or "unwinding assertion" in d:
        return "unwind"
    return "memory"


def decide(u, root, tier):
    """Runs one unit.  Returns a Result; raises Broken when there is no answer."""
    d = "%s/%s" % (root, u.name)
    R = Result()
    R.unit, R.violations, R.notes = u, [], []
    t0 = time.time()
    files, R.funcs, h, defs, inc = build(u, d)
    res, msgs, R.cbmc_s = cbmc(u, d)
    R.stats = stats(msgs)
    R.total = len(res)
    by = {}
    for r in res:
        by.setdefault(classify(r), []).append(r)
    wit = by.get("witness", [])
    R.reached = sorted({r["description"] for r in wit if r["status"] == "FAILURE"})
    missing = sorted({r["description"] for r in wit} - set(R.reached))
    R.asserts = sorted({r["description"][3:] for r in by.get("property", [])})
    R.discharged = sum(1 for k in by for r in by[k] if k != "witness" and r["status"] == "SUCCESS")
    fails = [r for k in ("property", "memory", "unwind") for r in by.get(k, []) if r["status"] != "SUCCESS"]
    fails.sort(key=lambda r: r["status"] != "FAILURE")   # UNKNOWN: cut off by another failure
    nobody = sorted({r["property"].split(".no-body.")[1] for r in by.get("nobody", []) if r["status"] != "SUCCESS"})
    bound = [r["description"] for r in by.get("bound", []) if r["status"] != "SUCCESS"]
    R.replayed = 0
    if fails:
        exe = native(u, d, files, h, defs, inc)
        unconfirmed = []
        for r in fails[:6]:
            tr, _, _ = cbmc(u, d, ["--trace", "--property", r["property"]])
            t = [x for x in tr if x["property"] == r["property"] and x.get("trace")]
            if not t:
                unconfirmed.append("%s (no trace)" % r["description"])
                continue
            vals = choices(t[0]["trace"])
            kind, detail = replay(exe, vals, d)
            R.replayed += 1
            loc = r.get("sourceLocation", {})
            where = "%s:%s" % (loc.get("function", "?"), loc.get("line", "?"))
            if kind in ("violated", "ub") or (kind == "hang" and classify(r) == "unwind"):
                R.violations.append({"claim": r["description"], "at": where, "replay": kind, "detail": detail,
                                     "choices": vals, "exe": exe})
                break
            unconfirmed.append("%s at %s: replay gave %s %s" % (r["description"], where, kind, detail))
        if not R.violations:
            raise Broken("%s: counterexample not confirmed by replay: %s" % (u.name, "; ".join(unconfirmed)))
    elif bound:
        raise Broken("%s: %s" % (u.name, "; ".join(bound)))
    elif nobody:
        raise Broken("%s: no model for %s" % (u.name, ", ".join(nobody)))
    elif missing and u.witness:
        raise Broken("%s: vacuous, not reachable: %s" % (u.name, "; ".join(missing)))
    R.validated = 0
    if tier == "thorough" and not R.violations and wit:
        # the encoding and the compiled code agree on the reachability witnesses
        exe = native(u, d, files, h, defs, inc)
        for r in [x for x in wit if x["status"] == "FAILURE"][:3]:
            tr, _, _ = cbmc(u, d, ["--trace", "--property", r["property"]])
            t = [x for x in tr if x["property"] == r["property"] and x.get("trace")]
            if t:
                env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
                open(d + "/w", "w").write("".join("%d\n" % v for v in choices(t[0]["trace"])))
                o = sh([exe, d + "/w"], timeout=60, env=env).stdout
                if "REPLAY-REACHED " + r["description"][8:] in o:
                    R.validated += 1
                else:
                    raise Broken("%s: witness %s not reached by the compiled code: %s" % (u.name, r["description"], o[-300:]))
    R.wall = time.time() - t0
    return R
