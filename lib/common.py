"""Shared machinery: obligations, evidence, native replay, exit codes."""
import json, os, shutil, subprocess, sys, tempfile, time, atexit, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vchk.")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class Ob:
    """One proof obligation (or a group reported by one solver call)."""
    __slots__ = ("name", "func", "status", "backend", "time", "detail", "kind")

    # status: proved | failed | unknown | limit | bounded
    def __init__(self, name, func, status, backend, time=0.0, detail=""):
        self.name, self.func, self.status = name, func, status
        self.backend, self.time, self.detail = backend, time, detail
        self.kind = ""

    def tup(self):
        return [self.name, self.func, self.status, self.backend, self.time,
                self.detail]


class ToolError(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obs = []
        self.functions = {}          # function -> how
        self.trusted = []
        self.assumptions = []
        self.extra = {}
        self.cmds = []

    def add(self, ob):
        self.obs.append(ob)

    def trust(self, *items):
        for i in items:
            if i not in self.trusted:
                self.trusted.append(i)

    def assume(self, *items):
        for i in items:
            if i not in self.assumptions:
                self.assumptions.append(i)

    def under_contract(self, func, how):
        self.functions[func] = how


import assumed


def write_evidence(chk, violations, level="proof", notes=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    byback = {}
    for o in chk.obs:
        b = byback.setdefault(o.backend, {"obligations": 0, "discharged": 0,
                                          "solver_s": 0.0})
        b["obligations"] += 1
        if o.status == "proved":
            b["discharged"] += 1
        b["solver_s"] = round(b["solver_s"] + o.time, 3)
    cov = {
        "obligations": len(chk.obs),
        "discharged": sum(1 for o in chk.obs if o.status == "proved"),
        "checker_cmd": "; ".join(chk.cmds) or "python3-vt /verif/check.py " + chk.pid,
        "trusted_base": chk.trusted,
        "functions_under_contract": chk.functions,
        "by_backend": byback,
        "undischarged": [o.tup()[:4] for o in chk.obs if o.status != "proved"][:40],
        "obligations_per_function": _per_function(chk),
    }
    cov.update(chk.extra)
    if notes:
        cov["notes"] = notes
    ev = {
        "property": chk.pid, "tier": TIER, "seed": SEED, "level": level,
        "coverage": cov, "assumptions": chk.assumptions + assumed.of(chk.pid),
        "wall_s": round(time.time() - chk.t0, 2), "violations": violations,
    }
    path = os.path.join(VERIF, "evidence", chk.pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def _per_function(chk):
    r = {}
    for o in chk.obs:
        r[o.func] = r.get(o.func, 0) + 1
    return r


# ---------------------------------------------------------------- native

def run(cmd, timeout=None, cwd=None, env=None, input=None):
    """Returns (rc, out, err); rc is None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         cwd=cwd, env=env, start_new_session=True)
    try:
        o, e = p.communicate(input=input, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode("latin-1"), e.decode("latin-1")
    return p.returncode, o.decode("latin-1"), e.decode("latin-1")


def native_search(pid, tier, out_dir):
    """Compile /verif/native/<pid>.c against the real sources and run it.
    Returns (found, text).  The harness prints a line FAIL ... and exits 1
    (or dies under a sanitizer) on a concrete failing input."""
    src = os.path.join(VERIF, "native", pid + ".c")
    if not os.path.exists(src):
        return None, "no native harness"
    d = out_dir
    exe = os.path.join(d, "native_" + pid)
    with open(src) as f:
        head = f.read(2000)
    import gen
    extra = []
    san = ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    try:
        use = []
        for line in head.splitlines():
            if line.startswith("// flags:"):
                extra += line[9:].split()
            if line.startswith("// generated"):
                use += gen.table_objects(os.path.join(d, "gen"))
        use.insert(0, gen.archive(os.path.join(d, "lib"), ["-g", "-O1"] + san))
        if len(use) > 1:
            use.append(use[0])
    except ToolError as ex:
        return None, "library does not build: %s" % ex
    cmd = ["clang", "-std=gnu11", "-g", "-O1", "-w"] + san + [
           "-DREPO=\"%s\"" % REPO,
           "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
           "-I" + os.path.join(VERIF, "native"), src] + use + extra + ["-o", exe]
    rc, o, e = run(cmd, timeout=200)
    if rc != 0:
        return None, "native harness does not build: " + e[-2000:]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["VERIF_SEED"] = str(SEED)
    budget = int(os.environ.get("SEARCH_SECONDS") or (45 if tier == "quick" else 300))
    env["SEARCH_SECONDS"] = str(budget)
    rc, o, e = run([exe], timeout=budget + 60, cwd=d, env=env)
    log = "$ " + " ".join(cmd) + "\n$ VERIF_SEED=%d SEARCH_SECONDS=%d %s\nexit: %s\n" % (SEED, budget, exe, rc)
    log += o[-6000:] + e[-6000:]
    if rc == 0:
        return False, log
    if rc is None:
        # the harness bounds itself; running far over means the code hangs on
        # the input it last announced
        if "HANG" in o or "trying" in o:
            return True, log + "\n(the call did not return within the limit)"
        return None, log
    return True, log


def finish(chk, level="proof"):
    """Decide, write evidence, print, exit."""
    d = scratch()
    bad = [o for o in chk.obs if o.status == "failed"]
    soft = [o for o in chk.obs if o.status in ("unknown", "limit")]
    if not chk.obs:
        write_evidence(chk, 0, level, "no obligations were generated")
        print("ERROR: no obligations generated")
        sys.exit(3)
    if TIER == "thorough" and not bad and not soft:
        found, log = native_search(chk.pid, TIER, d)
        chk.extra["thorough_cross_check"] = {
            "native_search_found": found, "log_tail": log[-800:]}
        if found:
            bad = [Ob("native-cross-check", "-", "failed", "native", 0, log)]
            chk.obs.append(bad[0])
    if not bad and not soft:
        write_evidence(chk, 0, level)
        print("OK property=%s obligations=%d discharged=%d wall=%.1fs" %
              (chk.pid, len(chk.obs), len(chk.obs), time.time() - chk.t0))
        sys.exit(0)
    for o in (bad + soft)[:6]:
        print("UNDISCHARGED [%s] %s: %s" % (o.status, o.func, o.name))
        if o.detail:
            print("   " + o.detail[:400].replace("\n", "\n   "))
    found, log = native_search(chk.pid, TIER, d)
    rp = os.path.join(VERIF, "evidence", "replay_%s.txt" % chk.pid)
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    with open(rp, "w") as f:
        f.write("property %s\n" % chk.pid)
        for o in bad + soft:
            f.write("obligation not discharged [%s, %s] in %s: %s\n%s\n\n" %
                    (o.status, o.backend, o.func, o.name, o.detail))
        f.write("\n==== native replay against the real code ====\n" + log + "\n")
        src = os.path.join(VERIF, "native", chk.pid + ".c")
        if os.path.exists(src):
            f.write("\n(harness: %s)\n" % src)
    chk.extra["native_replay"] = {"found": found, "log_tail": log[-1500:]}
    if found:
        write_evidence(chk, 1, level)
        tail = [l for l in log.splitlines() if l.startswith("FAIL") or "ERROR: " in l or "runtime error" in l]
        for l in tail[:5]:
            print("REPLAY " + l)
        print("VIOLATION property=%s replay=%s" % (chk.pid, rp))
        sys.exit(1)
    if bad:
        write_evidence(chk, 1, level)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (chk.pid, rp))
        sys.exit(1)
    # only tool limits: the bounded native exploration stands in
    if found is None:
        write_evidence(chk, 0, level, "undecided: tool limit and no stand-in")
        print("ERROR: undecided")
        sys.exit(3)
    write_evidence(chk, 0, "exploration" if False else level,
                   "BOUNDED: some obligations are outside the verifier's reach on "
                   "this tree; the bounded native exploration stood in for them "
                   "and they are not counted as discharged")
    print("BOUNDED property=%s: %d of %d obligations discharged, the others "
          "covered by bounded exploration only" %
          (chk.pid, sum(o.status == "proved" for o in chk.obs), len(chk.obs)))
    sys.exit(0)
