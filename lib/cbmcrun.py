"""Contract proofs with CBMC (goto-cc, goto-instrument --dfcc, cbmc).

A harness file in /verif/cbmc includes the real /repo/src/*.c file(s) and puts
contracts on their functions.  Comment lines direct the run:

//@ prove FUNC harness=H [unwind=N] [replace=F1,F2] [flags=...] [novac]
    enforce FUNC's contract with entry point H
//@ harness H [unwind=N]
    plain full-domain harness (assertions), loops completely unwound
"""
import concurrent.futures, json, os, re, time
from common import Ob, VERIF, REPO, run, scratch, ToolError, TIER

CHECKS = ["--bounds-check", "--pointer-check", "--div-by-zero-check",
          "--signed-overflow-check", "--undefined-shift-check",
          "--pointer-primitive-check", "--unwinding-assertions",
          "--no-malloc-may-fail", "--drop-unused-functions"]


def parse(path):
    jobs = []
    for line in open(path):
        m = re.match(r"//@ (prove|harness) (\w+)(.*)", line)
        if m:
            opts = {}
            for kv in m.group(3).split():
                k, _, v = kv.partition("=")
                opts[k] = v
            opts["kind"], opts["func"] = m.group(1), m.group(2)
            opts.setdefault("harness", m.group(2))
            jobs.append(opts)
    return jobs


def one(path, job, incs, timeout):
    d = scratch()
    tag = os.path.basename(path)[:-2] + "_" + job["func"] + "_" + job["harness"]
    cpath = path

    def build(extra, suffix):
        a = os.path.join(d, tag + suffix + ".a.gb")
        b = os.path.join(d, tag + suffix + ".b.gb")
        cmd = ["goto-cc", "-std=gnu11", "-DCBMC", "-DREPO=\"%s\"" % REPO] + extra + \
              ["-I" + i for i in incs] + ["-I%s/include" % REPO, "-I%s/src" % REPO,
               "-I%s/cbmc" % VERIF, "--function", job["harness"], cpath, "-o", a]
        rc, o, e = run(cmd, timeout=120)
        if rc != 0:
            return None, "goto-cc: " + (o + e)[-3000:]
        if job["kind"] == "prove":
            cmd = ["goto-instrument", "--dfcc", job["harness"],
                   "--enforce-contract", job["func"]]
            for r in [x for x in job.get("replace", "").split(",") if x]:
                cmd += ["--replace-call-with-contract", r]
            rc, o, e = run(cmd + [a, b], timeout=120)
            if rc != 0:
                return None, "goto-instrument: " + (o + e)[-3000:]
            return b, None
        return a, None

    def solve(gb, tmo):
        cmd = ["cbmc", gb, "--json-ui", "--trace"] + CHECKS
        if job.get("unwind"):
            cmd += ["--unwind", job["unwind"]]
        if job.get("cvc5") is not None:
            cmd += ["--cvc5"]
        for f in [x for x in job.get("flags", "").split(",") if x]:
            cmd.append(f)
        t = time.time()
        rc, o, e = run(cmd, timeout=tmo)
        return rc, o, e, time.time() - t, cmd

    name = job["func"]
    gb, err = build([], "")
    if gb is None:
        return [Ob("extraction", name, "limit", "cbmc", 0, err)], []
    rc, o, e, t, cmd = solve(gb, timeout)
    cmds = [" ".join(["goto-instrument --dfcc --enforce-contract" if job["kind"] == "prove" else "goto-cc", name, "; cbmc"])]
    if rc is None:
        return [Ob("timeout", name, "unknown", "cbmc", t, "time limit")], cmds
    try:
        data = json.loads(o)
    except ValueError:
        return [Ob("run", name, "limit", "cbmc", t, (o + e)[-2000:])], cmds
    res = None
    for item in data:
        if "result" in item:
            res = item["result"]
    if res is None:
        return [Ob("run", name, "limit", "cbmc", t, (o + e)[-2000:])], cmds
    obs = []
    n = max(1, len(res))
    for r in res:
        st = {"SUCCESS": "proved", "FAILURE": "failed"}.get(r["status"], "unknown")
        det = ""
        if st == "failed":
            if "unwind" in r["property"]:
                st = "limit"
            det = r.get("description", "") + "\n" + trace_text(r.get("trace", []))
        obs.append(Ob(r["property"] + ": " + r.get("description", ""), name, st,
                      "cbmc (SAT)", t / n, det))
    if not any("postcondition" in x.name or "assertion" in x.name for x in obs):
        obs.append(Ob("non-vacuity: a postcondition was generated", name, "limit", "cbmc"))
    # reachability guard: the end must be reachable
    if "novac" not in job:
        gb, err = build(["-DVACUITY"], "_vac")
        if gb is None:
            obs.append(Ob("reachability", name, "limit", "cbmc", 0, err))
        else:
            rc, o, e, t, _ = solve(gb, timeout)
            ok = False
            try:
                for item in json.loads(o):
                    for r in item.get("result", []):
                        if r["status"] == "FAILURE" and ("postcondition" in r["property"]
                                                         or "VACUITY" in r.get("description", "")):
                            ok = True
            except ValueError:
                pass
            obs.append(Ob("reachability: the precondition is satisfiable and the end is reached",
                          name, "proved" if ok else "limit", "cbmc (SAT)", t))
    return obs, cmds


def trace_text(tr):
    out = []
    for s in tr:
        if s.get("stepType") == "assignment" and not s.get("hidden"):
            lhs = s.get("lhs", "")
            if lhs.startswith("__") or "dfcc" in lhs:
                continue
            v = s.get("value", {})
            out.append("  %s = %s (line %s %s)" % (
                lhs, v.get("data", v.get("name")),
                s.get("sourceLocation", {}).get("line"),
                s.get("sourceLocation", {}).get("function")))
    return "\n".join(out[-60:])


def prove_file(chk, fname, incs=(), timeout=None, only=None):
    path = os.path.join(VERIF, "cbmc", fname)
    jobs = parse(path)
    if only:
        jobs = [j for j in jobs if j["func"] in only]
    jobs = [j for j in jobs if "thorough" not in j or TIER == "thorough"]
    if timeout is None:
        timeout = 400 if TIER == "quick" else 3000
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [(j, ex.submit(one, path, j, list(incs), timeout)) for j in jobs]
        for j, f in futs:
            obs, cmds = f.result()
            for o in obs:
                chk.add(o)
            for c in cmds:
                if c not in chk.cmds:
                    chk.cmds.append(c)
            chk.under_contract(j["func"], "cbmc " + ("contract" if j["kind"] == "prove" else "full-domain harness")
                               + (", loops unwound %s with unwinding assertions" % j["unwind"] if j.get("unwind") else ", loop-free"))
    chk.trust("CBMC 6.11 (C front end, symbolic execution, SAT back end) and its C library models",
              "goto-cc compiles for this machine's ABI (LP64, little endian)")
