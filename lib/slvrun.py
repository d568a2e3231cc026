"""Drives slv over the functions of a spec module, in parallel."""
import importlib, multiprocessing, os, sys, time, traceback
import common, slv
from common import Ob


def _one(job):
    mod, attr, fname, budget = job
    sys.setrecursionlimit(20000)
    slv.TOKENS.acquire()
    t = time.time()
    try:
        m = importlib.import_module(mod)
        v = getattr(m, attr)()
        if budget:
            v.budget = budget
        obs = v.verify(fname)
        return fname, obs, (v.npaths, v.unreached), sorted(v.inlined), sorted(v.used_contracts), v.solver_time, time.time() - t
    except Exception:
        return fname, [Ob("verifier failed", fname, "limit", "slv", 0, traceback.format_exc())], (0, []), [], [], 0, time.time() - t
    finally:
        slv.TOKENS.release()


def prove(chk, mod, funcs=None, attr="verifier", budget=None, jobs=None, others=None):
    """others: says of a failed obligation that it belongs to another property:
    it then counts as not discharged, and the native search decides"""
    m = importlib.import_module(mod)
    todo = [(mod, attr, f, budget) for f in (funcs or m.FUNCS)]
    ctx = multiprocessing.get_context("fork")
    slv.TOKENS = ctx.Semaphore(min(8, os.cpu_count() or 1))
    with ctx.Pool(min(8, len(todo)), maxtasksperchild=1) as pool:
        for fname, obs, (npaths, dead), inl, used, st, wall in pool.imap_unordered(_one, todo):
            for o in obs:
                if others is not None and o.status == "failed" and others(o):
                    o.status = "unknown"
                    o.detail = "(an obligation of another property, which this proof builds on)\n" + o.detail
                chk.add(o)
            chk.under_contract(fname, "slv contract in specs/%s.py; %d paths, %d obligations, solver %.1fs, wall %.1fs%s%s%s" % (
                mod, npaths, len(obs), st, wall,
                ", inlined: " + ", ".join(inl) if inl else "",
                ", callee contracts: " + ", ".join(used) if used else "",
                ", lines no execution allowed by the contract reaches: " + ", ".join(map(str, dead)) if dead else ""))
            if os.environ.get("SLV_VERBOSE"):
                bad = [o for o in obs if o.status != "proved"]
                print("%-28s paths %4d obs %4d bad %d solver %.1f wall %.1f" % (fname, npaths, len(obs), len(bad), st, wall))
                sys.stdout.flush()
    if hasattr(m, "lemmas"):
        prove_lemmas(chk, m.lemmas(), mod)
    import libc
    chk.trust(*libc.TRUST)
    chk.cmds.append("python3-vt /verif/check.py %s (slv on %s)" % (chk.pid, mod))


def prove_lemmas(chk, lems, mod):
    import z3
    for name, e in lems:
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(z3.Not(e))
        t = time.time()
        r = s.check()
        chk.add(Ob("lemma: " + name, "lemmas of specs/%s.py" % mod,
                   "proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown",
                   "z3 " + z3.get_version_string(), time.time() - t, "" if r == z3.unsat else str(s.model() if r == z3.sat else r)))


def prove_ghost(chk, mod):
    """the induction steps of the lemmas the predicates' operations rely on"""
    m = importlib.import_module(mod)
    for name, body in m.GHOST:
        v = m.verifier()
        t = time.time()
        for o in v.verify_ghost("lemma: " + name, body):
            chk.add(o)
        chk.under_contract("lemma: " + name, "induction step in specs/%s.py; %d paths, solver %.1fs" % (mod, v.npaths, v.solver_time))
