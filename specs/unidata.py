"""C23: contracts of the functions in the generated tables.

Each function's contract: for every argument in 0..0x10FFFF (for
_charstr_unicode_primary_composite: for every pair of them) the result is the
one given by the Unicode and IDNA data files in /repo, which are read here
independently of the generator scripts.  The bodies are the generated C
sources, produced anew on every run by the repository's own generators."""
import multiprocessing, os, sys, time, traceback
import cfront, common, gen, intervals
from cfront import Limit, Unit, src
from common import Ob, REPO

N = 0x110000
BLOCK = 0x1000
ALL = ((0, N - 1),)
QC = ("NFC", "NFD", "NFKC", "NFKD")
IS = ("deviation", "disallowed", "disallowed_STD3_valid", "disallowed_STD3_mapped", "ignored", "mapped", "valid")


def lines(name):
    with open(os.path.join(REPO, name), encoding="utf-8") as f:
        for l in f:
            l = l.split("#", 1)[0].strip()
            if l:
                yield [x.strip() for x in l.split(";")]


def rng(s):
    a, _, b = s.partition("..")
    return int(a, 16), int(b or a, 16)


class File:
    """what the data files say"""

    def unicode(self):
        self.cat, self.ccc = ["Cn"] * N, [0] * N
        self.lower, self.upper = list(range(N)), list(range(N))
        self.dec = [None] * N
        first = None
        with open(os.path.join(REPO, "unicode/UnicodeData.txt")) as f:
            for l in f:
                x = l.rstrip("\n").split(";")
                if len(x) < 15:
                    continue
                c = int(x[0], 16)
                if x[1].endswith(", First>"):
                    first = c
                for i in range(first if x[1].endswith(", Last>") else c, c + 1):
                    self.cat[i], self.ccc[i] = x[2], int(x[3])
                if x[5] and x[5][0] != "<":
                    self.dec[c] = tuple(int(y, 16) for y in x[5].split())
                if x[12] and x[2] == "Ll":
                    self.upper[c] = int(x[12], 16)
                if x[13] and x[2] == "Lu":
                    self.lower[c] = int(x[13], 16)
        return self

    def composites(self):
        self.unicode()
        out = set()
        for x in lines("unicode/CompositionExclusions.txt"):
            a, b = rng(x[0])
            out.update(range(a, b + 1))
        comp = {}
        for c in range(N):
            d = self.dec[c]
            if d and len(d) == 2 and c not in out:
                comp.setdefault(d, set()).add(c)
        self.comp = comp
        return self

    def forms(self, enums):
        self.nf = [0] * N
        for x in lines("unicode/DerivedNormalizationProps.txt"):
            if len(x) > 2 and x[1].endswith("_QC") and x[1][:-3] in QC:
                e = {"N": "DISALLOWED", "M": "MAYBE"}.get(x[2])
                if e is None:
                    continue
                v = enums["name:UNICODE_%s_%s" % (x[1][:-3], e)]
                a, b = rng(x[0])
                for i in range(a, b + 1):
                    self.nf[i] |= v
        return self

    def idna(self):
        self.status, self.map = [None] * N, [None] * N
        for x in lines("idna/IdnaMappingTable.txt"):
            if len(x) < 2:
                continue
            a, b = rng(x[0])
            m = None
            if len(x) > 2 and x[2]:
                m = tuple("".join(chr(int(y, 16)) for y in x[2].split()).encode("utf-8"))
            for i in range(a, b + 1):
                self.status[i], self.map[i] = x[1], m
        return self


# function: (source, what, expected values)
def table(fname, ex, enums):
    f = File()
    if fname == "charstr_unicode_category":
        val = {n[5 + len("UNICODE_CATEGORY_"):]: v for n, v in enums.items() if str(n).startswith("name:UNICODE_CATEGORY_")}
        return [val.get(c, c) for c in f.unicode().cat], int
    if fname == "charstr_unicode_canonical_combining_class":
        return f.unicode().ccc, int
    if fname == "charstr_naive_lcase_unicode":
        return f.unicode().lower, int
    if fname == "charstr_naive_ucase_unicode":
        return f.unicode().upper, int
    if fname == "charstr_allowed_unicode_normal_forms":
        return f.forms(enums).nf, int
    if fname == "_charstr_unicode_decomposition":
        return f.unicode().dec, "zero"
    if fname == "charstr_idna_mapping":
        return f.idna().map, "str"
    if fname == "charstr_idna_status":
        return [tuple((s or "?").encode()) for s in f.idna().status], "str"
    if fname.startswith("charstr_idna_status_is_"):
        return [int(s == fname[23:]) for s in f.idna().status], int
    raise KeyError(fname)


FUNCS = {
    "charstr_unicode_category": (["unicode_categories.c"], "general category"),
    "charstr_unicode_canonical_combining_class": (["unicode_canonical_combining_classes.c"], "canonical combining class"),
    "charstr_naive_lcase_unicode": (["unicode_lower_case.c"], "simple lower case of upper-case letters"),
    "charstr_naive_ucase_unicode": (["unicode_upper_case.c"], "simple upper case of lower-case letters"),
    "charstr_allowed_unicode_normal_forms": (["unicode_allowed_in_normal_form.c"], "normal form flags"),
    "_charstr_unicode_decomposition": (["unicode_decomposition.c"], "canonical decomposition"),
    "_charstr_unicode_primary_composite": (["unicode_recomposition.c"], "primary composite"),
    "charstr_idna_mapping": (["idna_table.c"], "IDNA mapping"),
    "charstr_idna_status": (["idna_table.c", "charstr_puny.c"], "IDNA status"),
}
for s in IS:
    FUNCS["charstr_idna_status_is_" + s] = (["idna_table.c"], "IDNA status is " + s)


def value(ex, v, how):
    """a result as the specification writes it"""
    if how is int:
        if not isinstance(v, int):
            raise Limit("result")
        return v
    if v is intervals.NULL:
        return None
    if not isinstance(v, intervals.Ref):
        raise Limit("result")
    t = ex.terminated(v)
    return tuple(x & 255 for x in t) if how == "str" else t


def show(v):
    if isinstance(v, tuple):
        return "{%s}" % " ".join("%x" % x for x in v)
    return "none" if v is None else str(v)


def one(job):
    fname, d = job
    sys.setrecursionlimit(100000)
    t0 = time.time()
    files, what = FUNCS[fname]
    try:
        units = [Unit(os.path.join(d, f) if os.path.exists(os.path.join(d, f)) else src(f)) for f in files]
        for u in units:
            u.ast = None
        ex = intervals.Exec(units)
        enums = {}
        for u in units:
            enums.update(u.enums)
        if fname == "_charstr_unicode_primary_composite":
            obs, n = pairs(ex, fname, what)
        else:
            obs, n = singles(ex, fname, what, enums)
        t = time.time() - t0
        for o in obs:
            o.time = t / len(obs)
        return fname, obs, n, sorted(ex.inlined - {fname}), t
    except intervals.Bad as b:
        return fname, [Ob("no undefined behaviour", fname, "failed", "intervals", time.time() - t0,
                          "%s, for the arguments %s" % (b.what, str(b.dom)[:300]))], 0, [], time.time() - t0
    except Limit as e:
        return fname, [Ob("symbolic execution", fname, "limit", "intervals", time.time() - t0, str(e))], 0, [], time.time() - t0
    except Exception:
        return fname, [Ob("verifier failed", fname, "limit", "intervals", 0, traceback.format_exc())], 0, [], 0


def values(ex, fname, how):
    """what the function returns for each of 0..0x10FFFF"""
    got = [("nothing returned",)] * N
    paths = ex.graph(fname, [ALL])
    total = 0
    for (dom,), v in paths:
        if not isinstance(v, intervals.Lin):
            v = value(ex, v, how)
        for a, b in dom:
            total += b - a + 1
            if isinstance(v, intervals.Lin):
                got[a:b + 1] = range(a + v.k, b + v.k + 1)
            else:
                got[a:b + 1] = [v] * (b - a + 1)
    return got, total, len(paths)


def singles(ex, fname, what, enums):
    want, how = table(fname, ex, enums)
    got, total, npaths = values(ex, fname, how)
    obs = [Ob("the paths partition the arguments 0..10FFFF", fname, "proved" if total == N else "failed", "intervals")]
    for lo in range(0, N, BLOCK):
        ok = got[lo:lo + BLOCK] == want[lo:lo + BLOCK]
        det = ""
        if not ok:
            i = next(i for i in range(lo, lo + BLOCK) if got[i] != want[i])
            n = sum(got[i] != want[i] for i in range(lo, lo + BLOCK))
            det = "U+%04X: the function returns %s, the data file says %s (%d code points differ in this block)" % (
                i, show(got[i]), show(want[i]), n)
        obs.append(Ob("postcondition for U+%04X..U+%04X: the %s is the one in the data file" % (lo, lo + BLOCK - 1, what),
                      fname, "proved" if ok else "failed", "intervals", 0, det))
    return obs, npaths


def pairs(ex, fname, what):
    comp = File().composites().comp
    paths = ex.graph(fname, [ALL, ALL])
    total = 0
    bad = {}
    seen = set()
    bys = {}
    for (a, b) in comp:
        bys.setdefault(b, set()).add(a)
    for (da, db), v in paths:
        na, nb = intervals.size(da), intervals.size(db)
        total += na * nb
        if not isinstance(v, int):
            raise Limit("result")
        if v != -1:
            if na * nb > 1000000:
                bad[None] = "%s x %s compose to %x" % (str(da)[:80], str(db)[:80], v)
                continue
            for x, y in da:
                for s in range(x, y + 1):
                    for p, q in db:
                        for c in range(p, q + 1):
                            if v not in comp.get((s, c), ()):
                                bad[c if c in bys else None] = "U+%04X U+%04X compose to %x, expected %s" % (
                                    s, c, v, show(min(comp[(s, c)])) if (s, c) in comp else "none")
                            seen.add((s, c))
    for s, c in comp:
        if (s, c) not in seen:
            bad[c] = "U+%04X U+%04X do not compose, expected %x" % (s, c, min(comp[(s, c)]))
    obs = [Ob("the paths partition all pairs of arguments", fname, "proved" if total == N * N else "failed", "intervals"),
           Ob("postcondition for the second arguments that occur in no decomposition: no composite", fname,
              "failed" if None in bad else "proved", "intervals", 0, bad.get(None, ""))]
    for c in sorted(bys):
        obs.append(Ob("postcondition for the second argument U+%04X and every first one: the %s is the one in the data files" % (c, what),
                      fname, "failed" if c in bad else "proved", "intervals", 0, bad.get(c, "")))
    return obs, len(paths)


def prove(chk):
    d = os.path.join(common.scratch(), "tables")
    gen.generate_tables(d)
    ctx = multiprocessing.get_context("fork")
    jobs = sorted(((f, d) for f in FUNCS), key=lambda j: FUNCS[j[0]][0][0])
    jobs.sort(key=lambda j: 0 if "canonical" in j[0] or "allowed" in j[0] or "valid" in j[0] else 1)
    with ctx.Pool(6, maxtasksperchild=1) as pool:
        for fname, obs, n, inl, t in pool.imap_unordered(one, jobs):
            for o in obs:
                chk.add(o)
            chk.under_contract(fname, "interval contract in specs/unidata.py over the whole domain; %d paths, %d obligations, %.1fs%s" % (
                n, len(obs), t, ", inlined: " + ", ".join(inl) if inl else ""))
            if os.environ.get("SLV_VERBOSE"):
                print("%-50s paths %6d obs %4d bad %d wall %.1f" % (fname, n, len(obs), sum(o.status != "proved" for o in obs), t))
                sys.stdout.flush()
    chk.trust("the interval back end /verif/lib/intervals.py (exact symbolic execution over sets of code points)",
              "clang 18's AST of the generated C sources; CPython",
              "the reading of the data files in specs/unidata.py (independent of the generators; their format: UAX #44, UTS #46)",
              "the generators run deterministically: the tables checked are those the build produces from the same tree")
    chk.cmds.append("python3-vt /verif/check.py C23 (generators, clang, intervals on 16 functions)")


# ------------------------------------------ facts other proofs take from here

def scalar(c):
    return isinstance(c, int) and (0 <= c < 0xd800 or 0xdfff < c < N)


def acyclic(got):
    """(cycle or None, depth) of the decompositions"""
    depth = {}
    for c in range(N):
        if got[c] is None or c in depth:
            continue
        stack = [(c, 0)]
        busy = {c}
        while stack:
            x, k = stack.pop()
            d = got[x]
            if k < len(d):
                stack.append((x, k + 1))
                y = d[k]
                if got[y] is None or y in depth:
                    continue
                if y in busy:
                    return y, 0
                busy.add(y)
                stack.append((y, 0))
            else:
                busy.discard(x)
                depth[x] = 1 + max([depth.get(y, 0) for y in d] + [0])
    return None, max(depth.values(), default=0)


def fact(job):
    fname, d = job
    sys.setrecursionlimit(100000)
    t0 = time.time()
    obs = []

    def ob(name, bad):
        obs.append(Ob("table fact: " + name, fname, "failed" if bad else "proved", "intervals", 0, str(bad)[:500] if bad else ""))
    try:
        units = [Unit(os.path.join(d, f)) for f in FUNCS[fname][0] if os.path.exists(os.path.join(d, f))]
        for u in units:
            u.ast = None
        ex = intervals.Exec(units)
        if fname == "_charstr_unicode_primary_composite":
            paths = ex.graph(fname, [ALL, ALL])
            ob("defined for all pairs", sum(intervals.size(a) * intervals.size(b) for (a, b), v in paths) != N * N)
            ob("composites are -1 or scalar values", [v for _, v in paths if not (v == -1 or scalar(v) and v)])
        else:
            how = "zero" if fname == "_charstr_unicode_decomposition" else "str" if fname in ("charstr_idna_mapping", "charstr_idna_status") else int
            got, total, _ = values(ex, fname, how)
            ob("defined for 0..10FFFF", total != N)
            if fname == "charstr_unicode_canonical_combining_class":
                ob("classes are 0..254", [c for c in range(N) if not 0 <= got[c] <= 254])
                ob("ASCII is of class 0", [c for c in range(128) if got[c]])
            elif fname == "charstr_allowed_unicode_normal_forms":
                ob("flags are 0..255", [c for c in range(N) if not 0 <= got[c] <= 255])
            elif fname == "_charstr_unicode_decomposition":
                ob("decompositions have one or two elements", [c for c in range(N) if got[c] is not None and not 1 <= len(got[c]) <= 2])
                ob("decompositions consist of scalar values", [c for c in range(N) if got[c] and not all(scalar(x) and x for x in got[c])])
                ob("no Hangul syllable, no ASCII and no NUL decomposes", [c for c in list(range(0xac00, 0xac00 + 11172)) + list(range(128)) if got[c]])
                if not obs[-1].detail:
                    cyc, dep = acyclic(got)
                    ob("the decompositions are acyclic", cyc)
                    ob("their depth is at most 8", dep > 8)
            elif fname == "charstr_idna_mapping":
                ok = lambda t: t is None or len(t) < 256 and 0 not in t and valid(t)
                ob("mappings are well-formed UTF-8 of less than 256 bytes", [c for c in range(N) if not ok(got[c])])
                is_, _, _ = values(ex, "charstr_idna_status_is_mapped", int)
                ob("code points of status 'mapped' have a mapping", [c for c in range(N) if is_[c] and got[c] is None])
            elif fname.startswith("charstr_idna_status_is_"):
                ob("yes or no", [c for c in range(N) if got[c] not in (0, 1)])
            elif fname == "charstr_unicode_category":
                ob("categories are 0..255", [c for c in range(N) if not 0 <= got[c] <= 255])
    except intervals.Bad as b:
        obs.append(Ob("no undefined behaviour", fname, "failed", "intervals", 0, "%s, for the arguments %s" % (b.what, str(b.dom)[:300])))
    except Limit as e:
        obs.append(Ob("symbolic execution", fname, "limit", "intervals", 0, str(e)))
    except Exception:
        obs.append(Ob("verifier failed", fname, "limit", "intervals", 0, traceback.format_exc()))
    for o in obs:
        o.time = (time.time() - t0) / len(obs)
    return fname, obs, time.time() - t0


def valid(t):
    try:
        bytes(t).decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def facts(chk, funcs):
    d = os.path.join(common.scratch(), "tables")
    gen.generate_tables(d)
    with multiprocessing.get_context("fork").Pool(4, maxtasksperchild=1) as pool:
        for fname, obs, t in pool.imap_unordered(fact, [(f, d) for f in funcs]):
            for o in obs:
                chk.add(o)
            chk.under_contract(fname, "facts about the generated table, decided over the whole domain (specs/unidata.py), %.1fs" % t)
            if os.environ.get("SLV_VERBOSE"):
                print("%-50s obs %4d bad %d wall %.1f" % (fname, len(obs), sum(o.status != "proved" for o in obs), t))
    chk.trust("the interval back end /verif/lib/intervals.py (exact symbolic execution over sets of code points)",
              "that the tables hold what the Unicode data say is C23's; C21 and C22 build on the facts listed")
