"""Contracts of intset.c: a set of unsigned integers as a bit vector.

All words, indices and bits are machine bit-vectors, nothing is approximated.
An element is a member when it is below the size and its bit is set."""
from slv import *
import libc

B64 = z3.BitVecSort(64)
LIM = (1 << 31) - 1


def w64(x):
    if not isz(x):
        return z3.BitVecVal(x, 64)
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def words(size):
    return z3.UDiv(w64(size) + 63, z3.BitVecVal(64, 64))


def bit(word, e):
    return z3.Extract(0, 0, z3.LShR(word, z3.URem(w64(e), z3.BitVecVal(64, 64)))) == 1


class Set:
    def __init__(self, size, get, ex):
        self.size, self.get, self.ex = w64(size), get, ex

    def has(self, e):
        """the element belongs to the set"""
        e = w64(e)
        self.ex.index_term(z3.UDiv(e, z3.BitVecVal(64, 64)), "word")
        return And(z3.ULT(e, self.size), bit(self.get(z3.UDiv(e, z3.BitVecVal(64, 64))), e))


def a_set(m, p, given=None):
    """ownership of a set; the set it represents"""
    f = m.obj(p, "struct intset")
    size = f["size"]
    if given is not None:
        m.pure(w64(size) == w64(given), "the size stays")
        size = given
    m.pure(z3.ULE(w64(size), LIM), "a size that fits in an int")
    n = words(size)
    if m.split(n == 0):
        if m.assuming:
            # an empty set may have no block at all
            if m.ex.choose(2) == 0:
                m.ex.assume(f["data"].base == 0)
            else:
                a = m.arr(f["data"], U64, n=z3.BitVecVal(0, 64))
        elif m.split(m.ex.nonnull(f["data"])):
            m.arr(f["data"], U64, n=z3.BitVecVal(0, 64))
        return Set(size, lambda i: z3.BitVecVal(0, 64), m.ex)
    a = m.arr(f["data"], U64, n=n)
    m.ex.model_terms.append(("size", w64(size)))
    return Set(size, a.get, m.ex)


def probe(m, fn, what):
    m.forall(lambda e: fn(e), what)


def s_make(m, size):
    if m.assuming:
        m.ex.assume(z3.ULE(w64(size), LIM))
    else:
        m.pure(z3.ULE(w64(size), LIM), "a size that fits in an int")
    ret = yield
    s = a_set(m, m.val(ret), size)
    m.forall(lambda e: Not(s.has(e)), "a new set is empty")


def s_destroy(m, p):
    a_set(m, p)
    yield


def s_fill(m, p):
    s = a_set(m, p)
    if m.assuming:
        m.ex.ghost["set"] = s
        m.ex.ghost["p"] = p
    yield
    t = a_set(m, p, s.size)
    m.forall(lambda e: t.has(e) == z3.ULT(e, s.size), "every element below the size is a member")


def inv_fill(m):
    s = m.ex.ghost["set"]
    i = w64(m.var("i"))
    data = m.ex.load(P(m.ex.ghost["p"].base, ("data",)), T("ptr", to=U64))
    n = words(s.size)
    m.pure(z3.ULE(i, n), "words done")
    if m.split(n == 0):
        return
    a = m.arr(data, U64, n=n)
    m.ex.index_term(i, "word")
    m.forall(lambda k: Implies(z3.ULT(k, i), a.get(k) == z3.BitVecVal(-1, 64)), "filled so far", kind="word")
    m.decreases(n - i)


def s_change(add):
    def spec(m, p, elem):
        s = a_set(m, p)
        e0 = w64(elem)
        yield
        t = a_set(m, p, s.size)
        m.forall(lambda e: t.has(e) == (Or(s.has(e), And(e == e0, z3.ULT(e, s.size))) if add else And(s.has(e), e != e0)),
                 "only the given element is %s" % ("added" if add else "removed"))
        # and for the element itself, to ease the solver
        m.pure(t.has(e0) == (z3.ULT(e0, s.size) if add else z3.BoolVal(False)), "the element is %s" % ("in" if add else "out"))
    return spec


def s_has(m, p, elem):
    s = a_set(m, p)
    ret = yield
    t = a_set(m, p, s.size)
    r = m.val(ret)
    r = r if isinstance(r, (bool, z3.BoolRef)) else r != 0
    m.pure(r == s.has(elem), "membership")
    m.forall(lambda e: t.has(e) == s.has(e), "the set stays")


def next_spec(m, p, elem, hit):
    s = a_set(m, p)
    if m.assuming:
        m.ex.ghost["set"] = s
    ret = yield
    t = a_set(m, p, s.size)
    r = m.val(ret)
    e0 = w64(elem)
    h = hit if isinstance(hit, (bool, z3.BoolRef)) else hit != 0
    is_hit = lambda e: And(z3.ULT(e, s.size), s.has(e) == h)
    m.forall(lambda e: t.has(e) == s.has(e), "the set stays")
    if not isz(r):
        r = z3.BitVecVal(r, 32)
    if m.split(r == -1):
        m.forall(lambda e: Implies(z3.UGE(e, e0), Not(is_hit(e))), "-1 only if there is none")
        return
    x = z3.SignExt(32, r)
    m.ex.index_term(x)
    m.pure(And(x >= 0, z3.UGE(x, e0), is_hit(x)), "an element of the kind asked for, not before the given one")
    m.forall(lambda e: Implies(And(z3.UGE(e, e0), z3.ULT(e, x)), Not(is_hit(e))), "the least such element")


def s_next(m, p, elem, hit):
    if m.assuming:
        m.ex.ghost["from"] = (w64(elem), hit)
    return next_spec(m, p, elem, hit)


def s_hit(m, p, elem):
    if m.assuming:
        m.ex.ghost["from"] = (w64(elem), True)
    return next_spec(m, p, elem, True)


def s_miss(m, p, elem):
    if m.assuming:
        m.ex.ghost["from"] = (w64(elem), False)
    return next_spec(m, p, elem, False)


def s_empty(m, p):
    s = a_set(m, p)
    if m.assuming:
        m.ex.ghost["set"] = s
        m.ex.ghost["from"] = (w64(0), True)
    # some: there is a member
    some = z3.Bool(m.ex.nm("some_member"))
    k = m.fresh("member")
    m.ex.index_term(k)
    m.ex.assume(Implies(some, s.has(k)))
    m.ex.add_lazy(lambda e: Implies(Not(some), Not(s.has(e))))
    ret = yield
    t = a_set(m, p, s.size)
    r = m.val(ret)
    r = r if isinstance(r, (bool, z3.BoolRef)) else r != 0
    m.forall(lambda e: t.has(e) == s.has(e), "the set stays")
    m.pure(r == Not(some), "empty exactly when there is no member")


def inv_next(m):
    """the word at hand holds what is asked for among its 64 elements"""
    ex = m.ex
    s = ex.ghost["set"]
    e0, hit = ex.ghost["from"]
    h = hit if isinstance(hit, (bool, z3.BoolRef)) else hit != 0
    elem = w64(m.var("elem"))
    x = w64(m.var("x"))
    c64 = z3.BitVecVal(64, 64)
    q = z3.UDiv(elem, c64)
    m.pure(And(z3.URem(elem, c64) == 0, z3.ULT(elem, s.size), z3.UGE(q, z3.UDiv(e0, c64))), "at the start of a word")
    raw = lambda e: bit(s.get(z3.UDiv(e, c64)), e) == h
    for t in (elem, e0):
        ex.index_term(t)
    m.forall(lambda e: Implies(z3.UDiv(e, c64) == q, bit(x, e) == And(z3.UGE(e, e0), raw(e))), "what is left to look at")
    m.forall(lambda e: Implies(And(z3.UGE(e, e0), z3.ULT(e, elem)), Not(raw(e))), "none so far")
    m.decreases(s.size - elem)


def b_ctzl(ex, args, rty):
    x = args[0]
    ex.prove(x != 0 if isz(x) else x != 0, "__builtin_ctzl of a non-zero word", kind="arith")
    c = z3.BitVec(ex.nm("ctz"), 64)
    one = z3.BitVecVal(1, 64)
    ex.assume(And(z3.ULT(c, 64), z3.Extract(0, 0, z3.LShR(x, c)) == 1, x & ((one << c) - 1) == 0))
    return z3.Extract(31, 0, c)


C = Contract
LN = {0: LoopSpec(inv_next, {"elem": "int:32:False", "x": "int:64:False"})}
CONTRACTS = {c.name: c for c in [
    C("make_intset", s_make), C("destroy_intset", s_destroy),
    C("intset_fill", s_fill, {0: LoopSpec(inv_fill, {"i": "int"})}),
    C("intset_add", s_change(True)), C("intset_remove", s_change(False)), C("intset_has", s_has),
    C("intset_find_next", s_next, LN),
    C("intset_find_next_hit", s_hit, LN), C("intset_find_next_miss", s_miss, LN),
    C("intset_empty", s_empty, LN),
]}


def setup(ex):
    pass


def verifier():
    b = dict(libc.BUILTINS)
    b["__builtin_ctzl"] = b["__builtin_ctzll"] = b_ctzl
    u = Unit(src("intset.c"))
    if "intset_find_next" not in u.funcs:
        CONTRACTS.pop("intset_find_next", None)
    return Verifier([u], CONTRACTS, {}, mode="bv", builtins=b, setup=setup)


FUNCS = list(CONTRACTS)
