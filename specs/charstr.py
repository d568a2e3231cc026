"""Contracts of charstr.c: classification and case (C15), duplication, prefixes,
stripping and splitting (C17)."""
import importlib
from slv import *
import libc
from b64 import iv, text, truth, errno_is, each

Z = z3.IntVal(0)
BIG = 1 << 62
UNLIMITED = (1 << 64) - 1


def U(c):
    """the byte as an unsigned value"""
    c = iv(c)
    return Ite(c < 0, c + 256, c)


def L(c):
    """ASCII lower case (any signedness)"""
    c = iv(c)
    return Ite(And(c >= 65, c <= 90), c + 32, c)


def Up(c):
    c = iv(c)
    return Ite(And(c >= 97, c <= 122), c - 32, c)


def same_sign(r, x):
    return And((r < 0) == (x < 0), (r > 0) == (x > 0))


def mstr(m, p):
    """a NUL-terminated string the function may change: span of length n + 1"""
    ex = m.ex
    if m.assuming:
        n = m.fresh("len")
        ex.assume(And(n >= 0, n < BIG))
        sp = m.span(p, I8, n + 1)
        ex.index_term(n)
        ex.assume(sp.get(n) == 0)
        ex.add_lazy(lambda k: Implies(And(k >= 0, k < n), sp.get(k) != 0))
        return n, sp
    n, _ = m.cstr(p)
    return n, m.span(p, I8, n + 1, init=True)


# ---------------------------------------------------------------- C15

CLASSES = [(0x0001, lambda c: Or(c < 32, c == 127)), (0x0002, lambda c: And(c >= 48, c <= 57)),
           (0x0004, lambda c: And(c >= 97, c <= 122)), (0x0008, lambda c: And(c >= 65, c <= 90)),
           (0x0010, lambda c: c == 9), (0x0020, lambda c: c == 10), (0x0040, lambda c: c == 12),
           (0x0080, lambda c: c == 13), (0x0100, lambda c: c == 32), (0x0200, lambda c: And(c >= 48, c <= 55)),
           (0x0400, lambda c: hexdigit(c)), (0x0800, lambda c: c == 95), (0x1000, lambda c: And(c >= 32, c <= 126))]


def hexdigit(c):
    return Or(And(c >= 48, c <= 57), And(c >= 65, c <= 70), And(c >= 97, c <= 102))


def s_class(m, c):
    ret = yield
    u = U(c)
    m.pure(m.val(ret) == sum([Ite(f(u), z3.IntVal(b), Z) for b, f in CLASSES]), "exactly the documented classes")


def s_lcase(m, c):
    ret = yield
    m.pure(m.val(ret) == L(c), "A-Z become a-z, all others stay")


def s_ucase(m, c):
    ret = yield
    m.pure(m.val(ret) == Up(c), "a-z become A-Z, all others stay")


def s_digit(m, c):
    ret = yield
    u = U(c)
    m.pure(Implies(hexdigit(u), m.val(ret) == Ite(u <= 57, u - 48, Ite(u <= 70, u - 55, u - 87))), "value of the hexadecimal digit")
    m.pure(And(m.val(ret) >= 0, m.val(ret) <= 255), "a small number")


def s_cmp(m, a, b, n=None):
    """d is the first position that decides"""
    ex = m.ex
    lim = UNLIMITED if n is None else n
    if n is None:
        ea, ga = m.cstr(a)
        eb, gb = m.cstr(b)
    else:
        ga, ea = text(m, a, n)
        gb, eb = text(m, b, n)
        n = iv(n)
    d = m.fresh("d")
    ex.assume(And(d >= 0, d <= ea, d <= eb))
    ex.index_term(d)
    ex.add_lazy(lambda k: Implies(And(k >= 0, k < d), And(L(U(ga(k))) == L(U(gb(k))), ga(k) != 0)))
    decided = Or(L(U(ga(d))) != L(U(gb(d))), ga(d) == 0)
    if n is None:
        ex.assume(decided)
        diff = L(U(ga(d))) - L(U(gb(d)))
    else:
        ex.assume(And(d <= n, Or(d == n, decided)))
        diff = Ite(d == n, Z, L(U(ga(d))) - L(U(gb(d))))
    ex.ghost["cmp"] = a.base, b.base, d, n
    ret = yield
    m.pure(same_sign(m.val(ret), diff), "the sign tells how the lower-cased strings compare")


def inv_cmp(m):
    ab, bb, d, n = m.ex.ghost["cmp"]
    i = m.ptr("a", ab)
    j = m.ptr("b", bb)
    m.ex.index_term(i)
    m.pure(And(i == j, i >= 0, i <= d), "both at the same place, undecided so far")
    if n is not None:
        m.pure(iv(m.var("n")) == n - i, "characters left")
    m.decreases(d - i)


def case_str(conv):
    def s(m, p):
        ex = m.ex
        n, sp = mstr(m, p)
        ex.ghost["case"] = p, n, sp.get
        ret = yield
        m.ret_is(ret, p)
        new = sp.back()
        m.forall(lambda j: Implies(And(j >= 0, j < n), new.get(j) == conv(sp.get(j))), "letters are converted, nothing else changes")
        ex.index_term(n)
        m.pure(new.get(n) == 0, "still terminated")
    return s


def case_substr(conv):
    def s(m, p, end):
        ex = m.ex
        if m.assuming:
            n = m.fresh("n")
            ex.assume(And(n >= 0, n < BIG))
            end = m.args[1] = P(p.base, (n,))
        else:
            m.pure(p.base == end.base if isz(p.base) or isz(end.base) else p.base == end.base, "the end lies in the same string")
            n = iv(end.idx) - iv(p.idx)
            m.pure(n >= 0, "the end is not before the start")
        sp = m.span(p, I8, n, init=True)
        ex.ghost["case"] = p, n, sp.get
        ret = yield
        m.ret_is(ret, p)
        new = sp.back()
        m.forall(lambda j: Implies(And(j >= 0, j < n), new.get(j) == conv(sp.get(j))), "letters are converted, nothing else changes")
    return s


def inv_case(conv, term):
    def inv(m):
        ex = m.ex
        base, n, old = ex.ghost["case"]
        i = m.ptr("p", base.base)
        ex.index_term(i)
        m.pure(And(i >= 0, i <= n), "position within the string")
        a = m.arr(base, I8, n=n + (1 if term else 0), heap=False)
        m.forall(lambda j: Implies(And(j >= 0, j < i), a.get(j) == conv(old(j))), "converted so far")
        m.forall(lambda j: Implies(And(j >= i, j < a.n), a.get(j) == old(j)), "the rest is untouched")
        m.decreases(n - i)
    return inv


PP = {"p": "ptr"}
C = Contract
C15 = {c.name: c for c in [
    C("charstr_char_class", s_class), C("charstr_lcase_char", s_lcase), C("charstr_ucase_char", s_ucase), C("charstr_digit_value", s_digit),
    C("charstr_case_cmp", s_cmp, {0: LoopSpec(inv_cmp, {"a": "ptr", "b": "ptr"})}),
    C("charstr_ncase_cmp", s_cmp, {0: LoopSpec(inv_cmp, {"a": "ptr", "b": "ptr", "n": "int:64:False"})}),
    C("charstr_lcase_str", case_str(L), {0: LoopSpec(inv_case(L, True), PP)}),
    C("charstr_ucase_str", case_str(Up), {0: LoopSpec(inv_case(Up, True), PP)}),
    C("charstr_lcase_substr", case_substr(L), {0: LoopSpec(inv_case(L, False), PP)}),
    C("charstr_ucase_substr", case_substr(Up), {0: LoopSpec(inv_case(Up, False), PP)}),
]}


def verifier15():
    return Verifier([Unit(src("charstr.c"))], C15, {}, builtins=libc.BUILTINS)


# ---------------------------------------------------------------- C17

listspec = importlib.import_module("list")


def ws(c):
    return Or(iv(c) == 9, iv(c) == 10, iv(c) == 12, iv(c) == 13, iv(c) == 32)


def null(m, p):
    return not m.split(m.ex.nonnull(m.val(p)))


def dup_of(m, ret, get, n):
    """a block of its own with n bytes and a NUL"""
    m.arr(ret, I8, n=n + 1, get=lambda j: Ite(j < n, get(j), Z))


def s_dupstr(m, s):
    if null(m, s):
        ret = yield
        m.ret_null(ret)
        return
    n, get = m.cstr(s)
    ret = yield
    dup_of(m, ret, get, n)


def s_dupsubstr(m, s, end):
    if null(m, s):
        ret = yield
        m.ret_null(ret)
        return
    if null(m, end):
        n, get = m.cstr(s)
    else:
        n = to_end(m, s, end)
        get = m.borrow(s, I8, n).get
    ret = yield
    dup_of(m, ret, get, n)


def to_end(m, s, end):
    """number of bytes from s to end, which lies in the same string"""
    if m.assuming:
        n = m.fresh("n")
        m.ex.assume(And(n >= 0, n < BIG))
        m.args[1] = P(s.base, (n,))
        return n
    m.pure(s.base == end.base, "the end lies in the same string")
    n = iv(end.idx) - iv(s.idx)
    m.pure(n >= 0, "the end is not before the start")
    return n


def s_skip(conv):
    def spec(m, s, prefix):
        ex = m.ex
        n, gs = m.cstr(s)
        k, gp = m.cstr(prefix)
        d = m.fresh("d")            # how far they agree
        ex.assume(And(d >= 0, d <= k, d <= n))
        ex.index_term(d)
        ex.add_lazy(lambda j: Implies(And(j >= 0, j < d), conv(gs(j)) == conv(gp(j))))
        ex.assume(Or(d == k, conv(gs(d)) != conv(gp(d))))
        if m.assuming:
            ex.ghost["skip"] = s, prefix, d, k
        ret = yield
        if m.split(d == k):
            i = m.ret_ptr(ret, s.base)
            m.pure(iv(i) == iv(s.idx) + k, "the position after the prefix")
        else:
            m.ret_null(ret)
    return spec


def inv_skip(m):
    s, prefix, d, k = m.ex.ghost["skip"]
    i = m.ptr("s", s.base)
    j = m.ptr("prefix", prefix.base)
    m.ex.index_term(i)
    m.ex.index_term(j)
    m.pure(And(i == j, i >= 0, i <= d), "they agree so far")
    m.decreases(d - i)


def s_ends(m, s, suffix):
    ex = m.ex
    n, gs = m.cstr(s)
    k, gp = m.cstr(suffix)
    if not m.split(n >= k):
        ret = yield
        m.pure(Not(ex.truth(m.val(ret), I32)), "too short")
        return
    d = m.fresh("d")
    ex.assume(And(d >= 0, d <= k))
    ex.index_term(d)
    ex.index_term(n - k + d)
    ex.add_lazy(lambda j: Implies(And(j >= 0, j < d), gs(n - k + j) == gp(j)))
    ex.add_lazy(lambda j: Implies(And(j - (n - k) >= 0, j - (n - k) < d), gs(j) == gp(j - (n - k))))
    ex.assume(Or(d == k, gs(n - k + d) != gp(d)))
    ret = yield
    m.pure(ex.truth(m.val(ret), I32) == (d == k), "true exactly when it ends with the suffix")


def s_strip(m, s):
    ex = m.ex
    if null(m, s):
        ret = yield
        m.ret_null(ret)
        return
    n, get = m.cstr(s)
    b, e = m.fresh("b"), m.fresh("e")
    ex.assume(And(0 <= b, b <= e, e <= n))
    for t in (b, e, e - 1, n):
        ex.index_term(t)
    ex.add_lazy(lambda j: Implies(Or(And(j >= 0, j < b), And(j >= e, j < n)), ws(get(j))))
    ex.assume(Not(ws(get(b))))
    ex.assume(Or(e == b, Not(ws(get(e - 1)))))
    if m.assuming:
        ex.ghost["strip"] = s, b, e, n
    ret = yield
    dup_of(m, ret, lambda j: get(j + b), e - b)


def inv_strip0(m):
    s, b, e, n = m.ex.ghost["strip"]
    i = m.ptr("s", s.base)
    m.ex.index_term(i)
    m.pure(And(i >= 0, i <= b), "only whitespace skipped")
    m.decreases(b - i)


def inv_strip1(m):
    s, b, e, n = m.ex.ghost["strip"]
    j = m.ptr("end", s.base)
    m.ex.index_term(j)
    m.ex.index_term(j - 1)
    m.pure(And(j >= e, j <= n), "only whitespace dropped")
    m.decreases(j - e)


class Strs:
    """n strings, each in a block of its own"""

    def __init__(self, n, addr, ln, byte):
        self.n, self.addr, self.len, self.byte = n, addr, ln, byte

    def add(self, base, a):
        o = self
        return Strs(z3.simplify(o.n + 1), lambda j: Ite(j == o.n, base, o.addr(j)), lambda j: Ite(j == o.n, a.n - 1, o.len(j)),
                    lambda j, t: Ite(j == o.n, a.get(t), o.byte(j, t)))


class StrsDef(PredDef):
    name = "strs"

    def fresh_outs(self, ex):
        II = [z3.IntSort()] * 2
        f = [z3.Function(ex.nm(x), *II) for x in ("piece", "piecelen")]
        return (Strs(ex.freshint("np"), f[0], f[1], z3.Function(ex.nm("piecebyte"), z3.IntSort(), *II)),)

    def facts(self, ex, ins, outs):
        ex.assume(outs[0].n >= 0)

    def empty(self, ex, c):
        return ex.entails(c.outs[0].n == 0)

    def consume(self, m, ins):
        """what was there, and every string block made since"""
        ex = m.ex
        c = self.match(m, self.name, ins)
        acc = Strs(Z, *[lambda *a: Z] * 3)
        if c is not None:
            ex.remove(c)
            acc = c.outs[0]
        for c in [c for c in ex.chunks if isinstance(c, Mem) and c.heap and not c.ro and not c.frozen and isinstance(c.val, ArrVal)
                  and c.val.et.isint and c.val.et.w == 8]:
            ex.remove(c)
            a = c.val
            if a.defd is not None:
                m.forall(lambda k: Implies(And(k >= 0, k < a.n), a.defd(k)), "the string is initialised")
            acc = acc.add(iv(c.base), a)
        return (acc,)


def pieces(m, sl, lo, get, st, en):
    """strings lo.. are the stretches [st(j), en(j)) of the text"""
    m.forall(lambda j: Implies(And(j >= 0, j < sl.n), sl.len(j) == en(j) - st(j)), "length of each piece")
    m.forall(lambda j, t: Implies(And(j >= 0, j < sl.n, t >= 0, t < en(j) - st(j)), sl.byte(j, t) == get(st(j) + t)),
             "bytes of each piece", arity=2)
    m.forall(lambda j: Implies(And(j >= 0, j < sl.n), sl.byte(j, en(j) - st(j)) == 0), "each piece is terminated")


def cuts(m, s, get, n, mx, hit, skip):
    """PS(j), PE(j): where piece j of K + 1 starts and ends; a cut is made at
    the first position from PS(j) on with hit(position), skip wide"""
    ex = m.ex
    PS, PE = [z3.Function(ex.nm(x), z3.IntSort(), z3.IntSort()) for x in ("PS", "PE")]
    K = m.fresh("K")
    ex.assume(And(K >= 0, K <= mx, PS(Z) == 0, PE(K) == n, PS(K) <= n, PS(K) >= K))
    for t in (K, n, PS(K)):
        ex.index_term(t)
    ex.add_lazy(lambda j: Implies(And(j >= 0, j < K), And(PS(j) >= j, PE(j) >= PS(j), PE(j) + skip <= n, hit(PE(j)), PS(j + 1) == PE(j) + skip)))
    ex.add_lazy(lambda j, t: Implies(And(j >= 0, j < K, t >= PS(j), t < PE(j)), Not(hit(t))), 2)
    ex.add_lazy(lambda t: Implies(And(K < mx, t >= PS(K), t < n), Not(hit(t))))

    def at(k):
        for t in (k, PS(k), PE(k)):
            ex.index_term(t)
    at(Z)
    return PS, PE, K, at


def s_split(m, s, delim, mx):
    n, get = m.cstr(s)
    m.pure(iv(delim) != 0, "the delimiter is not NUL")
    d = iv(delim)
    PS, PE, K, at = cuts(m, s, get, n, iv(mx), lambda t: get(t) == d, 1)
    m.ex.ghost["split"] = s, get, PS, PE, K, at, iv(mx)
    ret = yield
    split_result(m, ret)


def s_split_str(m, s, delim, mx):
    n, get = m.cstr(s)
    k, gd = m.cstr(delim)
    m.pure(k > 0, "the delimiter is not empty")
    hit = libc.occurs(m.ex, s, get, n, delim, gd, k)
    PS, PE, K, at = cuts(m, s, get, n, iv(mx), hit, k)
    m.ex.ghost["split"] = s, get, PS, PE, K, at, iv(mx)
    ret = yield
    split_result(m, ret)


def split_result(m, ret):
    s, get, PS, PE, K, at, mx = m.ex.ghost["split"]
    q = listspec.list_pre(m, ret)
    sl, = m.pred("strs", Z)
    m.pure(And(q.n == K + 1, sl.n == K + 1), "as many pieces as cuts, and one more")
    at(K)
    m.forall(lambda j: Implies(And(j >= 0, j <= K), q.val(j) == sl.addr(j)), "the list has the pieces in order")
    pieces(m, sl, Z, get, PS, PE)


def inv_split(m):
    ex = m.ex
    s, get, PS, PE, K, at, mx = ex.ghost["split"]
    i = m.ptr("s", s.base)
    q = listspec.list_pre(m, ex.ghost["made"])
    sl, = m.pred("strs", Z)
    k = sl.n
    at(k)
    m.pure(And(q.n == k, k >= 0, k <= K), "pieces so far")
    m.pure(i == PS(k), "standing after the last cut")
    m.pure(iv(m.var("max_split")) == mx - k, "cuts left")
    m.forall(lambda j: Implies(And(j >= 0, j < k), q.val(j) == sl.addr(j)), "the list has the pieces in order")
    pieces(m, sl, Z, get, PS, PE)
    m.decreases(K - k)


def s_split_array(m, s, delim, array, mx):
    n, get = m.cstr(s)
    m.pure(iv(delim) != 0, "the delimiter is not NUL")
    d = iv(delim)
    PS, PE, K, at = cuts(m, s, get, n, iv(mx), lambda t: get(t) == d, 1)
    sp = m.span(array, PCH, iv(mx) + 1)
    m.ex.ghost["split"] = s, get, PS, PE, K, at, iv(mx), array
    ret = yield
    m.pure(m.val(ret) == K, "the number of cuts")
    a = sp.back(defd=lambda j: j <= K)
    sl, = m.pred("strs", Z)
    m.pure(sl.n == K + 1, "as many pieces as cuts, and one more")
    at(K)
    m.forall(lambda j: Implies(And(j >= 0, j <= K), pbase(a.get(j)) == sl.addr(j)), "the array has the pieces in order")
    pieces(m, sl, Z, get, PS, PE)


def pbase(p):
    return iv(p.base if isinstance(p, P) else p)


def inv_split_array(m):
    ex = m.ex
    s, get, PS, PE, K, at, mx, array = ex.ghost["split"]
    p = m.ptr("s", s.base)
    i = iv(m.var("i"))
    sl, = m.pred("strs", Z)
    k = sl.n
    at(k)
    a = m.arr(array, PCH, n=mx + 1, heap=False, defd=lambda j: j < k)
    m.pure(And(i == k, k >= 0, k <= K), "pieces so far")
    m.pure(p == PS(k), "standing after the last cut")
    m.forall(lambda j: Implies(And(j >= 0, j < k), pbase(a.get(j)) == sl.addr(j)), "the array has the pieces in order")
    pieces(m, sl, Z, get, PS, PE)
    m.decreases(K - k)


def s_atoms(m, s):
    ex = m.ex
    n, get = m.cstr(s)
    G, AS, AE = [z3.Function(ex.nm(x), z3.IntSort(), z3.IntSort()) for x in ("G", "AS", "AE")]
    K = m.fresh("K")
    ex.assume(And(K >= 0, G(Z) == 0, G(K) <= n, G(K) >= K))
    ex.add_lazy(lambda j: Implies(And(j >= 0, j < K), And(G(j) >= j, AS(j) >= G(j), AE(j) > AS(j), AE(j) <= n, G(j + 1) == AE(j), Not(ws(get(AS(j)))),
                                                          Or(AE(j) == n, ws(get(AE(j)))))))
    ex.add_lazy(lambda j, t: Implies(And(j >= 0, j < K, t >= G(j), t < AS(j)), ws(get(t))), 2)
    ex.add_lazy(lambda j, t: Implies(And(j >= 0, j < K, t >= AS(j), t < AE(j)), Not(ws(get(t)))), 2)
    ex.add_lazy(lambda t: Implies(And(t >= G(K), t < n), ws(get(t))))

    def at(k):
        for t in (k, G(k), AS(k), AE(k)):
            ex.index_term(t)
    at(K)
    at(Z)
    ex.index_term(n)
    ex.ghost["atoms"] = s, get, n, G, AS, AE, K, at
    ret = yield
    q = listspec.list_pre(m, ret)
    sl, = m.pred("strs", Z)
    m.pure(And(q.n == K, sl.n == K), "as many pieces as runs")
    m.forall(lambda j: Implies(And(j >= 0, j < K), q.val(j) == sl.addr(j)), "the list has the runs in order")
    pieces(m, sl, Z, get, AS, AE)


def inv_atoms(m):
    ex = m.ex
    s, get, n, G, AS, AE, K, at = ex.ghost["atoms"]
    i = m.ptr("s", s.base)
    q = listspec.list_pre(m, ex.ghost["made"])
    sl, = m.pred("strs", Z)
    k = sl.n
    at(k)
    if m.assuming:
        ex.ghost["atom"] = k
    m.pure(And(q.n == k, k >= 0, k <= K), "runs so far")
    m.pure(i == G(k), "standing after the last run")
    m.forall(lambda j: Implies(And(j >= 0, j < k), q.val(j) == sl.addr(j)), "the list has the runs in order")
    pieces(m, sl, Z, get, AS, AE)
    m.decreases(K - k)


def inv_atoms1(m):
    ex = m.ex
    s, get, n, G, AS, AE, K, at = ex.ghost["atoms"]
    k = ex.ghost["atom"]
    i = m.ptr("s", s.base)
    ex.index_term(i)
    m.pure(And(i >= G(k), i <= n), "within the string")
    m.pure(Implies(k < K, i <= AS(k)), "not past the next run")
    m.decreases(n - i)


def inv_atoms2(m):
    ex = m.ex
    s, get, n, G, AS, AE, K, at = ex.ghost["atoms"]
    k = ex.ghost["atom"]
    i = m.ptr("p", s.base)
    ex.index_term(i)
    m.pure(And(k < K, i >= AS(k), i <= AE(k)), "within the run")
    m.decreases(AE(k) - i)


PCH = T("ptr", to=I8)
SP = {"s": "ptr", "prefix": "ptr"}
C17 = {c.name: c for c in [
    C15["charstr_char_class"], C15["charstr_lcase_char"],
    C("charstr_dupstr", s_dupstr), C("charstr_dupsubstr", s_dupsubstr),
    C("charstr_skip_prefix", s_skip(lambda c: c), {0: LoopSpec(inv_skip, SP)}),
    C("charstr_case_skip_prefix", s_skip(lambda c: L(U(c))), {0: LoopSpec(inv_skip, SP)}),
    C("charstr_case_starts_with", s_skip(lambda c: c), {0: LoopSpec(inv_skip, SP)}),
    C("charstr_ncase_starts_with", s_skip(lambda c: L(U(c))), {0: LoopSpec(inv_skip, SP)}),
    C("charstr_ends_with", s_ends),
    C("charstr_strip", s_strip, {0: LoopSpec(inv_strip0, {"s": "ptr"}), 1: LoopSpec(inv_strip1, {"end": "ptr"})}),
    C("charstr_split", s_split, {0: LoopSpec(inv_split, {"s": "ptr", "max_split": "int"})}),
    C("charstr_split_str", s_split_str, {0: LoopSpec(inv_split, {"s": "ptr", "max_split": "int"})}),
    C("charstr_split_into_array", s_split_array, {0: LoopSpec(inv_split_array, {"s": "ptr", "i": "int"})}),
    C("charstr_split_atoms", s_atoms, {0: LoopSpec(inv_atoms, {"s": "ptr"}), 1: LoopSpec(inv_atoms1, {"s": "ptr"}),
                                       2: LoopSpec(inv_atoms2, {"p": "ptr"})}),
]}
LISTC = {n: listspec.CONTRACTS[n] for n in ("make_list", "list_append")}


def verifier17():
    return Verifier([Unit(src("charstr.c")), Unit(src("list.c"))], dict(C17, **LISTC), {"dll": listspec.Dll(), "strs": StrsDef()},
                    builtins=libc.BUILTINS)


# ---------------------------------------------------------------- C14

def wf_term(b, avail=None):
    """length of the well-formed sequence (RFC 3629 section 4) that starts with
    bytes b(0), b(1), ..; 0 if there is none.  avail: bytes there are"""
    u = [U(b(k)) for k in range(4)]
    rng = lambda x, lo, hi: And(x >= lo, x <= hi)
    tail = lambda x: rng(x, 0x80, 0xbf)
    have_ = (lambda k: avail >= k) if avail is not None else (lambda k: True)
    two = And(have_(2), rng(u[0], 0xc2, 0xdf), tail(u[1]))
    three = And(have_(3), tail(u[2]), Or(And(u[0] == 0xe0, rng(u[1], 0xa0, 0xbf)), And(rng(u[0], 0xe1, 0xec), tail(u[1])),
                                         And(u[0] == 0xed, rng(u[1], 0x80, 0x9f)), And(rng(u[0], 0xee, 0xef), tail(u[1]))))
    four = And(have_(4), tail(u[2]), tail(u[3]), Or(And(u[0] == 0xf0, rng(u[1], 0x90, 0xbf)), And(rng(u[0], 0xf1, 0xf3), tail(u[1])),
                                                    And(u[0] == 0xf4, rng(u[1], 0x80, 0x8f))))
    I_ = z3.IntVal
    return Ite(And(have_(1), u[0] <= 0x7f), I_(1), Ite(two, I_(2), Ite(three, I_(3), Ite(four, I_(4), Z))))


def cp_term(b, w):
    u = [U(b(k)) for k in range(w)]
    if w == 1:
        return u[0]
    r = u[0] - [0, 0, 0xc0, 0xe0, 0xf0][w]
    for x in u[1:]:
        r = r * 64 + x - 0x80
    return r


def utf8_text(m, s, end):
    """bytes from s to end, or to the NUL"""
    if null(m, end):
        n, get = m.cstr(s)
        return n, get, False
    n = to_end(m, s, end)
    return n, m.borrow(s, I8, n).get, True


def s_decode(m, s, end, codepoint):
    ex = m.ex
    if null(m, s):
        ret = yield
        m.ret_null(ret)
        return
    n, get, bounded = utf8_text(m, s, end)
    want = not null(m, codepoint)
    if want:
        sp = m.span(codepoint, I32, z3.IntVal(1))
    w = wf_term(get, n if bounded else None)
    for k in range(4):
        ex.index_term(iv(s.idx) + k)
    ret = yield
    new = sp.back(defd=lambda j: w > 0) if want else None
    if m.split(w == 0):
        m.ret_null(ret)
        return
    for k in (1, 2, 3):
        if m.split(w == k):
            break
    else:
        k = 4
        m.ex.assume(w == 4)         # wf_term has no other value
    i = m.ret_ptr(ret, s.base)
    m.pure(iv(i) == iv(s.idx) + k, "the position after the sequence")
    if want:
        m.pure(new.get(Z) == cp_term(get, k), "the code point the sequence denotes")


class Text:
    """suffix-defined functions of a text of n bytes: VAL(i): decoding from i
    on consumes it all; TOT(i): length of the sanitised rest; RES(i, j): its
    j-th byte"""

    def __init__(self, ex, n, get, bounded):
        self.ex, self.n, self.get, self.bounded = ex, n, get, bounded
        II = z3.IntSort()
        self.V = z3.Function(ex.nm("valid"), II, z3.BoolSort())
        self.T_ = z3.Function(ex.nm("sanelen"), II, II)
        self.R = z3.Function(ex.nm("sane"), II, II, II)
        self.W = z3.Function(ex.nm("wf"), II, II)

    def wf(self, i):
        i = iv(i)
        for k in range(4):
            self.ex.index_term(i + k)
        self.ex.assume_once(self.W(i) == wf_term(lambda k: self.get(i + k), self.n - i if self.bounded else None))
        return self.W(i)

    def val(self, i):
        i = iv(i)
        w = self.wf(i)
        self.ex.assume_once(self.V(self.n))
        self.ex.assume_once(Implies(And(i >= 0, i < self.n), self.V(i) == And(w > 0, self.V(i + w))))
        return self.V(i)

    def tot(self, i):
        i = iv(i)
        w = self.wf(i)
        n = self.n
        self.ex.assume_once(self.T_(n) == 0)
        nxt = Ite(w > 0, i + w, i + 1)
        self.ex.assume_once(Implies(And(i >= 0, i < n), self.T_(i) == self.T_(nxt) + Ite(w > 0, w, z3.IntVal(3))))
        for k in (i, nxt):
            self.ex.assume_once(Implies(And(k >= 0, k <= n), And(self.T_(k) >= 0, self.T_(k) <= 3 * (n - k))))   # lemma
        return self.T_(i)

    def res(self, i, j):
        """the definition at (i, j)"""
        i = iv(i)
        w = self.wf(i)
        self.ex.assume_once(Implies(And(i >= 0, i < self.n, j >= 0, w > 0),
                                    self.R(i, j) == Ite(j < w, self.get(i + j), self.R(i + w, j - w))))
        self.ex.assume_once(Implies(And(i >= 0, i < self.n, j >= 0, w == 0),
                                    self.R(i, j) == Ite(j == 0, z3.IntVal(0xef - 256), Ite(j == 1, z3.IntVal(0xbf - 256),
                                                    Ite(j == 2, z3.IntVal(0xbd - 256), self.R(i + 1, j - 3))))))
        return self.R(i, j)


def s_valid_bounded(m, s, end):
    m.pure(m.ex.nonnull(end), "an end is given")
    if null(m, s):
        ret = yield
        m.pure(Not(m.ex.truth(m.val(ret), I32)), "no string is not valid")
        return
    n = to_end(m, s, end)
    t = Text(m.ex, n, m.borrow(s, I8, n).get, True)
    m.ex.ghost["text"] = s, t
    ret = yield
    m.pure(m.ex.truth(m.val(ret), I32) == t.val(Z), "true exactly when decoding one after another consumes it")


def s_valid(m, s):
    if null(m, s):
        ret = yield
        m.pure(Not(m.ex.truth(m.val(ret), I32)), "no string is not valid")
        return
    n, get = m.cstr(s)
    t = Text(m.ex, n, get, False)
    m.ex.ghost["text"] = s, t
    ret = yield
    m.pure(m.ex.truth(m.val(ret), I32) == t.val(Z), "true exactly when decoding one after another consumes it")


def inv_valid(m):
    ex = m.ex
    if "text" not in ex.ghost:
        # no string
        if m.assuming:
            m.setvar("s", NULL)
        m.pure(Not(ex.nonnull(m.var("s"))), "nothing to look at")
        return
    s, t = ex.ghost["text"]
    if m.alt(2) == 1:
        alive = True
    elif m.assuming:
        alive = m.split(z3.Bool(ex.nm("alive")))
        if not alive:
            m.setvar("s", NULL)
    else:
        alive = m.split(ex.nonnull(m.var("s")))
    if not alive:
        m.pure(Not(t.val(Z)), "stopped because it is not valid")
        m.decreases(Z)
        return
    i = m.ptr("s", s.base)
    ex.index_term(i)
    m.pure(And(i >= 0, i <= t.n), "within the text")
    m.pure(t.val(Z) == t.val(i), "valid so far")
    m.decreases(t.n - i + 1)


def s_sanitize(m, s):
    ex = m.ex
    n, get = m.cstr(s)
    t = Text(ex, n, get, False)
    ex.ghost["text"] = s, t
    t.tot(Z)
    ret = yield
    a = m.arr(ret, I8, n=t.tot(Z) + 1)
    def same_(j):
        t.res(Z, j)
        return Implies(And(j >= 0, j < t.tot(Z)), a.get(j) == t.R(Z, j))
    m.forall(same_, "well-formed sequences are copied, every other byte is replaced by U+FFFD")
    m.pure(a.get(t.tot(Z)) == 0, "terminated")


def inv_san0(m):
    """measuring"""
    s, t = m.ex.ghost["text"]
    i = m.ptr("t", s.base)
    b = iv(m.var("bad_bytes"))
    m.ex.index_term(i)
    if m.alt(2) == 0:
        m.pure(And(i >= 0, i <= t.n, b >= 0, b <= i), "within the text")
        m.pure(i + 2 * b + t.tot(i) == t.tot(Z), "length so far")
    else:
        m.pure(And(i >= 0, i <= t.n, b >= 0, b <= 3 * i), "within the text")
        m.pure(b + t.tot(i) == t.tot(Z), "length so far")
    m.decreases(t.n - i)


def inv_san1(m):
    ex = m.ex
    s, t = ex.ghost["text"]
    i = m.ptr("s", s.base)
    ex.index_term(i)
    if m.assuming:
        # the copy was made before the loop
        q0 = ex.ghost["sane"]
    else:
        q0 = ex.ghost.setdefault("sane", m.var("q").base)
    o = m.ptr("q", q0)
    ex.index_term(o)
    m.pure(And(i >= 0, i <= t.n, o >= 0), "within the text")
    m.pure(o == t.tot(Z) - t.tot(i), "what is left to write is the sanitised rest")
    a = m.arr(P(q0), I8, n=t.tot(Z) + 1, defd=lambda j: j < o)

    def rest(j):
        t.res(i, j - o)
        t.res(Z, j)
        return Implies(And(j >= o, j < t.tot(Z)), t.R(Z, j) == t.R(i, j - o))
    m.forall(rest, "the rest of the result is the sanitised rest")

    def done(j):
        return Implies(And(j >= 0, j < o), a.get(j) == t.R(Z, j))
    m.forall(done, "written so far")
    m.decreases(t.n - i)


def lemmas14():
    II = z3.IntSort()
    TT, W = z3.Function("sanelen", II, II), z3.Function("wf", II, II)
    n, i, j, o = z3.Ints("n i j o")
    w = W(i)
    out = []
    nxt = z3.If(w > 0, i + w, i + 1)
    step = And(TT(n) == 0, i >= 0, i < n, w >= 0, w <= 4, Implies(w > 0, i + w <= n), TT(i) == TT(nxt) + z3.If(w > 0, w, 3))
    bnd = lambda k: And(TT(k) >= 0, TT(k) <= 3 * (n - k))
    out.append(("sanitised length at most three times the length (step from the end)", Implies(And(step, bnd(nxt)), bnd(i))))
    out.append(("sanitised length at most three times the length (base)", Implies(TT(n) == 0, bnd(n))))
    # a valid text is left as it is
    V = z3.Function("valid", II, z3.BoolSort())
    R = z3.Function("sane", II, II, II)
    g = z3.Function("byte", II, II)
    dres = Implies(And(j >= 0, w > 0), R(i, j) == z3.If(j < w, g(i + j), R(i + w, j - w)))
    dval = V(i) == And(w > 0, V(i + w))
    claim = lambda k, x: Implies(V(k), And(TT(k) == n - k, Implies(And(x >= 0, x < n - k), R(k, x) == g(k + x))))
    out.append(("a valid text is sanitised to itself (step)", Implies(And(step, dres, dval, claim(i + w, j - w)), claim(i, j))))
    out.append(("a valid text is sanitised to itself (base)", Implies(TT(n) == 0, claim(n, j))))
    # the result is valid: V2, W2 over the result r, at the offset of i
    r = z3.Function("result", II, II)
    V2, W2 = z3.Function("valid2", II, z3.BoolSort()), z3.Function("wf2", II, II)
    o = TT(z3.IntVal(0)) - TT(i)
    defs = [W2(o) == wf_term(lambda k: r(o + k)), w == wf_term(lambda k: g(i + k)), V2(o) == And(W2(o) > 0, V2(o + W2(o)))]
    for k in range(4):
        defs += [g(i + k) >= -128, g(i + k) <= 127, r(o + k) >= -128, r(o + k) <= 127]
        defs.append(Implies(And(w > 0, k < w), r(o + k) == g(i + k)))
    defs.append(Implies(w == 0, And(r(o) == 0xef - 256, r(o + 1) == 0xbf - 256, r(o + 2) == 0xbd - 256)))
    out.append(("the sanitised text is valid (step)", Implies(And(step, *defs, V2(TT(z3.IntVal(0)) - TT(nxt))), V2(o))))
    return out


C14 = {c.name: c for c in [
    C("charstr_decode_utf8_codepoint", s_decode),
    C("charstr_valid_utf8_bounded", s_valid_bounded, {0: LoopSpec(inv_valid, {"s": "ptr"})}),
    C("charstr_valid_utf8", s_valid, {0: LoopSpec(inv_valid, {"s": "ptr"})}),
    C("charstr_sanitize_utf8", s_sanitize, {0: LoopSpec(inv_san0, {"t": "ptr", "bad_bytes": "int"}),
                                            1: LoopSpec(inv_san1, {"s": "ptr", "q": "ptr"})}),
]}


def verifier14():
    return Verifier([Unit(src("charstr.c"))], C14, {}, builtins=libc.BUILTINS)


# ---------------------------------------------------------------- C16

def hexc(d):
    return Ite(d < 10, d + 48, d + 55)


SELF = [(48, 57), (65, 90), (97, 122)] + [(ord(c), ord(c)) for c in '"-./<>\\^_`{|}~']


def sc(b):
    """byte value as a char"""
    return Ite(b > 127, b - 256, b)


def doc(b):
    """the documented encoding of a byte: length, characters"""
    own = Or(*[And(b >= lo, b <= hi) for lo, hi in SELF])
    ln = Ite(Or(own, b == 32), z3.IntVal(1), z3.IntVal(3))
    c0 = Ite(own, b, Ite(b == 32, z3.IntVal(43), z3.IntVal(37)))
    return ln, [c0, hexc(b / 16), hexc(b % 16)]


class Enc:
    """an encoder: e(b, j) is character j of the entry for byte b"""

    def __init__(self, e):
        self.e = e

    def len(self, b):
        return Ite(self.e(b, 1) == 0, z3.IntVal(1), Ite(self.e(b, 2) == 0, z3.IntVal(2), z3.IntVal(3)))

    def ok(self, b):
        """non-empty, terminated, and long only if it starts with %"""
        e = self.e
        return Implies(And(b >= 0, b < 256), And(e(b, 0) != 0, Or(e(b, 1) == 0, And(e(b, 0) == 37, Or(e(b, 2) == 0, e(b, 3) == 0)))))

    def text(self, b):
        return self.len(b), [self.e(b, j) for j in range(3)]


def spells(enc, b, ln, cs):
    """the entry for b is the text cs[:ln], terminated"""
    return And(enc.e(b, 0) == cs[0], Implies(ln == 1, enc.e(b, 1) == 0),
               Implies(ln == 3, And(enc.e(b, 1) == cs[1], enc.e(b, 2) == cs[2], enc.e(b, 3) == 0)))


def encoder(m, p):
    """read access to an encoder"""
    ex = m.ex
    if m.assuming:
        base = m.base(p)
        ty = T("struct", name="struct charstr_url_encoder")
        c = Mem(base, ty, ex.fresh("encoder", ty), heap=False, ro=True)
        ex.add_chunk(c)
        ent = ex.unit.fields(ty)[0][0]
        tab = c.val.f[ent]
        return Enc(lambda b, j: tab.get(b).get(z3.IntVal(j)))
    c = ex.find(m.base(p), m.label + ": encoder")
    tab = list(c.val.f.values())[0]
    return Enc(lambda b, j: tab.get(b).get(j))


class EncText:
    """suffix-defined: TOT(i) the length of the encoding of the text from i on,
    RES(i, j) its j-th character, WID(i) an upper bound of it the code uses"""

    def __init__(self, ex, n, get, entry, lead):
        self.ex, self.n, self.get, self.entry, self.lead = ex, n, get, entry, lead
        II = z3.IntSort()
        self.T_ = z3.Function(ex.nm("enclen"), II, II)
        self.Wd = z3.Function(ex.nm("encwidth"), II, II)
        self.R = z3.Function(ex.nm("enc"), II, II, II)

    def tot(self, i):
        ex, n = self.ex, self.n
        i = iv(i)
        b = U(self.get(i))
        ln, cs = self.entry(b)
        ex.index_term(i)
        ex.assume_once(And(self.T_(n) == 0, self.Wd(n) == 0))
        inside = And(i >= 0, i < n)
        ex.assume_once(Implies(inside, And(self.T_(i) == self.T_(i + 1) + ln, self.Wd(i) == self.Wd(i + 1) + Ite(self.lead(b) == 37, z3.IntVal(3), z3.IntVal(1)))))
        for k in (i, i + 1):    # lemma
            ex.assume_once(Implies(And(k >= 0, k <= n), And(self.T_(k) >= 0, self.T_(k) <= self.Wd(k), self.Wd(k) <= 3 * (n - k))))
        return self.T_(i)

    def wid(self, i):
        self.tot(i)
        return self.Wd(iv(i))

    def res(self, i, j):
        i = iv(i)
        ln, cs = self.entry(U(self.get(i)))
        self.ex.assume_once(Implies(And(i >= 0, i < self.n, j >= 0),
                                    self.R(i, j) == Ite(j < ln, Ite(j == 0, cs[0], Ite(j == 1, cs[1], cs[2])), self.R(i + 1, j - ln))))
        return self.R(i, j)


def enc_post(m, ret, t):
    n = t.tot(Z)
    a = m.arr(ret, I8, n=t.wid(Z) + 1, defd=lambda j: j <= n, exact=False)

    def fits(j):
        t.res(Z, j)
        return Implies(And(j >= 0, j < n), a.get(j) == t.R(Z, j))
    m.forall(fits, "the encoding, byte after byte")
    m.pure(a.get(n) == 0, "terminated")


def s_custom_encode(m, enc, s):
    ex = m.ex
    n, get = m.cstr(s)
    e = encoder(m, enc)
    t = None
    if not m.assuming and "doc" in ex.ghost:
        # the default encoder: its entries are the documented ones
        b = m.fresh("byte")
        ex.index_term(b)
        for j in range(3):
            m.pure(Implies(And(b >= 1, b < 256), spells(e, b, *doc(b))), "the table has the documented encodings")
        t = ex.ghost["doc"]
    else:
        b = m.fresh("byte") if not m.assuming else None
        if b is not None:
            m.pure(e.ok(b), "a usable encoder")
        t = EncText(ex, n, get, e.text, lambda b: e.e(b, 0))
        if m.assuming:
            okb = lambda k: e.ok(U(get(k)))
            ex.add_lazy(lambda k: Implies(And(k >= 0, k < n), okb(k)))
    if m.assuming:
        ex.ghost["enc"] = s, enc, t
    ret = yield
    enc_post(m, ret, t)


def s_encode(m, s):
    ex = m.ex
    n, get = m.cstr(s)
    t = EncText(ex, n, get, doc, lambda b: doc(b)[1][0])
    if m.assuming:
        ex.ghost["doc"] = t
        ex.ghost["enc"] = s, None, t
    ret = yield
    enc_post(m, ret, t)


def inv_enc0(m):
    s, enc, t = m.ex.ghost["enc"]
    i = m.ptr("sp", s.base)
    ln = iv(m.var("length"))
    m.pure(And(i >= 0, i <= t.n), "within the text")
    m.pure(ln + t.wid(i) == t.wid(Z), "width so far")
    m.decreases(t.n - i)


def inv_enc1(m):
    ex = m.ex
    s, enc, t = ex.ghost["enc"]
    i = m.ptr("sp", s.base)
    if m.assuming:
        q0 = ex.ghost["out"]
    else:
        q0 = ex.ghost.setdefault("out", m.var("ep").base)
    o = m.ptr("ep", q0)
    ex.index_term(o)
    m.pure(And(i >= 0, i <= t.n, o >= 0), "within the text")
    m.pure(o == t.tot(Z) - t.tot(i), "what is left to write is the encoding of the rest")
    m.pure(o <= t.wid(Z) - t.wid(i), "there is room for the rest")
    a = m.arr(P(q0), I8, n=t.wid(Z) + 1, defd=lambda j: j < o)

    def rest(j):
        t.res(i, j - o)
        t.res(Z, j)
        return Implies(And(j >= o, j < t.tot(Z)), t.R(Z, j) == t.R(i, j - o))
    m.forall(rest, "the rest of the result is the encoding of the rest")
    m.forall(lambda j: Implies(And(j >= 0, j < o), a.get(j) == t.R(Z, j)), "written so far")
    m.decreases(t.n - i)


def entry_at(m, ret, b):
    """the characters of the entry ret points to"""
    ex = m.ex
    p = m.val(ret)
    return Enc(lambda _, j: iv(ex.load(ex.ptr_add(p, j, I32), I8)))


def s_custom_byte(m, enc, b):
    e = encoder(m, enc)
    m.ex.index_term(iv(b))
    ret = yield
    r = entry_at(m, ret, b)
    m.pure(And(*[r.e(b, j) == e.e(iv(b), j) for j in range(4)]), "the encoder's entry for the byte")


def s_byte(m, b):
    ret = yield
    r = entry_at(m, ret, b)
    ln, cs = doc(iv(b))
    m.pure(spells(r, iv(b), ln, cs), "the documented encoding of the byte")


def s_destroy_enc(m, enc):
    m.obj(enc, "struct charstr_url_encoder")
    yield


def s_create(m, reserve, unreserve):
    ex = m.ex
    firsts = []
    for p in (reserve, unreserve):
        n, get = m.cstr(p)
        F = z3.Function(ex.nm("first"), z3.IntSort(), z3.IntSort())     # where a byte occurs first
        ex.add_lazy(lambda b, F=F, n=n, get=get: Implies(And(b >= 0, b < 256), And(F(b) >= 0, F(b) <= n, Implies(F(b) < n, U(get(F(b))) == b))), kind="byte")

        def occ(t, F=F, n=n, get=get):
            b = U(get(t))
            return Implies(And(t >= 0, t < n), F(b) <= t)
        ex.add_lazy(occ)
        firsts.append((p, n, get, F))
    ex.ghost["create"] = firsts
    ret = yield
    v = m.obj(ret, "struct charstr_url_encoder")
    created(m, v, firsts[0][1], firsts[1][1])


def created(m, v, i, j):
    """the first i bytes of reserve and the first j of unreserve are done"""
    ex = m.ex
    (_, n1, _, F1), (_, n2, _, F2) = ex.ghost["create"]
    tab = list(v.f.values())[0]
    e = Enc(lambda b, k: tab.get(b).get(z3.IntVal(k)))

    def entry(b):
        res = And(F1(b) < i)
        unr = And(F2(b) < j)
        ln, cs = doc(b)
        ln = Ite(unr, z3.IntVal(1), Ite(res, z3.IntVal(3), ln))
        c0 = Ite(unr, sc(b), Ite(res, z3.IntVal(37), cs[0]))
        return Implies(And(b >= 0, b < 256), spells(e, b, ln, [c0] + cs[1:]))
    m.forall(entry, "reserved bytes are escaped, unreserved ones are not, all others as documented", kind="byte")


def inv_create(which):
    def inv(m):
        ex = m.ex
        fs = ex.ghost["create"]
        p, n, get, F = fs[which]
        i = m.ptr("p", p.base)
        ex.index_term(i)
        ex.index_term(U(get(i)), "byte")
        enc = m.var("encoder")
        v = m.obj(enc, "struct charstr_url_encoder")
        m.pure(And(i >= 0, i <= n), "within the text")
        created(m, v, i if which == 0 else fs[0][1], i if which == 1 else Z)
        m.decreases(n - i)
    return inv


def hexval(c):
    u = U(c)
    return Ite(u <= 57, u - 48, Ite(u <= 70, u - 55, u - 87))


class DecText:
    """suffix-defined: OK(i): every % from i on has its two digits; CNT(i): how
    many bytes are denoted; BYTE(i, j): the j-th"""

    def __init__(self, ex, n, get, plus):
        self.ex, self.n, self.get, self.plus = ex, n, get, plus
        II = z3.IntSort()
        self.O = z3.Function(ex.nm("wellformed"), II, z3.BoolSort())
        self.C = z3.Function(ex.nm("declen"), II, II)
        self.B = z3.Function(ex.nm("dec"), II, II, II)

    def step(self, i):
        g = self.get
        c = g(i)
        pct = c == 37
        good = Or(Not(pct), And(hexdigit(U(g(i + 1))), hexdigit(U(g(i + 2)))))
        v = Ite(pct, sc(hexval(g(i + 1)) * 16 + hexval(g(i + 2))), Ite(And(c == 43, self.plus), z3.IntVal(32), c))
        return Ite(pct, i + 3, i + 1), good, v

    def ok(self, i):
        ex, n = self.ex, self.n
        i = iv(i)
        for k in range(3):
            ex.index_term(i + k)
        nxt, good, v = self.step(i)
        ex.assume_once(And(self.O(n), self.C(n) == 0))
        inside = And(i >= 0, i < n)
        ex.assume_once(Implies(inside, self.O(i) == And(good, self.O(nxt))))
        ex.assume_once(Implies(inside, self.C(i) == Ite(good, 1 + self.C(nxt), Z)))
        for k in (i, nxt):      # lemma
            ex.assume_once(Implies(And(k >= 0, k <= n), And(self.C(k) >= 0, self.C(k) <= n - k)))
        return self.O(i)

    def cnt(self, i):
        self.ok(i)
        return self.C(iv(i))

    def res(self, i, j):
        i = iv(i)
        nxt, good, v = self.step(i)
        self.ex.assume_once(Implies(And(i >= 0, i < self.n, j >= 0), self.B(i, j) == Ite(j == 0, v, self.B(nxt, j - 1))))
        return self.B(i, j)


def s_url_decode(m, s, plus, size):
    ex = m.ex
    n, get = m.cstr(s)
    want = not null(m, size)
    if want:
        sp = m.span(size, U64, z3.IntVal(1))
    t = DecText(ex, n, get, ex.truth(plus, T("bool", w=8) if False else I32))
    ex.ghost["dec"] = s, t
    ret = yield
    ok = m.split(t.ok(Z))
    new = sp.back(defd=lambda j: ok) if want else None
    if not ok:
        m.ret_null(ret)
        errno_is(m, 84)
        return
    n = t.cnt(Z)
    a = m.arr(ret, I8, n=n + 1)

    def fits(j):
        t.res(Z, j)
        return Implies(And(j >= 0, j < n), a.get(j) == t.B(Z, j))
    m.forall(fits, "every byte the text denotes")
    m.pure(a.get(n) == 0, "terminated")
    if want:
        m.pure(new.get(Z) == n, "the length is reported")


def inv_dec0(m):
    s, t = m.ex.ghost["dec"]
    i = m.ptr("ep", s.base)
    ln = iv(m.var("length"))
    m.pure(And(i >= 0, i <= t.n, ln >= 0, ln <= i), "within the text")
    m.pure(t.ok(Z) == t.ok(i), "well-formed so far")
    m.pure(ln + t.cnt(i) == t.cnt(Z), "bytes so far")
    m.decreases(t.n - i)


def inv_dec1(m):
    ex = m.ex
    s, t = ex.ghost["dec"]
    i = m.ptr("ep", s.base)
    if m.assuming:
        q0 = ex.ghost["out"]
    else:
        q0 = ex.ghost.setdefault("out", m.var("dp").base)
    o = m.ptr("dp", q0)
    ex.index_term(o)
    m.pure(And(i >= 0, i <= t.n, o >= 0), "within the text")
    m.pure(t.ok(i), "the rest is well-formed")
    m.pure(o + t.cnt(i) == t.cnt(Z), "what is left to write is what the rest denotes")
    a = m.arr(P(q0), I8, n=t.cnt(Z) + 1, defd=lambda j: j < o)

    def rest(j):
        t.res(i, j - o)
        t.res(Z, j)
        return Implies(And(j >= o, j < t.cnt(Z)), t.B(Z, j) == t.B(i, j - o))
    m.forall(rest, "the rest of the result is what the rest denotes")
    m.forall(lambda j: Implies(And(j >= 0, j < o), a.get(j) == t.B(Z, j)), "written so far")
    m.decreases(t.n - i)


def lemmas16():
    """bounds of the lengths, and decoding an encoding"""
    II = z3.IntSort()
    n, i, b, o = z3.Ints("n i b o")
    out = []
    TT, WW, CC = [z3.Function(x, II, II) for x in ("enclen", "encwidth", "declen")]
    e = [z3.Int("e%d" % k) for k in range(4)]
    enc = Enc(lambda b, j: e[j])
    ln, _ = enc.text(b)
    lem = lambda k: And(TT(k) >= 0, TT(k) <= WW(k), WW(k) <= 3 * (n - k))
    for what, l, lead, hyp in (("any encoder", ln, e[0], enc.ok(b)), ("the default encoder", doc(b)[0], doc(b)[1][0], True)):
        step = And(hyp, b >= 0, b < 256, i >= 0, i < n, TT(i) == TT(i + 1) + l, WW(i) == WW(i + 1) + z3.If(lead == 37, 3, 1))
        out.append(("length of an encoding, %s (step)" % what, Implies(And(step, lem(i + 1)), lem(i))))
    out.append(("length of an encoding (base)", Implies(And(TT(n) == 0, WW(n) == 0), lem(n))))
    g = z3.Function("byte", II, II)
    for plus in (True, False):
        t = DecText.__new__(DecText)
        t.get, t.plus = g, plus
        nxt, good, v = t.step(i)
        cl = lambda k: And(CC(k) >= 0, CC(k) <= n - k)
        nul = And(g(n) == 0, *[Implies(And(i + k >= 0, i + k < n), g(i + k) != 0) for k in range(3)])
        out.append(("length of a decoding (step)", Implies(And(nul, i >= 0, i < n, CC(i) == z3.If(good, 1 + CC(nxt), 0), Implies(good, cl(nxt))), cl(i))))
    # at an offset o of the result where the encoding of byte b stands
    t = DecText.__new__(DecText)
    t.get, t.plus = g, True
    nxt, good, v = t.step(o)
    ln, cs = doc(b)
    at = And(b >= 1, b < 256, g(o) == cs[0], Implies(ln == 3, And(g(o + 1) == cs[1], g(o + 2) == cs[2])))
    out.append(("decoding an encoding gives the byte back and goes on after it", Implies(at, And(good, v == sc(b), nxt == o + ln))))
    return out


C16 = {c.name: c for c in [
    C15["charstr_char_class"], C15["charstr_digit_value"],
    C("charstr_url_custom_encode_byte", s_custom_byte), C("charstr_url_encode_byte", s_byte),
    C("charstr_url_custom_encode", s_custom_encode, {0: LoopSpec(inv_enc0, {"sp": "ptr", "length": "int"}), 1: LoopSpec(inv_enc1, {"sp": "ptr", "ep": "ptr"})}),
    C("charstr_url_encode", s_encode, {0: LoopSpec(inv_enc0, {"sp": "ptr", "length": "int"}), 1: LoopSpec(inv_enc1, {"sp": "ptr", "ep": "ptr"})}),
    C("charstr_create_url_encoder", s_create, {0: LoopSpec(inv_create(0), {"p": "ptr", "encoder": "ptr"}), 1: LoopSpec(inv_create(1), {"p": "ptr", "encoder": "ptr"})}),
    C("charstr_destroy_url_encoder", s_destroy_enc),
    C("charstr_url_decode", s_url_decode, {0: LoopSpec(inv_dec0, {"ep": "ptr", "length": "int"}), 1: LoopSpec(inv_dec1, {"ep": "ptr", "dp": "ptr"})}),
]}


def verifier16():
    return Verifier([Unit(src("charstr.c"))], C16, {}, builtins=libc.BUILTINS, const_globals={"url_encoder"},
                    inline={"charstr_url_custom_encode_byte", "charstr_url_encode_byte"})


verifier = verifier15
FUNCS = list(C15)
