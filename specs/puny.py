"""Contracts of charstr_puny.c (C22): memory safety, no abort, and the shape of
the encoded names.  The generated tables are functions, with the facts decided
in unidata.facts; decoding and encoding of UTF-8 carry C13's contracts."""
import importlib
from slv import *
import libc
import charstr
import unorm
from charstr import wf_term, cp_term, null, sc, U, L as LOW, dup_of, mstr
from slv import div_facts, div_lemmas
from unorm import cpw, scalar, room_of, s_decode, s_encode
from b64 import iv

Z = z3.IntVal(0)
I_ = z3.IntVal
II = z3.IntSort()
BIG = 1 << 62
NAME, LABEL = 254, 63
QMAX = 1 << 30

LT = lambda ex: None


def ldh(c):
    c = iv(c)
    return Or(And(c >= 97, c <= 122), And(c >= 48, c <= 57), c == 45)


def cell(m, p, ty, init=True):
    """a scalar variable p points to: (get, set)"""
    ex = m.ex
    if m.assuming:
        c = Mem(m.base(p), ty, ex.fresh("cell", ty) if init else UNINIT, heap=False)
        ex.add_chunk(c)
    else:
        c = ex.find(m.base(p), m.label + ": a variable for a result")
        if isinstance(c.val, (ArrVal, StructVal)) or c.ro or c.ty is None or repr(c.ty) != repr(ty):
            raise Limit("variable for a result")
        ex.touch(c)
        if init and c.val is UNINIT:
            m.pure(False, "the variable is set")
    return c


# --------------------------------------------------------------- arithmetic

def succeeds(m, ret):
    """is the pointer returned non-null"""
    if m.assuming:
        return m.split(z3.Bool(m.ex.nm("succeeds")))
    return m.split(m.ex.nonnull(m.val(ret)))


def prod_fact(ex, a, b, hi):
    """lemma: 0 <= a and 0 <= b <= hi imply 0 <= a * b <= a * hi"""
    ex.assume_once(Implies(And(a >= 0, b >= 0, b <= hi), And(a * b >= 0, a * b <= a * hi)))


def lemmas():
    a, b, h, q, n = z3.Ints("a b h q n")
    u = [z3.Int("u%d" % k) for k in range(4)]
    out = [("a product of a number and one up to 255", Implies(And(a >= 0, b >= 0, b <= 255), And(a * b >= 0, a * b <= a * 255)))]
    return out + div_lemmas() + label_lemmas()


def s_adapt(m, delta, numpoints, firsttime):
    delta, numpoints = iv(delta), iv(numpoints)
    m.pure(And(delta >= 0, delta <= QMAX), "no overflow")
    m.pure(And(numpoints >= 1, numpoints <= 1000), "at least one code point")
    ret = yield
    m.pure(And(iv(m.val(ret)) >= 0, iv(m.val(ret)) <= 36 * 7), "a bias")


def inv_adapt(m):
    ex = m.ex
    k, d = iv(m.var("k")), iv(m.var("delta"))
    m.pure(And(d >= 0, Or(*[And(k == 36 * j, d * 35 ** j <= QMAX) for j in range(7)])), "each division makes it smaller")
    m.decreases(d)


# ------------------------------------------------------------------ the text

class Label:
    """suffix-defined functions of the text up to L, from a position on to the
    next dot or the end"""

    def __init__(self, ex, L, get):
        self.ex, self.L, self.get = ex, L, get
        nm = ex.nm
        self.W = z3.Function(nm("wf"), II, II)
        self.C = z3.Function(nm("cp"), II, II)
        self.V = z3.Function(nm("valid"), II, z3.BoolSort())
        self.S = z3.Function(nm("stop"), II, II)
        self.B = z3.Function(nm("below"), II, II, II)     # code points < m

    def end(self, i):
        return Or(i == self.L, self.get(i) == 46)

    def wf(self, i):
        i = iv(i)
        for k in range(4):
            self.ex.index_term(i + k)
        self.ex.assume_once(self.W(i) == wf_term(lambda k: self.get(i + k), self.L - i))
        w = self.W(i)
        self.ex.assume_once(And(w >= 0, w <= 4))
        self.ex.assume_once(Implies(w > 0, And(self.C(i) == cpw(lambda k: self.get(i + k), w), scalar(self.C(i)), i + w <= self.L)))
        return w

    def at(self, i, *ms):
        """the definitions at i"""
        ex, i = self.ex, iv(i)
        w = self.wf(i)
        c = self.C(i)
        inr = And(i >= 0, i <= self.L)
        e = self.end(i)
        go = And(inr, Not(e), w > 0)
        ex.assume_once(Implies(And(inr, e), And(self.V(i), self.S(i) == i)))
        ex.assume_once(Implies(And(inr, Not(e)), self.V(i) == And(w > 0, self.V(i + w))))
        ex.assume_once(Implies(And(inr, Not(e), self.V(i)), And(self.S(i) == self.S(i + w), self.S(i) > i, self.S(i) <= self.L, Or(self.S(i) == self.L, self.get(self.S(i)) == 46))))
        for mm in ms:
            self.below(i, mm)
            ex.assume_once(Implies(And(inr, e), self.B(i, mm) == 0))
            ex.assume_once(Implies(And(inr, Not(e), self.V(i)), self.B(i, mm) == Ite(c < mm, I_(1), Z) + self.B(i + w, mm)))
            self.below(i + w, mm)
        ms = list(ms)
        for a in ms:
            for b in ms:
                if a is not b:
                    for x in (i, i + w):
                        ex.assume_once(Implies(And(x >= 0, x <= self.L, self.V(x), a <= b), self.B(x, a) <= self.B(x, b)))    # lemma
        return w

    def below(self, i, mm):
        """lemma: at most one code point per byte"""
        self.ex.assume_once(Implies(And(i >= 0, i <= self.L, self.V(i)), And(self.B(i, mm) >= 0, self.B(i, mm) <= self.L - i)))
        return self.B(i, mm)


def label_of(m, p, end, most=None):
    """the text from p to end"""
    ex = m.ex
    if m.assuming:
        n = m.fresh("n")
        ex.assume(And(n >= 0, n < BIG))
        k = [j for j, a in enumerate(m.args) if a is end][-1]
        m.args[k] = P(p.base, (n,))
        get = m.borrow(p, I8, n + 1).get
        t = Label(ex, n, get)
        ex.ghost["labels"] = [(iv(p.idx), n, p.base, get, t)]
    else:
        m.pure(p.base == end.base, "the end lies in the same buffer")
        n = iv(end.idx) - iv(p.idx)
        m.pure(n >= 0, "the end is not before the start")
        a = m.borrow(p, I8, n + 1)
        m.pure(a.n >= n + 1, "one byte beyond the end is in the buffer")
        if a.defd is not None:
            m.forall(lambda j: Implies(And(j >= 0, j < n), a.defd(j)), "the text is initialised")
        t = None
        old = ex.ghost.get("labels", [])
        for i0, n0, b0, g0, t0 in old:
            if same(b0, p.base) and g0 is a.get and ex.entails(And(n0 == n, i0 == iv(p.idx))):
                t = t0
        if t is None:
            t = Label(ex, n, a.get)
            ex.ghost["labels"] = old + [(iv(p.idx), n, p.base, a.get, t)]
    if most is not None:
        m.pure(n <= most, "a name of at most %d bytes" % most)
    return t


# --------------------------------------------------------------- the first pass

def ascending(a, c):
    def f(k):
        k = iv(k)
        return And(Implies(And(k >= 0, k < c), And(a.get(k) >= 128, a.get(k) <= 0x10ffff)),
                   Implies(And(k >= 0, k + 1 < c), a.get(k) < a.get(k + 1)))
    return f


def s_record(m, cp, nonascii, count):
    ex = m.ex
    cp = iv(cp)
    m.pure(And(cp >= 128, cp <= 0x10ffff), "not ASCII")
    cc = cell(m, count, U64)
    c = iv(cc.val)
    m.pure(And(c >= 0, c < 1 << 40), "a small count")
    cap = c + 1
    sp = m.span(nonascii, I32, cap)
    if m.assuming:
        for ch in ex.chunks:
            if same(getattr(ch, "base", None), nonascii.base):
                ch.val = ArrVal(cap, I32, ch.val.get, lambda j: j < c)
    m.forall(ascending(sp, c), "ascending so far")
    if not m.call:
        ex.ghost["record"] = nonascii, cp, c, sp
    ret = yield
    if m.call:
        new = z3.Int(ex.nm("count"))
        cc.val = new
        n = new
    else:
        cc2 = cell(m, count, U64) if not m.assuming else None
        n = iv(cc2.val)
        ex.remove(cc2)
    m.pure(And(Or(n == c, n == c + 1), n >= 1), "one more at most")
    a = sp.back(defd=lambda j: j < n)
    for k in (c, c - 1):
        ex.index_term(k)
    asc = ascending(a, n)

    proving = not m.assuming
    def still(k):
        if proving:
            ex.index_term(k - 1)
            ex.index_term(k + 1)
        return asc(k)
    m.forall(still, "still ascending")


def inv_record(m):
    ex = m.ex
    base, cp, c, sp = ex.ghost["record"]
    i = iv(m.var("i"))
    ex.index_term(i)
    ex.index_term(i - 1)
    m.pure(And(i >= 0, i <= c), "within the array")
    m.forall(lambda j: Implies(And(j >= 0, j < i), sp.get(j) < cp), "smaller ones so far")
    m.decreases(c - i)


def s_allascii(m, s):
    ex = m.ex
    n, get = m.cstr(s)
    ex.ghost["ascii"] = s, n, get
    ret = yield
    t = ex.truth(m.val(ret), BOOL)
    if m.split(t):
        m.forall(lambda j: Implies(And(j >= 0, j < n), get(j) > 0), "all are ASCII")
    elif m.assuming:
        k = m.fresh("k")
        ex.assume(And(k >= 0, k < n, get(k) < 0))
        ex.index_term(k)
    else:
        k = ex.ghost["ascii_at"]
        m.pure(And(k >= 0, k < n, get(k) < 0), "one is not ASCII")


def inv_allascii(m):
    ex = m.ex
    s, n, get = ex.ghost["ascii"]
    i = m.ptr("s", s.base)
    ex.index_term(i)
    if m.assuming:
        ex.ghost["ascii_at"] = i
    m.pure(And(i >= 0, i <= n), "within the string")
    m.forall(lambda j: Implies(And(j >= 0, j < i), get(j) > 0), "ASCII so far")
    m.decreases(n - i)


def s_char_class(m, c):
    """what is needed of C15's contract"""
    g = charstr.s_class(m, c)
    next(g)
    ret = yield
    try:
        g.send(ret)
    except StopIteration:
        pass


def s_category(m, c):
    m.pure(And(iv(c) >= 0, iv(c) <= 0x10ffff), "a code point")
    ret = yield
    r = m.val(ret)
    m.pure(And(r >= 0, r <= 255), "a category")


def s_pass1(m, p, end, pc, ascii_, ac, nonascii, nc):
    ex = m.ex
    t = label_of(m, p, end)
    L = t.L
    m.pure(L >= 1, "not empty")
    m.pure(L < 1 << 30, "not long")
    cells = [cell(m, x, U64, init=False) for x in (pc, ac, nc)]
    sa = m.span(ascii_, I8, L)
    sn = m.span(nonascii, I32, L)
    if m.assuming:
        for ch in ex.chunks:
            if same(getattr(ch, "base", None), ascii_.base) or same(getattr(ch, "base", None), nonascii.base):
                ch.val = ArrVal(L, ch.val.et, ch.val.get, lambda j: False)
        ex.ghost["pass1"] = t, p, ascii_, nonascii, nc
    t.at(Z, I_(128))
    ret = yield
    ok = succeeds(m, ret)
    if m.assuming:
        h, c = m.fresh("h"), m.fresh("c")
        if ok:
            cells[0].val = m.fresh("n")
            cells[1].val, cells[2].val = h, c
        else:
            for x in cells:
                x.val = UNINIT
    else:
        cs = [ex.find(m.base(x), "variable") for x in (pc, ac, nc)]
        if ok and any(x.val is UNINIT for x in cs):
            m.pure(False, "the counts are set")
        h, c = cs[1].val, cs[2].val
        for x in cs:
            ex.remove(x)
    if not ok:
        m.ret_null(ret)
        sa.back(defd=lambda j: False)
        sn.back(defd=lambda j: False)
        return
    h, c = iv(h), iv(c)
    i = m.ret_ptr(ret, p.base)
    off = iv(p.idx)
    t.at(Z, I_(128))
    m.pure(And(t.V(Z), i == off + t.S(Z), t.S(Z) >= 0, t.S(Z) <= L), "the end of the label")
    m.pure(And(h >= 0, c >= 0, h + c <= t.S(Z), h == t.B(Z, I_(128))), "each code point is counted once")
    m.pure(Implies(t.S(Z) > 0, h + c >= 1), "not empty")
    a = sa.back(defd=lambda j: j < h)
    m.forall(lambda j: Implies(And(j >= 0, j < h), ldh(a.get(j))), "letters, digits and hyphens")
    b = sn.back(defd=lambda j: j < c)
    m.forall(ascending(b, c), "ascending")


def inv_pass1(m):
    ex = m.ex
    t, p, ascii_, nonascii, nc = ex.ghost["pass1"]
    L = t.L
    i = m.ptr("p", p.base)
    h, n = iv(m.var("h")), iv(m.var("n"))
    cc = cell(m, nc, U64)
    c = iv(cc.val)
    if not m.assuming:
        ex.remove(cc)
    t.at(i, I_(128))
    m.pure(And(i >= 0, i <= L, t.V(Z) == t.V(i), Implies(t.V(Z), t.S(Z) == t.S(i))), "within the text")
    m.pure(And(h >= 0, c >= 0, n >= h + c, n <= i, Implies(i > 0, h + c >= 1)), "at most one per byte")
    m.pure(Implies(t.V(Z), t.B(Z, I_(128)) == h + t.B(i, I_(128))), "ASCII so far")
    a = m.arr(ascii_, I8, n=L, heap=False, defd=lambda j: j < h)
    m.forall(lambda j: Implies(And(j >= 0, j < h), ldh(a.get(j))), "letters, digits and hyphens so far")
    b = m.arr(nonascii, I32, n=L, heap=False, defd=lambda j: j < c)
    m.forall(ascending(b, c), "ascending so far")
    m.decreases(L - i)


def label_lemmas():
    """by induction from the end of the label backwards: the step"""
    Lh, i, w, cp, a, b, S, va, vb, na, nb = z3.Ints("L i w cp a b S va vb na nb")
    one = lambda m: Ite(cp < m, I_(1), Z)
    return [("at most one code point per byte", Implies(And(w >= 1, nb >= 0, nb <= Lh - (i + w)), And(one(a) + nb >= 0, one(a) + nb <= Lh - i))),
            ("fewer code points below a smaller bound", Implies(And(a <= b, na <= nb), one(a) + na <= one(b) + nb)),
            ("the label ends after it begins", Implies(And(w >= 1, S >= i + w, S <= Lh), And(S > i, S <= Lh)))]


# -------------------------------------------------------------- the second pass

def s_pass2(m, inp, end, o, oend, size, ac, nonascii, nc):
    ex = m.ex
    t = label_of(m, inp, end, NAME)
    ac, nc = iv(ac), iv(nc)
    t.at(Z, I_(128))
    m.pure(t.V(Z), "well-formed")
    m.pure(And(nc >= 0, ac >= 0, ac + nc <= t.L, ac == t.B(Z, I_(128))), "counts of the first pass")
    if m.assuming:
        a = ArrVal(nc, I32, ex.arr_uf("in", I32))
        ex.add_chunk(Mem(nonascii.base, T("arr", to=I32, n=None), a, heap=False, ro=True))
    else:
        a = m.borrow(nonascii, I32)
        m.pure(a.n >= nc, "the code points")
        m.forall(lambda j: Implies(And(j >= 0, j < nc), a.defd(j) if a.defd else True), "the code points are set")
    m.forall(ascending(a, nc), "ascending")
    sz = cell(m, size, U64)
    S0 = iv(sz.val)
    m.pure(And(S0 >= 0, S0 <= 1000), "a size")
    room = sp = None
    if m.split(ex.nonnull(m.val(o))):
        room = room_of(m, o, oend)
        sp = m.span(o, I8, room)
        if m.assuming:
            for ch in ex.chunks:
                if same(getattr(ch, "base", None), o.base):
                    ch.val = ArrVal(room, I8, ch.val.get, lambda j: False)
    elif m.assuming:
        m.args[2] = NULL
    if m.assuming:
        ex.ghost["pass2"] = t, inp, o, room, size, S0, a, nc, ac
    ret = yield
    if m.assuming:
        S = m.fresh("size")
        sz.val = S
    else:
        c2 = ex.find(m.base(size), "variable")
        S = iv(c2.val)
        ex.remove(c2)
    m.pure(And(S >= S0, S <= S0 + 800000), "the size is a count")
    if sp is None:
        m.ret_null(ret)
        return
    fits = m.split(S - S0 <= room)
    new = sp.back(defd=lambda j: And(fits, j < S - S0))
    if not fits:
        m.ret_null(ret)
        return
    i = m.ret_ptr(ret, o.base)
    m.pure(iv(i) == iv(o.idx) + S - S0, "the position after the output")
    m.forall(lambda j: Implies(And(j >= 0, j < S - S0), ldh(new.get(j))), "letters and digits")


def out_inv(m):
    """the output so far; returns its size"""
    ex = m.ex
    t, inp, o, room, size, S0, a, nc, ac = ex.ghost["pass2"]
    c = cell(m, size, U64)
    S = iv(c.val)
    if not m.assuming:
        ex.remove(c)
    m.pure(S >= S0, "the size grows")
    if room is None:
        if m.assuming:
            m.setvar("o", NULL)
        m.pure(Not(ex.nonnull(m.var("o"))), "no output")
        return S
    if m.assuming:
        fits = m.split(z3.Bool(ex.nm("fits")))
        if not fits:
            m.setvar("o", NULL)
    else:
        fits = m.split(ex.nonnull(m.var("o")))
    if not fits:
        m.pure(S - S0 > room, "stopped because it is full")
        m.arr(P(o.base), I8, n=room, heap=False, defd=lambda j: False)
        return S
    k = m.ptr("o", o.base)
    if m.assuming:
        ex.ghost["out_at"] = k
    m.pure(And(k == S - S0, k <= room), "all of it is written")
    ex.index_term(k)
    b = m.arr(P(o.base), I8, n=room, heap=False, defd=lambda j: j < k)
    m.forall(lambda j: Implies(And(j >= 0, j < k), ldh(b.get(j))), "letters and digits so far")
    return S


def inv_p2_values(m):
    """for each code point value in turn"""
    ex = m.ex
    t, inp, o, room, size, S0, a, nc, ac = ex.ghost["pass2"]
    ni, n, delta, bias, handled = (iv(m.var(x)) for x in ("ni", "n", "delta", "bias", "handled"))
    if m.assuming:
        ex.ghost["p2"] = n, ni
    ex.index_term(ni)
    ex.index_term(ni - 1)
    t.at(Z, n)
    m.pure(And(ni >= 0, ni <= nc), "within the array")
    m.pure(And(n >= 128, n <= 0x110000, Implies(ni == 0, n == 128), Implies(ni > 0, n == a.get(ni - 1) + 1)), "all below are done")
    m.pure(And(handled >= 0, handled <= t.B(Z, n)), "no more code points handled than there are")
    m.pure(And(bias >= 0, bias <= 36 * 7), "a bias")
    m.pure(And(delta >= 0, delta <= 255 * (n - 128) + 300 * ni), "no overflow")
    prod_fact(ex, a.get(ni) - n, handled + 1, 255)
    S = out_inv(m)
    m.pure(S <= S0 + ni * 3072, "the size is bounded")
    m.decreases(nc - ni)


def inv_p2_text(m):
    ex = m.ex
    t, inp, o, room, size, S0, a, nc, ac = ex.ghost["pass2"]
    n0, ni = ex.ghost["p2"]
    n, delta, bias, handled = (iv(m.var(x)) for x in ("n", "delta", "bias", "handled"))
    i = m.ptr("p", inp.base)
    ex.index_term(i)
    t.at(Z, n0, n, n + 1)
    t.at(i, n, n + 1)
    m.pure(And(i >= 0, i <= t.L, t.V(i)), "within the text")
    m.pure(And(handled >= 0, handled <= t.B(Z, n + 1) - t.B(i, n + 1) + t.B(i, n)), "each code point once")
    m.pure(And(bias >= 0, bias <= 36 * 7), "a bias")
    m.pure(And(delta >= 0, delta <= 255 * (n - 128) + 300 * ni + i), "no overflow")
    S = out_inv(m)
    m.pure(S <= S0 + ni * 3072 + i * 12, "the size is bounded")
    m.decreases(t.L - i)


def inv_p2_digits(m):
    ex = m.ex
    t, inp, o, room, size, S0, a, nc, ac = ex.ghost["pass2"]
    k, q = iv(m.var("k")), iv(m.var("q"))
    S = out_inv(m)
    Sb = m.once("S", lambda: S)
    m.pure(And(q >= 0, Or(*[And(k == 36 * (j + 1), S == Sb + j, q * 10 ** j <= QMAX) for j in range(11)])), "each digit makes it smaller")
    m.decreases(q)


# ------------------------------------------------------------------ one label

def s_label(m, inp, end, out, size):
    ex = m.ex
    t = label_of(m, inp, end, NAME)
    m.pure(t.L >= 1, "not empty")
    sz = cell(m, size, U64)
    cap = iv(sz.val)
    m.pure(And(cap >= 0, cap <= 1000), "a size")
    m.pure(ex.nonnull(m.val(out)), "an output")
    sp = m.span(out, I8, cap)
    if m.assuming:
        for ch in ex.chunks:
            if same(getattr(ch, "base", None), out.base):
                ch.val = ArrVal(cap, I8, ch.val.get, lambda j: False)
        ex.ghost["pass2"] = t, inp, out, cap, size, Z, None, None, None
    t.at(Z, I_(128))
    ret = yield
    if m.assuming:
        S = m.fresh("size")
        sz.val = S
    else:
        c2 = ex.find(m.base(size), "variable")
        if c2.val is UNINIT:
            m.pure(False, "the size is set")
        S = iv(c2.val)
        ex.remove(c2)
    if not succeeds(m, ret):
        m.ret_null(ret)
        sp.back(defd=lambda j: False)
        return
    i = m.ret_ptr(ret, inp.base)
    off = iv(inp.idx)
    t.at(Z, I_(128))
    m.pure(And(t.V(Z), i == off + t.S(Z), t.S(Z) >= 0, t.S(Z) <= t.L), "the end of the label")
    m.pure(And(S >= 0, S <= LABEL), "a label has at most 63 characters")
    new = sp.back(defd=lambda j: And(S <= cap, j < S))

    proving = not m.assuming
    def chars(j):
        if proving and "out_at" in ex.ghost:
            ex.index_term(j)
            ex.index_term(j - ex.ghost["out_at"])
            ex.index_term(j - ex.ghost["out_at"] - 1)
        return Implies(And(S <= cap, j >= 0, j < S), ldh(new.get(j)))
    m.forall(chars, "letters, digits and hyphens")


def inv_label(m):
    ex = m.ex
    t = ex.ghost["pass2"][0]
    i, h, c = iv(m.var("i")), iv(m.var("ascii_count")), iv(m.var("nonascii_count"))
    ex.index_term(i)
    m.pure(And(i >= 0, i <= h), "within the ASCII characters")
    S = out_inv(m)
    m.pure(S == i + Ite(c > 0, I_(4), Z), "what was written")
    m.decreases(h - i)


# -------------------------------------------------------------------- the name

def name_fact(get, n, ld):
    """every byte is a letter, digit, hyphen or dot, and every label of at most
    63: ld(k) is a label boundary at most 63 bytes before position k"""
    def f(k):
        c, d = iv(get(k)), iv(ld(k))
        return Implies(And(k >= 0, k < n), And(Or(ldh(c), c == 46), Or(c == 46, And(d >= -1, d < k, k - d <= LABEL, Or(d == -1, get(d) == 46)))))
    return f


def result_name(m, ret):
    """NULL, or a name in a block of its own"""
    ex = m.ex
    if not succeeds(m, ret):
        m.ret_null(ret)
        return
    if m.assuming:
        n = m.fresh("len")
        ex.assume(And(n >= 0, n <= NAME))
        a = m.arr(ret, I8, n=n + 1)
        ld = z3.Function(ex.nm("boundary"), II, II)
        ex.ghost["name"] = n, ld
    else:
        if "name" in ex.ghost:
            n, ld = ex.ghost["name"]
        else:
            c = ex.find(m.base(ret), "result")
            if not isinstance(c.val, ArrVal):
                raise Limit("array expected")
            n, ld = iv(c.val.n) - 1, boundaries(ex)
        m.pure(And(n >= 0, n <= NAME), "at most 254 characters")
        a = m.arr(ret, I8, n=n + 1)
    ex.index_term(n)
    m.pure(a.get(n) == 0, "terminated")
    nf = name_fact(a.get, n, ld)

    proving = not m.assuming
    def fact(k):
        if proving:
            ex.index_term(k)
            ex.index_term(ld(k))
            if "ld" in ex.ghost:
                ex.index_term(k - ex.ghost["ld"][1])
        return nf(k)
    m.forall(fact, "a host name: lower-case letters, digits, hyphens and dots; labels of at most 63")


def strlen_hint(ex, p, a):
    """where a string built in a buffer ends: shown, not assumed"""
    for c in reversed(list(ex.terms)):
        if a.slen is not None:
            return a.slen
        if ex.entails(And(c >= 0, c < a.n, a.get(c) == 0)):
            k = z3.Int(ex.nm("k"))
            ex.index_term(k)
            if "ld" in ex.ghost:
                ex.index_term(k - ex.ghost["ld"][1])
            if ex.entails(Implies(And(k >= 0, k < c), a.get(k) != 0)):
                if a.defd is not None:
                    ex.prove(Implies(And(k >= 0, k <= c), a.defd(k)), "the string is initialised", kind="memory")
                return c
    return None


def s_filtered(m, host, end):
    ex = m.ex
    t = label_of(m, host, end)
    ex.ghost["filtered"] = host, t
    ret = yield
    result_name(m, ret)


def inv_filtered(m):
    ex = m.ex
    host, t = ex.ghost["filtered"]
    enc = m.find_var("encoding").mem
    i = m.ptr("p", host.base)
    o = iv(m.var("output_size"))
    q = m.ptr("q", enc)
    ex.index_term(i)
    m.pure(And(i >= 0, i < t.L), "a further label")
    m.pure(And(o >= 0, o <= NAME - 1, q == o), "all of it is written")
    a = m.arr(P(enc), I8, n=NAME + 1, heap=False, defd=lambda j: j < o)
    m.pure(Implies(o > 0, a.get(o - 1) == 46), "at a label boundary")
    ex.index_term(o - 1)
    if m.assuming:
        ld = z3.Function(ex.nm("boundary"), II, II)
        ex.ghost["ld"] = ld, o
    else:
        ld = boundaries(ex)
    nf = name_fact(a.get, o, ld)

    proving = not m.assuming
    def fact(k):
        if proving:
            ex.index_term(k)
            ex.index_term(ld(k))
            if "ld" in ex.ghost:
                ex.index_term(k - ex.ghost["ld"][1])
        return nf(k)
    m.forall(fact, "a host name so far")
    m.decreases(t.L - i)


def boundaries(ex):
    if "ld" not in ex.ghost:
        return lambda k: I_(-1)
    old, o0 = ex.ghost["ld"]
    return lambda k: Ite(k < o0, old(k), o0 - 1)


def s_nfc(m, host, end):
    ex = m.ex
    t = label_of(m, host, end)
    ex.ghost["nfc"] = host, t
    ret = yield
    result_name(m, ret)


def inv_nfc(m):
    ex = m.ex
    host, t = ex.ghost["nfc"]
    w = m.find_var("workarea").mem
    i = m.ptr("p", host.base)
    q = m.ptr("q", w)
    ex.index_term(i)
    t.wf(i)
    m.pure(And(i >= 0, i <= t.L), "within the text")
    m.pure(And(q >= 0, q <= NAME), "within the work area")
    m.arr(P(w), I8, n=NAME + 1, heap=False, defd=lambda j: j < q)
    m.decreases(t.L - i)


# ---------------------------------------------------------- the whole encoding

MAPPED = z3.Function("MAPPED", II, z3.BoolSort())


def s_status(m, c):
    m.pure(And(iv(c) >= 0, iv(c) <= 0x10ffff), "a code point")
    ret = yield
    m.val(ret)


def s_mapped(m, c):
    m.pure(And(iv(c) >= 0, iv(c) <= 0x10ffff), "a code point")
    ret = yield
    m.pure(m.ex.truth(m.val(ret), BOOL) == MAPPED(iv(c)), "as the table says")


def s_mapping(m, c):
    """a constant string; there is one if the status is 'mapped' (table fact)"""
    ex = m.ex
    m.pure(And(iv(c) >= 0, iv(c) <= 0x10ffff), "a code point")
    ret = yield
    has = m.split(z3.Bool(ex.nm("has_mapping")))
    if not has:
        ex.assume(Not(MAPPED(iv(c))))
        m.ret_null(ret)
        return
    base = ex.freshbase("mapping")
    n = m.fresh("maplen")
    ex.assume(And(n >= 0, n < 256))
    a = ArrVal(n + 1, I8, ex.arr_uf("mapping", I8), None, n)
    ex.add_chunk(Mem(base, T("arr", to=I8, n=None), a, heap=False, ro=True))
    ex.index_term(n)
    ex.assume(a.get(n) == 0)
    ex.add_lazy(lambda k: Implies(And(k >= 0, k < n), a.get(k) != 0))
    m.ret_is(ret, P(base, (0,)))


def s_normal(m, p, end):
    """C21's contract, as far as it is needed here"""
    m.pure(m.ex.nonnull(m.val(end)), "an end is given")
    label_of(m, p, end)
    ret = yield
    m.val(ret)


def s_convert(m, p, end, out, oend):
    """C21's contract, as far as it is needed here: a NUL-terminated text within the room"""
    ex = m.ex
    m.pure(ex.nonnull(m.val(end)), "an end is given")
    label_of(m, p, end)
    room = room_of(m, out, oend)
    sp = m.span(out, I8, room)
    ret = yield
    if not succeeds(m, ret):
        m.ret_null(ret)
        sp.back(defd=lambda j: False)
        return
    i = m.ret_ptr(ret, out.base)
    n = i - iv(out.idx)
    m.pure(And(n >= 0, n < room), "the end is within the room")
    a = sp.back(defd=lambda j: j <= n)
    ex.index_term(n)
    m.pure(a.get(n) == 0, "terminated")


def s_nfd(m, host, end):
    t = label_of(m, host, end)
    m.pure(t.L < 1 << 60, "not huge")
    ret = yield
    result_name(m, ret)


def s_idna(m, host):
    ex = m.ex
    n, get = m.cstr(host)
    m.pure(n < 1 << 58, "the length times three fits size_t")
    ascii_ = m.split(z3.Bool(ex.nm("all_ascii")))
    if m.assuming:
        if ascii_:
            ex.add_lazy(lambda k: Implies(And(k >= 0, k < n), get(k) > 0))
        else:
            k = m.fresh("other")
            ex.assume(And(k >= 0, k < n, get(k) < 0))
            ex.index_term(k)
    ret = yield
    if ascii_:
        m.pure(ex.nonnull(m.val(ret)), "ASCII names are copied")
        a = m.arr(ret, I8, n=n + 1)
        ex.index_term(n)
        m.pure(a.get(n) == 0, "terminated")
        m.forall(lambda j: Implies(And(j >= 0, j < n), a.get(j) == LOW(get(j))), "ASCII letters in lower case, nothing else changed")
        return
    result_name(m, ret)


C = Contract
PUNY = [C("adapt", s_adapt, {0: LoopSpec(inv_adapt, {"k": "int", "delta": "int"})}),
        C("record_nonascii", s_record, {0: LoopSpec(inv_record, {"i": "int"})}),
        C("punycode_encode_pass1", s_pass1, {0: LoopSpec(inv_pass1, {"p": "ptr", "h": "int:64:False", "n": "int:64:False", "first": "bool"})}),
        C("punycode_encode_pass2", s_pass2, {0: LoopSpec(inv_p2_values, {"ni": "int:64:False", "n": "int", "delta": "int", "bias": "int", "handled": "int:64:False", "o": "ptr"}),
                                             1: LoopSpec(inv_p2_text, {"p": "ptr", "n": "int", "delta": "int", "bias": "int", "handled": "int:64:False", "o": "ptr"}),
                                             2: LoopSpec(inv_p2_digits, {"k": "int", "q": "int", "o": "ptr"})}),
        C("punycode_encode", s_label, {0: LoopSpec(inv_label, {"i": "int:64:False", "o": "ptr"})}),
        C("encode_filtered", s_filtered, {0: LoopSpec(inv_filtered, {"p": "ptr", "q": "ptr", "output_size": "int:64:False"})}),
        C("encode_nfc", s_nfc, {0: LoopSpec(inv_nfc, {"p": "ptr", "q": "ptr"})}),
        C("encode_nfd", s_nfd), C("charstr_idna_encode", s_idna),
        C("is_all_ascii", s_allascii, {0: LoopSpec(inv_allascii, {"s": "ptr"})})]
USED = [C("charstr_char_class", s_char_class), C("charstr_lcase_char", charstr.s_lcase), C("charstr_unicode_category", s_category),
        C("charstr_idna_status_is_valid", s_status), C("charstr_idna_status_is_deviation", s_status), C("charstr_idna_status_is_ignored", s_status),
        C("charstr_idna_status_is_mapped", s_mapped), C("charstr_idna_mapping", s_mapping),
        C("charstr_unicode_canonically_composed", s_normal), C("charstr_unicode_canonically_decomposed", s_normal),
        C("charstr_unicode_recompose", s_convert), C("charstr_unicode_decompose", s_convert),
        C("charstr_dupstr", charstr.s_dupstr), C("charstr_lcase_str", charstr.case_str(LOW)),
        C("charstr_decode_utf8_codepoint", s_decode), C("charstr_encode_utf8_codepoint", s_encode)]
CONTRACTS = {c.name: c for c in PUNY + USED}
FUNCS = [c.name for c in PUNY]


def verifier():
    return Verifier([Unit(src("charstr_puny.c"))], CONTRACTS, {}, builtins=libc.BUILTINS, strlen_hint=strlen_hint)
