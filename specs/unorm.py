"""Contracts of charstr_decompose.c, charstr_recompose.c and charstr_unicode.c (C21).

The generated tables are functions here: CCC (combining class), NF (normal form
flags), the canonical decomposition HASD, DN, DC and the primary composite PC;
C23 decides that they are those of the Unicode data, and facts about their
ranges used here are decided over their whole domain (unidata.facts)."""
import itertools
from slv import *
import libc
import charstr
from charstr import Text, wf_term, cp_term, to_end, null, sc, U
from b64 import iv, errno_is

Z = z3.IntVal(0)
I_ = z3.IntVal
II = z3.IntSort()
EILSEQ, EOVERFLOW, EAGAIN, ENODATA, ENOBUFS = 84, 75, 11, 61, 105

CCC = z3.Function("CCC", II, II)
NF = z3.Function("NF", II, II)
HASD = z3.Function("HASD", II, z3.BoolSort())
DN = z3.Function("DN", II, II)
DC = z3.Function("DC", II, II, II)
PC = z3.Function("PC", II, II, II)


def scalar(c):
    return Or(And(c >= 0, c < 0xd800), And(c > 0xdfff, c <= 0x10ffff))


# ------------------------------------------------------------ the tables

def s_ccc(m, c):
    c = iv(c)
    m.pure(And(c >= 0, c <= 0x10ffff), "a code point")
    ret = yield
    m.ex.assume_once(And(CCC(c) >= 0, CCC(c) <= 254))
    m.ret_is(ret, CCC(c))


def s_nf(m, c):
    c = iv(c)
    m.pure(And(c >= 0, c <= 0x10ffff), "a code point")
    ret = yield
    m.ex.assume_once(And(NF(c) >= 0, NF(c) <= 255))
    m.ret_is(ret, NF(c))


def s_dec(m, c):
    ex = m.ex
    c = iv(c)
    m.pure(And(c >= 0, c <= 0x10ffff), "a code point")
    ret = yield
    if not m.split(HASD(c)):
        m.ret_null(ret)
        return
    base = ex.freshbase("decomposition")
    n = DN(c)
    ex.assume_once(And(n >= 1, n <= 2))
    ex.add_lazy(lambda k: Implies(And(k >= 0, k < n), And(DC(c, k) > 0, scalar(DC(c, k)))))
    ex.add_chunk(Mem(base, T("arr", to=I32, n=None), ArrVal(n + 1, I32, lambda k: Ite(iv(k) < n, DC(c, iv(k)), Z)), heap=False, ro=True))
    m.ret_is(ret, P(base, (0,)))


def s_pc(m, a, b):
    a, b = iv(a), iv(b)
    m.pure(And(a >= 0, a <= 0x10ffff, b >= 0, b <= 0x10ffff), "code points")
    ret = yield
    r = PC(a, b)
    m.ex.assume_once(And(r >= -1, Implies(r >= 0, And(scalar(r), r > 0))))
    m.ret_is(ret, r)


# ------------------------------------------------------ UTF-8 (C13's contracts)

def ul(c):
    return Ite(c < 0x80, I_(1), Ite(c < 0x800, I_(2), Ite(c < 0x10000, I_(3), I_(4))))


def ub(c, t):
    """byte t (a number) of the encoding of c"""
    x = 0x80
    b1 = [c]
    b2 = [0xc0 + c / 64, x + c % 64]
    b3 = [0xe0 + c / 4096, x + c / 64 % 64, x + c % 64]
    b4 = [0xf0 + c / 262144, x + c / 4096 % 64, x + c / 64 % 64, x + c % 64]
    at = lambda b: b[t] if t < len(b) else Z
    return sc(Ite(c < 0x80, at(b1), Ite(c < 0x800, at(b2), Ite(c < 0x10000, at(b3), at(b4)))))


UL = z3.Function("UL", II, II)
UB = z3.Function("UB", II, II, II)


def oul(ex, c):
    """the length of the encoding of c, by name; its definition where needed"""
    ex.assume_once(UL(c) == ul(c))
    return UL(c)


def cpw(get, w):
    return Ite(w == 1, cp_term(get, 1), Ite(w == 2, cp_term(get, 2), Ite(w == 3, cp_term(get, 3), cp_term(get, 4))))


def text_of(m, s, end):
    """(length, bytes, bounded) of the text from s to end or the NUL"""
    if null(m, end):
        n, get = m.cstr(s)
        return n, get, False
    n = to_end(m, s, end)
    return n, m.borrow(s, I8, n).get, True


def stop_of(m, n, get, bounded):
    """where a loop over the text stops: at the first NUL or the end"""
    if not bounded:
        return n
    ex = m.ex
    k = z3.Int(ex.nm("stop"))       # exists by the least number principle
    ex.assume(And(k >= 0, k <= n, Or(k == n, get(k) == 0)))
    ex.index_term(k)
    ex.add_lazy(lambda j: Implies(And(j >= 0, j < k), get(j) != 0))
    return k


def cell(m, p):
    """the variable p points to"""
    c = m.ex.find(m.base(p), m.label + ": a variable for the result")
    if isinstance(c.val, (ArrVal, StructVal)) or c.ro:
        raise Limit("variable for a result")
    return c


def known(c, g, room):
    """the encoding of c is here"""
    return And(scalar(c), UL(c) >= 1, UL(c) <= room, *[Implies(UL(c) > t, g(I_(t)) == UB(c, I_(t))) for t in range(4)])


def s_decode(m, s, end, codepoint):
    ex = m.ex
    if m.assuming:
        raise Limit("proved by CBMC")
    if null(m, s):
        ret = yield
        m.ret_null(ret)
        return
    n, get, bounded = text_of(m, s, end)
    out = cell(m, codepoint) if m.split(ex.nonnull(m.val(codepoint))) else None
    for i0, c in ex.ghost.get("reading", ()):
        if bounded and m.call and ex.entails(And(i0 == iv(s.idx), known(c, get, n))):
            # lemma read_back: what is here is the encoding of c
            ret = yield
            i = m.ret_ptr(ret, s.base)
            ex.assume(iv(i) == iv(s.idx) + UL(c))
            if out is not None:
                out.val = c
            return
    w = wf_term(get, n if bounded else None)
    for k in range(4):
        ex.index_term(iv(s.idx) + k)
    ret = yield
    if m.split(w == 0):
        m.ret_null(ret)
        return
    i = m.ret_ptr(ret, s.base)
    ex.assume(And(iv(i) == iv(s.idx) + w, w <= n, w >= 1, w <= 4))
    if out is not None:
        c = cpw(get, w)
        ex.assume_once(scalar(c))       # lemma, see lemmas()
        ex.assume_once(Implies(c == 0, get(Z) == 0))
        out.val = c


def room_of(m, s, end):
    """bytes of the output from s to end, which lies in the same buffer"""
    if m.assuming:
        n = m.fresh("room")
        m.ex.assume(And(n >= 0, n < (1 << 62)))
        k = [j for j, a in enumerate(m.args) if a is end][-1]
        m.args[k] = P(s.base, (n,))
        return n
    m.pure(m.ex.nonnull(m.val(end)), "the output has an end")
    m.pure(s.base == end.base, "the end lies in the output")
    n = iv(end.idx) - iv(s.idx)
    m.pure(n >= 0, "the output position is within the output")
    return n


def s_encode(m, c, s, end):
    ex = m.ex
    if m.assuming:
        raise Limit("proved by CBMC")
    c = iv(c)
    m.pure(scalar(c), "a scalar value")
    if null(m, s):
        ret = yield
        m.ret_null(ret)
        return
    n = room_of(m, s, end)
    sp = m.span(s, I8, n)
    ret = yield
    w = ul(c)
    opaque = ex.ghost.get("opaque")
    if opaque:
        w = oul(ex, c)
    fits = m.split(w <= n)
    new = sp.back(defd=lambda j: And(fits, j < w))
    if not fits:
        m.ret_null(ret)
        return
    i = m.ret_ptr(ret, s.base)
    ex.assume(iv(i) == iv(s.idx) + w)
    for t in range(4):
        ex.assume(Implies(w > t, new.get(I_(t)) == (UB(c, I_(t)) if opaque else ub(c, t))))


# ------------------------------------------------------------- quick check

class NText(Text):
    """code points of a text, and the quick check's answer from a position on:
    0 allowed, 1 maybe, 2 disallowed, 3 malformed"""

    def __init__(self, ex, n, get, limit, form=0):
        """the text is bytes 0..n-1; limit: the end decoding is told, if any"""
        super().__init__(ex, n, get, limit is not None)
        self.form, self.limit = form, limit
        self.C = z3.Function(ex.nm("cp"), II, II)
        self.A = z3.Function(ex.nm("answer"), II, II, II)

    def wf(self, i):
        i = iv(i)
        for k in range(4):
            self.ex.index_term(i + k)
        self.ex.assume_once(self.W(i) == wf_term(lambda k: self.get(i + k), self.limit - i if self.bounded else None))
        return self.W(i)

    def cp(self, i):
        i = iv(i)
        w = self.wf(i)
        c = self.C(i)
        self.ex.assume_once(Implies(w > 0, And(c == cpw(lambda k: self.get(i + k), w), scalar(c))))
        self.ex.assume_once(And(w >= 0, w <= 4, CCC(c) >= 0, CCC(c) <= 254))
        return c

    def answer(self, i, last):
        ex, i, last = self.ex, iv(i), iv(last)
        c = self.cp(i)
        w = self.W(i)
        k = CCC(c)
        bit = lambda b: NF(c) / (1 << b) % 2 == 1
        r = self.A(i + w, k)
        ex.assume_once(Implies(i == self.n, self.A(i, last) == 0))
        ex.assume_once(Implies(And(i >= 0, i < self.n), self.A(i, last) ==
                               Ite(w == 0, I_(3), Ite(Or(And(k != 0, last > k), bit(2 * self.form)), I_(2),
                                                      Ite(r >= 2, r, Ite(bit(2 * self.form + 1), I_(1), r))))))
        ex.assume_once(And(self.A(i, last) >= 0, self.A(i, last) <= 3, r >= 0, r <= 3))
        return self.A(i, last)


def quick(m, s, end, form):
    ex = m.ex
    n, get, bounded = text_of(m, s, end)
    old = ex.ghost.get("text")
    if m.call and old is not None:
        s0, t, e0 = old
        if s0.base == s.base and t.form == form and ex.entails(And(iv(s0.idx) == iv(s.idx), t.limit == iv(n) + iv(s.idx)) if bounded and t.bounded
                                                               else z3.BoolVal(bounded == t.bounded)):
            return t
    t = NText(ex, stop_of(m, n, get, bounded), get, n if bounded else None, form)
    if not m.call:
        ex.ghost["text"] = s, t, end
    return t


def s_detect(m, s, end, dis, maybe):
    ex = m.ex
    dis, maybe = iv(dis), iv(maybe)
    for form in range(4):
        pair = And(dis == 1 << 2 * form, maybe == 2 << 2 * form)
        if form == 3:
            m.pure(pair, "a pair of flags")
        elif not m.split(pair):
            continue
        break
    if m.assuming:
        m.args[2], m.args[3] = 1 << 2 * form, 2 << 2 * form
        dis, maybe = I_(1 << 2 * form), I_(2 << 2 * form)
    t = quick(m, s, end, form)
    ret = yield
    a = t.answer(Z, Z)
    m.pure(m.val(ret) == Ite(a == 0, Z, Ite(a == 1, maybe, Ite(a == 2, dis, I_(-1)))), "the answer of the standard's quick check")
    if m.split(a == 3):
        errno_is(m, EILSEQ)
    elif m.call:
        pass


def inv_detect(m):
    ex = m.ex
    s, t, e = ex.ghost["text"]
    i = m.ptr("s", s.base)
    r, last = iv(m.var("result")), iv(m.var("last_canonical_class"))
    ex.index_term(i)
    m.pure(And(i >= 0, i <= t.n), "within the text")
    m.pure(And(last >= 0, last <= 254, Or(r == 0, r == 2 << 2 * t.form)), "a class, and allowed or maybe so far")
    a0, a = t.answer(Z, Z), t.answer(i, last)
    m.pure(a0 == Ite(a >= 2, a, Ite(r != 0, I_(1), a)), "the answer is that of the rest and what was seen")
    m.decreases(t.n - i)


def s_is(form):
    def s(m, p, end):
        t = quick(m, p, end, form)
        ret = yield
        m.pure(m.ex.truth(m.val(ret), I32) == (t.answer(Z, Z) == 0), "true exactly if the quick check allows it")
    return s


# ----------------------------------------------------------- decomposition

SB, LB, VB, TB = 0xac00, 0x1100, 0x1161, 0x11a7
DLEN = z3.Function("DLEN", II, II)
DB = z3.Function("DB", II, II, II)
DLK = z3.Function("DLK", II, II, II)
DBK = z3.Function("DBK", II, II, II, II)


def hangul(c):
    """(is a syllable, its jamo; the last one 0 if there are two)"""
    i = c - SB
    return And(i >= 0, i < 11172), [LB + i / 588, VB + i % 588 / 28, Ite(i % 28 == 0, Z, TB + i % 28)]


def full(ex, c):
    """the full canonical decomposition of c: DLEN(c) bytes DB(c, j)"""
    h, jamo = hangul(c)
    ex.assume_once(And(DLEN(c) >= 1, DLEN(c) <= 1 << 20))
    for x in [c] + jamo:
        oul(ex, x)
    byte = lambda x, t: UB(x, I_(t))
    ex.assume_once(Implies(And(Not(HASD(c)), Not(h)), And(DLEN(c) == UL(c), *[Implies(UL(c) > t, DB(c, I_(t)) == byte(c, t)) for t in range(4)])))
    ex.assume_once(Implies(And(Not(HASD(c)), h), And(DLEN(c) == 6 + Ite(jamo[2] == 0, Z, I_(3)),
                                                   *[DB(c, I_(3 * k + t)) == byte(jamo[k], t) for k in range(2) for t in range(3)],
                                                   *[Implies(jamo[2] != 0, DB(c, I_(6 + t)) == byte(jamo[2], t)) for t in range(3)])))
    ex.assume_once(Implies(HASD(c), DLEN(c) == DLK(c, Z)))
    return DLEN(c)


def fullk(ex, c, k):
    """its part from element k of the decomposition on"""
    ex.assume_once(DLK(c, DN(c)) == 0)
    x = DC(c, k)
    ex.assume_once(Implies(And(HASD(c), k >= 0, k < DN(c)), DLK(c, k) == DLEN(x) + DLK(c, k + 1)))
    ex.assume_once(And(DLEN(x) >= 1, DLK(c, k) >= 0, DLK(c, k + 1) >= 0))
    return DLK(c, k)


def fullb(ex, c, k, j):
    x = DC(c, k)
    ex.assume_once(Implies(And(HASD(c), k >= 0, k < DN(c), j >= 0), DBK(c, k, j) == Ite(j < DLEN(x), DB(x, j), DBK(c, k + 1, j - DLEN(x)))))
    ex.assume_once(Implies(And(HASD(c), j >= 0), DB(c, j) == DBK(c, Z, j)))
    return DBK(c, k, j)


def s_decompose1(m, c, s, end):
    """one code point, fully"""
    ex = m.ex
    if m.assuming:
        ex.ghost["opaque"] = True
    c = iv(c)
    m.pure(And(scalar(c), c > 0) if False else scalar(c), "a scalar value")
    if null(m, s):
        if m.assuming:
            ex.ghost["full"] = c, None, None
        ret = yield
        m.ret_null(ret)
        return
    n = room_of(m, s, end)
    sp = m.span(s, I8, n)
    if m.assuming:
        ex.ghost["full"] = c, s, n
    ret = yield
    w = full(ex, c)
    fits = m.split(w <= n)
    new = sp.back(defd=lambda j: And(fits, j < w))
    if not fits:
        m.ret_null(ret)
        return
    i = m.ret_ptr(ret, s.base)
    m.pure(iv(i) == iv(s.idx) + w, "the position after it")

    def same_(j):
        fullb(ex, c, Z, j)
        return Implies(And(j >= 0, j < w), new.get(j) == DB(c, j))
    m.forall(same_, "the bytes of the full canonical decomposition")


def s_hangul(m, c, s, end):
    """a code point without a decomposition in the tables"""
    m.pure(Not(HASD(iv(c))), "no decomposition in the tables")
    g = s_decompose1(m, c, s, end)
    next(g)
    ret = yield
    try:
        g.send(ret)
    except StopIteration:
        pass


def inv_full(m):
    ex = m.ex
    c, s0, n = ex.ghost["full"]
    if m.assuming:
        db = ex.ghost["dp"]
    else:
        db = ex.ghost.setdefault("dp", m.var("dp").base)
    if s0 is None:
        if m.assuming:
            m.setvar("s", NULL)
        m.pure(Not(ex.nonnull(m.var("s"))), "there is no output")
        k = m.ptr("dp", db)
        return
    k = m.ptr("dp", db)
    ex.index_term(k)
    m.pure(And(k >= 0, k <= DN(c)), "within the decomposition")
    if m.assuming:
        alive = m.split(z3.Bool(ex.nm("alive")))
        if not alive:
            m.setvar("s", NULL)
    else:
        alive = m.split(ex.nonnull(m.var("s")))
    full(ex, c)
    fullk(ex, c, k)
    fullk(ex, c, Z)
    full(ex, DC(c, k))
    if not alive:
        m.arr(P(s0.base), I8, n=n, heap=False, defd=lambda j: False)
        m.pure(DLEN(c) > n, "stopped because it does not fit")
        m.decreases(Z)
        return
    o = m.ptr("s", s0.base)
    ex.index_term(o)
    was = ex.ghost.get("full_at")
    ex.ghost["full_at"] = k, o
    m.pure(And(o >= 0, o <= n, o == DLEN(c) - DLK(c, k)), "what is left to write is the rest")
    a = m.arr(P(s0.base), I8, n=n, heap=False, defd=lambda j: j < o)

    def rest(j):
        fullb(ex, c, k, j - o)
        fullb(ex, c, Z, j)
        return Implies(And(j >= o, j < DLEN(c)), DB(c, j) == DBK(c, k, j - o))
    m.forall(rest, "the rest of the decomposition")


    proving = not m.assuming
    def written(j):
        if was and proving:
            k0, o0 = was
            ex.index_term(j)
            ex.index_term(j - o0)
            fullb(ex, c, k0, j - o0)
            fullb(ex, c, Z, j)
        return Implies(And(j >= 0, j < o), a.get(j) == DB(c, j))
    m.forall(written, "written so far")
    m.decreases(DN(c) - k + 1)


# --------------------------------- the elements of a full decomposition (lemma)

DM = z3.Function("DM", II, II)
DE = z3.Function("DE", II, II, II)
DO = z3.Function("DO", II, II, II)


def elem_def(c, k):
    """the k-th code point of the full decomposition of c, and its offset"""
    h, jamo = hangul(c)
    x, y = DC(c, Z), DC(c, I_(1))
    two = DN(c) == 2
    pick = Ite(k == 0, jamo[0], Ite(k == 1, jamo[1], jamo[2]))
    return And(Implies(And(Not(HASD(c)), Not(h)), And(DM(c) == 1, Implies(k == 0, And(DE(c, k) == c, DO(c, k) == 0)), Implies(k == 1, DO(c, k) == UL(c)))),
               Implies(And(Not(HASD(c)), h), And(DM(c) == Ite(jamo[2] == 0, I_(2), I_(3)),
                                                Implies(And(k >= 0, k < DM(c)), DE(c, k) == pick), Implies(And(k >= 0, k <= DM(c)), DO(c, k) == 3 * k))),
               Implies(HASD(c), And(DM(c) == DM(x) + Ite(two, DM(y), Z),
                                    Implies(And(k >= 0, k < DM(x)), DE(c, k) == DE(x, k)),
                                    Implies(And(k >= DM(x), k < DM(c)), DE(c, k) == DE(y, k - DM(x))),
                                    Implies(And(k >= 0, k < DM(x)), DO(c, k) == DO(x, k)),
                                    Implies(And(k == DM(x), Not(two)), DO(c, k) == DLEN(x)),
                                    Implies(And(two, k >= DM(x), k <= DM(c)), DO(c, k) == DLEN(x) + DO(y, k - DM(x))))))


def elem_fact(c, k):
    """what is claimed of them"""
    e = DE(c, k)
    return And(DM(c) >= 1, DO(c, Z) == 0, DO(c, DM(c)) == DLEN(c), DLEN(c) >= DM(c),
               Implies(And(k >= 0, k < DM(c)), And(scalar(e), Implies(c > 0, e > 0), UL(e) >= 1, UL(e) <= 4, DO(c, k) >= 0,
                                                 DO(c, k + 1) == DO(c, k) + UL(e), DO(c, k + 1) <= DLEN(c),
                                                 *[Implies(UL(e) > t, DB(c, DO(c, k) + t) == UB(e, I_(t))) for t in range(4)])))


def elem_lemmas():
    """induction on the decomposition, which is acyclic (unidata.facts)"""
    c, k = z3.Ints("c k")
    x, y = DC(c, Z), DC(c, I_(1))

    class Facts:                  # collects what full() and the others define
        def __init__(self):
            self.e = []

        def assume_once(self, e):
            self.e.append(e)
    ex = Facts()
    full(ex, c)
    for j in (0, 1, 2):
        fullk(ex, c, I_(j))
    for t in range(4):
        for j in (0, 1, 2):
            at = DO(c, k) + t
            for i in range(j):
                at = at - DLEN(DC(c, I_(i)))
            fullb(ex, c, I_(j), at)
    full(ex, x)
    full(ex, y)
    defs = And(*ex.e, *[elem_def(c, i) for i in (Z, k, k + 1, DM(c))], scalar(c),
               Implies(HASD(c), And(DN(c) >= 1, DN(c) <= 2, c > 0, *[Implies(DN(c) > i, And(DC(c, I_(i)) > 0, scalar(DC(c, I_(i))))) for i in range(2)])))
    hyp = Implies(HASD(c), And(*[elem_fact(x, i) for i in (Z, k, k + 1)],
                               Implies(DN(c) == 2, And(*[elem_fact(y, i) for i in (Z, k - DM(x), k + 1 - DM(x), DM(y))]))))
    f = elem_fact(c, k)
    out = []
    for i, part in enumerate(f.children()[:-1]):
        out.append(("the elements of a full decomposition, %d" % i, Implies(And(defs, hyp), part)))
    for name, case in (("plain", And(Not(HASD(c)), Not(hangul(c)[0]))), ("Hangul", And(Not(HASD(c)), hangul(c)[0])), ("decomposed", HASD(c))):
        last = f.children()[-1]
        for i, part in enumerate(last.arg(1).children()):
            out.append(("the elements of a full decomposition, %s %d" % (name, i), Implies(And(defs, hyp, case, last.arg(0), DM(c) >= 1), part)))
    return out


def elements(ex, c):
    """the lemma for c, at the element indices"""
    ex.add_lazy(lambda k: elem_fact(c, k), kind="dec")
    for k in (Z, DM(c)):
        ex.index_term(k, "dec")


# ------------------------------------------------- sequences of code points

def for_all(m, fn, label, arity, cases, kind="el"):
    """m.forall, case by case when it is to be proved"""
    ex = m.ex
    if m.assuming or not cases:
        m.forall(fn, label, arity, kind)
        return
    ks = [m.fresh("k") for _ in range(arity)]
    for k in ks:
        ex.index_term(k, kind)
    e = fn(*ks)
    for cs in itertools.product(*[cases(k) for k in ks]):
        ex.prove(Implies(And(*cs), e), m.label + ": " + label, kind="post")


class Seq:
    """N code points E(k), encoded one after the other from offset 0, each at O(k)"""

    def __init__(self, N, E, O):
        self.N, self.E, self.O = N, E, O

    @staticmethod
    def fresh(ex, N):
        return Seq(N, z3.Function(ex.nm("element"), II, II), z3.Function(ex.nm("offset"), II, II))

    def at(self, get):
        def f(k):
            c = self.E(k)
            return z3.Implies(And(k >= 0, k < self.N),
                           And(scalar(c), c > 0, self.O(k) >= 0, self.O(k + 1) == self.O(k) + UL(c), UL(c) >= 1, UL(c) <= 4,
                               *[Implies(UL(c) > t, get(self.O(k) + t) == UB(c, I_(t))) for t in range(4)]))
        return f

    def rising(self, ex):
        """lemma: what is the next offset everywhere is monotone (induction)"""
        ex.add_lazy(lambda k, l: Implies(And(k >= 0, k < l, l <= self.N), self.O(k) + UL(self.E(k)) <= self.O(l)), 2, "el")

    def encoded(self, m, get, size, terms=None, cases=None):
        """the size bytes of get are the encoding"""
        ex = m.ex
        m.pure(And(self.N >= 0, self.O(Z) == 0, self.O(self.N) == size), "the elements fill the text")
        ex.index_term(self.N, "el")
        ex.index_term(Z, "el")
        f = self.at(get)
        proving = not m.assuming

        def g(k):
            if proving:
                ex.index_term(k + 1, "el")
                if terms:
                    terms(k)
            return f(k)
        if m.assuming:
            m.forall(g, "each element is where it belongs", kind="el")
            self.rising(ex)
            return
        k = m.fresh("k")
        ex.index_term(k, "el")
        e = g(k)
        hyp, con = e.arg(0), e.arg(1)
        for case in cases(k) if cases else [z3.BoolVal(True)]:
            for x in con.children():
                ex.prove(Implies(And(hyp, case), x), m.label + ": each element is where it belongs", kind="post")


def read_back():
    """decoding the encoding of c yields c"""
    c, room = z3.Ints("c room")
    g = z3.Function("byte", II, II)
    defs = And(UL(c) == ul(c), *[UB(c, I_(t)) == ub(c, t) for t in range(4)])
    rng = And(*[And(g(I_(t)) >= -128, g(I_(t)) < 128) for t in range(4)])
    out = []
    for lo, hi, w in ((0, 0x80, 1), (0x80, 0x800, 2), (0x800, 0xd800, 3), (0xe000, 0x10000, 3), (0x10000, 0x40000, 4), (0x40000, 0x100000, 4), (0x100000, 0x110000, 4)):
        h = And(c >= lo, c < hi, defs, rng, known(c, g, room))
        out.append(("decoding the encoding of U+%04X..U+%04X: length" % (lo, hi - 1), Implies(h, And(UL(c) == w, wf_term(g, room) == w))))
        out.append(("decoding the encoding of U+%04X..U+%04X: value" % (lo, hi - 1), Implies(And(h, UL(c) == w), cp_term(g, w) == c)))
    return out


def lemmas():
    return read_back() + elem_lemmas() + join_lemma()


class Order:
    """a rearrangement: the element at k is the one that was at pi(k), and the one
    at p is now at si(p)"""

    def __init__(self, pi, si):
        self.pi, self.si = pi, si

    @staticmethod
    def fresh(ex):
        return Order(z3.Function(ex.nm("from"), II, II), z3.Function(ex.nm("to"), II, II))

    def is_order(self, m, N, E, E0, upto, terms=None, cases=None):
        """E is a rearrangement of E0 in which one element overtook another only
        if its class is lower and not zero"""
        ex = m.ex
        proving = not m.assuming

        def both(k):
            if proving and terms:
                terms(k)
            return Implies(And(k >= 0, k < N), And(self.pi(k) >= 0, self.pi(k) < N, self.si(self.pi(k)) == k, E(k) == E0(self.pi(k))))

        def values(p):
            return Implies(And(p >= 0, p < N), And(self.si(p) >= 0, self.si(p) < N, self.pi(self.si(p)) == p))

        def overtake(k, l):
            if proving and terms:
                terms(k)
                terms(l)
            return Implies(And(k >= 0, k < l, l < N, self.pi(k) > self.pi(l)), And(CCC(E(k)) > 0, CCC(E(k)) < CCC(E(l))))

        def untouched(k):
            if proving and terms:
                terms(k)
            return Implies(And(k >= upto, k < N), And(self.pi(k) == k, E(k) == E0(k)))
        for_all(m, both, "the elements are those before", 1, cases)
        m.forall(values, "each once", kind="val")
        for_all(m, overtake, "overtaking needs a lower non-zero class", 2, cases)
        if upto is not N:
            m.forall(untouched, "the rest is as before", kind="el")


def ordered(m, N, E, terms=None):
    ex = m.ex
    proving = not m.assuming

    def f(k):
        if proving:
            ex.index_term(k + 1, "el")
            if terms:
                terms(k)
                terms(k + 1)
        return Implies(And(k >= 0, k + 1 < N), Or(CCC(E(k + 1)) == 0, CCC(E(k)) <= CCC(E(k + 1))))
    m.forall(f, "canonical order", kind="el")


def s_sort(m, begin, end):
    ex = m.ex
    n = room_of(m, begin, end)
    sp = m.span(begin, I8, n, init=True)
    if m.assuming:
        q = Seq.fresh(ex, z3.Int(ex.nm("elements")))
        ex.ghost["sort"] = begin, n, q
    else:
        q = ex.ghost["elems"]
    q.encoded(m, sp.get, n)
    ret = yield
    if m.call:
        r, o = Seq.fresh(ex, q.N), Order.fresh(ex)
        ex.ghost["sorted"] = r, o
    else:
        r, o = ex.ghost["sorting"][:2]
    a = sp.back()
    r.encoded(m, a.get, n)
    o.is_order(m, q.N, r.E, q.E, q.N)
    ordered(m, q.N, r.E)


def inv_sort(m):
    ex = m.ex
    base, n, q = ex.ghost["sort"]
    if m.assuming:
        k, b = z3.Int(ex.nm("k")), z3.Int(ex.nm("b"))
        r, o = Seq.fresh(ex, q.N), Order.fresh(ex)
        terms = cases = None
    elif "sorting" not in ex.ghost:
        k = b = Z
        r, o = q, Order(lambda x: x, lambda x: x)
        terms = cases = None
    else:
        r0, o0, k0, b0, j = ex.ghost["sorting"]
        k, b = k0 + 1, Ite(CCC(r0.E(k0)) == 0, k0 + 1, b0)
        r, o, terms, cases = r0, o0, None, None
        if j is not None:
            mid = lambda i: And(i > j, i <= k0)
            turn = lambda f: lambda i: Ite(i == j, f(k0), Ite(mid(i), f(i - 1), f(i)))
            r = Seq(q.N, turn(r0.E), lambda i: Ite(mid(i), r0.O(i - 1) + UL(r0.E(k0)), r0.O(i)))
            o = Order(turn(o0.pi), lambda p: Ite(o0.si(p) == k0, j, Ite(And(o0.si(p) >= j, o0.si(p) < k0), o0.si(p) + 1, o0.si(p))))

            def terms(i):
                ex.index_term(i - 1, "el")

            def cases(i):
                return [i < j, i == j, And(i > j, i <= k0), i > k0]
    for x in (k, k + 1, b):
        ex.index_term(x, "el")
    s, bg = m.ptr("s", base.base), m.ptr("begin", base.base)
    last = iv(m.var("last_ccc"))
    m.pure(And(k >= 0, k <= q.N, b >= 0, b <= k, s == r.O(k), bg == r.O(b)), "at an element, and at the first mark of its run")
    a = m.arr(P(base.base), I8, n=n, heap=False)
    proving = not m.assuming

    def run(i, l):
        if proving and terms:
            terms(i)
            terms(l)
        return Implies(And(i >= b, i < l, l < k), CCC(r.E(i)) <= CCC(r.E(l)))

    def marks(i):
        if proving:
            ex.index_term(k - 1, "el")
            if terms:
                terms(i)
        return Implies(And(i >= b, i < k), And(CCC(r.E(i)) > 0, CCC(r.E(i)) <= CCC(r.E(k - 1))))
    m.forall(run, "the run is sorted", 2, kind="el")
    m.forall(marks, "of marks", kind="el")
    for x in (k - 1, b - 1):
        ex.index_term(x, "el")
        if proving and terms:
            terms(x)
    m.pure(Implies(b > 0, CCC(r.E(b - 1)) == 0), "before the run comes a starter")
    r.encoded(m, a.get, n, terms, cases)
    o.is_order(m, q.N, r.E, q.E, k, terms, cases)
    ordered(m, k, r.E, terms)
    m.pure(last == Ite(k > b, CCC(r.E(k - 1)), Z), "the last class")
    m.pure(And(last >= 0, last <= 254), "a class")
    if m.assuming:
        ex.ghost["sorting"] = r, o, k, b, None
        ex.ghost["bytes"] = a.get
        ex.ghost["reading"] = [(s, r.E(k))]
        ex.assume_once(And(CCC(r.E(k)) >= 0, CCC(r.E(k)) <= 254))
    m.decreases(q.N - k)


def inv_insert(m):
    ex = m.ex
    base, n, q = ex.ghost["sort"]
    r, o, k, b, j0 = ex.ghost["sorting"]
    t = m.ptr("t", base.base)
    ccc = iv(m.var("ccc"))
    if m.assuming:
        j = z3.Int(ex.nm("j"))
    else:
        j = b if j0 is None else j0 + 1
    ex.index_term(j, "el")
    ex.index_term(j + 1, "el")
    m.pure(And(j >= b, j < k, t == r.O(j)), "at an element of the run")
    m.pure(And(ccc == CCC(r.E(k)), ccc > 0), "the class to insert")
    m.arr(P(base.base), I8, n=n, heap=False, get=ex.ghost["bytes"])
    m.forall(lambda i: Implies(And(i >= b, i < j), CCC(r.E(i)) <= ccc), "not higher so far", kind="el")
    if m.assuming:
        ex.ghost["sorting"] = r, o, k, b, j
        ex.ghost["reading"] = ex.ghost["reading"] + [(t, r.E(j))]
    m.decreases(k - j)


class Decomp(NText):
    """the code points of the full decompositions of a text: XN(i) of them come
    from before position i; and R(i, o), the error found from position i on when
    o bytes have been written (0: none)"""

    def __init__(self, ex, n, get, limit, room):
        super().__init__(ex, n, get, limit)
        self.room = room
        self.XN, self.R = z3.Function(ex.nm("count"), II, II), z3.Function(ex.nm("error"), II, II, II)
        self.X, self.XO = z3.Function(ex.nm("element"), II, II), z3.Function(ex.nm("offset"), II, II)
        ex.assume(And(self.XN(Z) == 0, self.XO(Z) == 0))

    def step(self, i):
        """the definitions at position i, which the code point there starts"""
        ex = self.ex
        c, w, e = self.cp(i), self.W(i), self.XN(i)
        full(ex, c)
        go = And(i >= 0, i < self.n, w > 0)
        ex.assume_once(Implies(And(w > 0, c == 0), self.get(i) == 0))
        ex.assume_once(Implies(go, self.XN(i + w) == e + DM(c)))
        ex.add_lazy(lambda k: Implies(And(go, k >= e, k < e + DM(c)), self.X(k) == DE(c, k - e)), kind="el")
        ex.add_lazy(lambda k: Implies(And(go, k >= e, k <= e + DM(c)), self.XO(k) == self.XO(e) + DO(c, k - e)), kind="el")
        # the lemma about the elements of c
        f = elem_fact
        ex.add_lazy(lambda k: Implies(w > 0, f(c, k - e)), kind="el")
        ex.index_term(e, "el")
        ex.index_term(e + DM(c), "el")
        return c, w

    def err(self, i, o):
        ex = self.ex
        c, w = self.cp(i), self.W(i)
        full(ex, c)
        ex.assume_once(Implies(i == self.n, self.R(i, o) == Ite(o >= self.room, I_(EOVERFLOW), Z)))
        ex.assume_once(Implies(And(i >= 0, i < self.n),
                               self.R(i, o) == Ite(w == 0, I_(EILSEQ), Ite(o + DLEN(c) > self.room, I_(EOVERFLOW), self.R(i + w, o + DLEN(c))))))
        return self.R(i, o)


def errno_of(m, r):
    """errno is r, which is not 0"""
    if m.split(r == EILSEQ):
        errno_is(m, EILSEQ)
    else:
        m.pure(r == EOVERFLOW, "malformed text or no room")
        errno_is(m, EOVERFLOW)


def s_decompose(m, s, end, output, output_end):
    ex = m.ex
    if m.call:
        raise Limit("not called in these files")
    n, get, bounded = text_of(m, s, end)
    room = room_of(m, output, output_end)
    m.span(output, I8, room)
    for c in ex.chunks:
        if m.assuming and same(getattr(c, "base", None), output.base):
            c.val = ArrVal(room, I8, c.val.get, lambda j: False)
    t = Decomp(ex, stop_of(m, n, get, bounded), get, n if bounded else None, room)
    ex.ghost["decomp"] = s, t, output
    ex.ghost["opaque"] = True
    ret = yield
    r = t.err(Z, Z)
    if not m.split(ex.nonnull(m.val(ret))):
        m.ret_null(ret)
        m.pure(r != 0, "fails for a reason")
        errno_of(m, r)
        m.arr(output, I8, n=room, heap=False, defd=lambda j: False)
        return
    m.pure(r == 0, "no error in the text, and it fits")
    if "sorted" not in ex.ghost:
        raise Limit("the canonical ordering is not applied")
    q, o = ex.ghost["sorted"]
    i = m.ret_ptr(ret, output.base)
    N = t.XN(t.n)
    m.pure(And(i == t.XO(N), i >= 0, i < room), "the end of the decomposition")
    a = m.arr(output, I8, n=room, heap=False, defd=lambda j: And(j >= 0, j <= i))
    m.pure(a.get(iv(i)) == 0, "terminated")
    m.pure(q.N == N, "as many code points as the decompositions have")
    q.encoded(m, a.get, i)
    o.is_order(m, N, q.E, t.X, N)
    ordered(m, N, q.E)


def inv_decompose(m):
    ex = m.ex
    s, t, out = ex.ghost["decomp"]
    i, o = m.ptr("s", s.base), m.ptr("q", out.base)
    ex.index_term(i)
    e = t.XN(i)
    m.pure(And(i >= 0, i <= t.n, e >= 0), "within the text")
    m.pure(And(o == t.XO(e), o >= 0, o <= t.room), "what is written so far")
    r = t.err(i, o)
    m.pure(t.err(Z, Z) == r, "the error is that of the rest")
    a = m.arr(P(out.base), I8, n=t.room, heap=False, defd=lambda j: And(j >= 0, j < o))
    was = ex.ghost.get("decomp_at")
    q = Seq(e, t.X, t.XO)

    def terms(k):
        for x in (k, k + 1):
            ex.index_term(x, "el")
        if was:
            i0, o0, e0, c0 = was
            for b in range(4):
                ex.index_term(DO(c0, k - e0) + b)

    def cases(k):
        return [k < was[2], k >= was[2]]
    q.encoded(m, a.get, o, terms if not m.assuming else None, cases if was and not m.assuming else None)
    if m.assuming:
        c, w = t.step(i)
        ex.ghost["decomp_at"] = i, o, e, c
        ex.ghost["elems"] = q
    m.decreases(t.n - i)


# -------------------------------------------------------------- recomposition

R_INIT, R_STARTED, R_DELIVERING, R_LAST, R_DONE = range(5)
MARKS = 100
JOIN = z3.Function("JOIN", II, II, II)


def okcp(c):
    return And(scalar(c), c > 0)


def join_def(h, c):
    """the Hangul syllable that h and c make, or -1 (Unicode, section 3.12)"""
    l, v, s, t = h - LB, c - VB, h - SB, c - TB
    return Ite(And(l >= 0, l < 19, v >= 0, v < 21), SB + (l * 21 + v) * 28,
               Ite(And(s >= 0, s < 11172, s % 28 == 0, t > 0, t < 28), h + t, I_(-1)))


def join_fact(j):
    return And(j >= -1, Implies(j >= 0, okcp(j)))


def set_field(m, f, name, v):
    """the field has this value"""
    if f[name] is UNINIT:
        m.pure(False, "field %s is set" % name)
    m.pure(f[name] == v, "field " + name)


def rec_is(m, p, state, starter=None, wr=None, A=None, rd=None):
    """the recomposer is in this state; what is None may be unset"""
    ex = m.ex
    if m.assuming:
        un = lambda v: UNINIT if v is None else iv(v)
        if not callable(A):
            A = ex.arr_uf("unset", I32)
        ccs = ArrVal(MARKS, I32, A, lambda j: And(j >= 0, j < wr)) if wr is not None else UNINIT
        m.obj(p, "recomposer_t", heap=False, state=iv(state), starter=un(starter), wr=un(wr), rd=un(rd), ccs=ccs)
        return
    f = m.obj(p, "recomposer_t", heap=False).f
    set_field(m, f, "state", state)
    for name, v in (("starter", starter), ("wr", wr), ("rd", rd)):
        if v is not None:
            set_field(m, f, name, v)
    if wr is not None:
        c = f["ccs"]
        if c is UNINIT:
            m.pure(wr == 0, "the marks are set")
        else:
            m.forall(lambda j: Implies(And(j >= 0, j < wr), And(c.get(j) == A(j), True if c.defd is None else c.defd(j))), "the marks", kind="el")


def rec_in(m, p):
    """the recomposer before the call: (state, starter, wr, A, rd)"""
    ex = m.ex
    if m.assuming:
        st = [R_INIT, R_STARTED, R_DELIVERING, R_LAST, R_DONE][ex.choose(5)]
        x = (st, z3.Int(ex.nm("starter")), z3.Int(ex.nm("wr")), z3.Function(ex.nm("mark"), II, II), z3.Int(ex.nm("rd")))
        if st == R_INIT or st == R_DONE:
            rec_is(m, p, st)
        else:
            rec_is(m, p, st, x[1], x[2], x[3], None if st == R_STARTED else x[4])
    else:
        f = m.obj(p, "recomposer_t", heap=False).f
        s = f["state"]
        if s is UNINIT:
            m.pure(False, "the state is set")
        for st in (R_INIT, R_STARTED, R_DELIVERING, R_LAST):
            if m.split(s == st):
                break
        else:
            st = R_DONE
        x = (st, f["starter"], f["wr"], f["ccs"], f["rd"])
        if st not in (R_INIT, R_DONE):
            for k, v in zip(("starter", "wr", "rd"), (x[1], x[2], x[4])):
                if v is UNINIT and (k != "rd" or st != R_STARTED):
                    m.pure(False, "field %s is set" % k)
            c = x[3]
            if c is UNINIT:
                m.pure(x[2] == 0, "the marks are set")
                c = ArrVal(MARKS, I32, ex.arr_uf("unset", I32))
            elif c.defd is not None:
                m.forall(lambda j: Implies(And(j >= 0, j < x[2]), c.defd(j)), "the marks are set", kind="el")
            x = (st, iv(x[1]), iv(x[2]), c.get, x[4])
    if st not in (R_INIT, R_DONE):
        m.pure(And(x[2] >= 0, x[2] <= MARKS, okcp(x[1])), "a starter and at most %d marks" % MARKS)
        m.forall(lambda j: Implies(And(j >= 0, j < x[2]), okcp(x[3](j))), "marks are code points", kind="el")
    if st in (R_DELIVERING, R_LAST):
        m.pure(And(x[4] >= 0, x[4] <= x[2]), "reading position")
    return x


def errno_takes(m, val):
    errno_is(m, val)


def s_blocked(m, seq, count, ccc):
    """is there a mark of this class or a higher one among the count first"""
    ex = m.ex
    count, ccc = iv(count), iv(ccc)
    m.pure(And(count >= 0, count <= MARKS), "a count of marks")
    a = m.borrow(seq, I32, count)
    m.forall(lambda j: Implies(And(j >= 0, j < count), okcp(a.get(j))), "code points", kind="el")
    if a.defd is not None and not m.assuming:
        m.forall(lambda j: Implies(And(j >= 0, j < count), a.defd(j)), "set", kind="el")
    if m.assuming:
        ex.ghost["blocked"] = seq, count, ccc, a
    ret = yield
    if m.split(ex.truth(m.val(ret), BOOL)):
        if m.assuming:
            j = m.fresh("blocking")
            ex.ghost["blocking"] = j
            ex.index_term(j, "el")
        else:
            j = ex.ghost["blocking"]
        m.pure(And(j >= 0, j < count, CCC(a.get(j)) >= ccc), "one of them is of that class or a higher one")
    else:
        m.forall(lambda j: Implies(And(j >= 0, j < count), CCC(a.get(j)) < ccc), "all are of lower classes", kind="el")


def inv_blocked(m):
    ex = m.ex
    seq, count, ccc, a = ex.ghost["blocked"]
    j = iv(m.var("j"))
    ex.index_term(j, "el")
    m.pure(And(j >= 0, j <= count), "within the marks")
    m.forall(lambda i: Implies(And(i >= 0, i < j), CCC(a.get(i)) < ccc), "lower classes so far", kind="el")
    if m.assuming:
        ex.ghost["blocking"] = j
    m.decreases(count - j)


def s_feed(m, r, c):
    """one more code point"""
    ex = m.ex
    c = iv(c)
    m.pure(okcp(c), "a code point")
    st, starter, wr, A, rd = rec_in(m, r)
    if st not in (R_INIT, R_STARTED):
        m.pure(False, "the recomposer takes input") if not m.assuming else None
        raise Infeasible()
    if m.assuming:
        ex.ghost.pop("blocking", None)
    if st == R_STARTED:
        for x in (wr, wr - 1):
            ex.index_term(x, "el")
    ret = yield
    ex.assume_once(And(CCC(c) >= 0, CCC(c) <= 254))
    mark = m.split(CCC(c) != 0)
    ex.ghost["fed"] = {"mark": mark}
    if st == R_INIT:
        if mark:
            m.ret_is(ret, c)
            rec_is(m, r, R_INIT)
            return
        m.ret_is(ret, I_(-1))
        errno_is(m, EAGAIN)
        rec_is(m, r, R_STARTED, c, Z, A)
        return
    if m.call:
        blocked = m.split(z3.Bool(ex.nm("blocked")))
        if blocked:
            j = m.fresh("blocking")
            ex.index_term(j, "el")
            ex.assume(And(j >= 0, j < wr, CCC(A(j)) >= CCC(c)))
            ex.ghost["fed"]["blocking"] = j
        else:
            ex.add_lazy(lambda j: Implies(And(j >= 0, j < wr), CCC(A(j)) < CCC(c)), kind="el")
    else:
        # the answer of the specification, not of the code: the definition
        B, sk = z3.Bool(ex.nm("is_blocked")), z3.Int(ex.nm("blocker"))
        hit = lambda j: And(j >= 0, j < wr, CCC(A(j)) >= CCC(c))
        ex.assume(Implies(B, hit(sk)))
        ex.index_term(sk, "el")
        ex.add_lazy(lambda j: Implies(hit(j), B), kind="el")
        if "blocking" in ex.ghost:
            ex.index_term(ex.ghost["blocking"], "el")
        blocked = m.split(B)
    ex.ghost["fed"]["blocked"] = blocked
    if not blocked:
        p = PC(starter, c)
        ex.assume_once(And(p >= -1, Implies(p >= 0, okcp(p))))
        joins = m.split(p >= 0)
        ex.ghost["fed"]["joins"] = joins
        if joins:
            m.ret_is(ret, I_(-1))
            errno_is(m, EAGAIN)
            rec_is(m, r, R_STARTED, p, wr, A)
            return
    if mark:
        m.ret_is(ret, I_(-1))
        if m.split(wr >= MARKS):
            errno_is(m, ENOBUFS)
            rec_is(m, r, R_STARTED, starter, wr, A)
            return
        errno_is(m, EAGAIN)
        rec_is(m, r, R_STARTED, starter, wr + 1, lambda j: Ite(j == wr, c, A(j)))
        return
    m.ret_is(ret, starter)
    rec_is(m, r, R_DELIVERING, c, wr, A, Z)


def s_terminate(m, r):
    """no more code points"""
    ex = m.ex
    st, starter, wr, A, rd = rec_in(m, r)
    if st not in (R_INIT, R_STARTED):
        m.pure(False, "the recomposer takes input") if not m.assuming else None
        raise Infeasible()
    ret = yield
    if st == R_INIT:
        m.ret_is(ret, I_(-1))
        errno_is(m, ENODATA)
        rec_is(m, r, R_DONE)
    else:
        m.ret_is(ret, starter)
        rec_is(m, r, R_LAST, starter, wr, A, Z)


def s_read(m, r):
    """the next code point of a delivery"""
    ex = m.ex
    st, starter, wr, A, rd = rec_in(m, r)
    if st in (R_DELIVERING, R_LAST):
        ex.index_term(iv(rd), "el")
    ret = yield
    if st in (R_DELIVERING, R_LAST):
        rd = iv(rd)
        if m.split(rd < wr):
            m.ret_is(ret, A(rd))
            rec_is(m, r, st, starter, wr, A, rd + 1)
            return
        m.ret_is(ret, I_(-1))
        if st == R_DELIVERING:
            errno_is(m, EAGAIN)
            rec_is(m, r, R_STARTED, starter, Z, A)
        else:
            errno_is(m, ENODATA)
            rec_is(m, r, R_DONE)
        return
    m.ret_is(ret, I_(-1))
    errno_is(m, ENODATA if st == R_DONE else EAGAIN)
    if st == R_STARTED:
        rec_is(m, r, st, starter, wr, A)
    else:
        rec_is(m, r, st)


H_INIT, H_STARTED, H_DONE = range(3)


def han_is(m, p, state, nxt=None):
    if m.assuming:
        m.obj(p, "hangul_recomposer_t", heap=False, state=iv(state), next=UNINIT if nxt is None else nxt)
        return
    f = m.obj(p, "hangul_recomposer_t", heap=False).f
    set_field(m, f, "state", state)
    if nxt is not None:
        set_field(m, f, "next", nxt)


def han_in(m, p):
    ex = m.ex
    if m.assuming:
        st = [H_INIT, H_STARTED][ex.choose(2)]
        h = z3.Int(ex.nm("next"))
        han_is(m, p, st, None if st == H_INIT else h)
    else:
        f = m.obj(p, "hangul_recomposer_t", heap=False).f
        if f["state"] is UNINIT:
            m.pure(False, "the state is set")
        h = f["next"]
        if m.split(f["state"] == H_INIT):
            st = H_INIT
        else:
            m.pure(f["state"] == H_STARTED, "the recomposer takes input")
            st = H_STARTED
            if h is UNINIT:
                m.pure(False, "field next is set")
            h = iv(h)
    if st == H_STARTED:
        m.pure(okcp(h), "a code point is held back")
    return st, h


def s_hfeed(m, r, c):
    ex = m.ex
    c = iv(c)
    m.pure(okcp(c), "a code point")
    st, h = han_in(m, r)
    ret = yield
    if st == H_INIT:
        m.ret_is(ret, I_(-1))
        han_is(m, r, H_STARTED, c)
        return
    j = JOIN(h, c)
    if m.call:
        ex.assume_once(join_fact(j))        # lemma
    else:
        ex.assume_once(j == join_def(h, c))
    if m.split(j >= 0):
        m.ret_is(ret, I_(-1))
        han_is(m, r, H_STARTED, j)
    else:
        m.ret_is(ret, h)
        han_is(m, r, H_STARTED, c)


def s_hterminate(m, r):
    st, h = han_in(m, r)
    ret = yield
    m.ret_is(ret, I_(-1) if st == H_INIT else h)
    han_is(m, r, H_DONE)


class Recomp(NText):
    """Recomposition as the standard defines it (D115-D117, section 3.12). Of the
    text before position i: the starter that may still take part in a composite
    is S(i) (-1: none), the K(i) marks kept after it are A(i, k), and XN(i) code
    points are settled, X(k). Hangul composition runs over X: H(x) is the last
    of what the first x of them make, and before it come YN(x) others, Y(y), the
    y-th encoded at YO(y). R(i) is the error found from position i on (0: none)."""

    def __init__(self, ex, n, get, limit, room):
        super().__init__(ex, n, get, limit)
        self.room = room
        f1 = lambda k: z3.Function(ex.nm(k), II, II)
        self.S, self.K, self.XN, self.X, self.R, self.SK = [f1(k) for k in ("starter", "marks", "settled", "element", "error", "blocker")]
        self.BL = z3.Function(ex.nm("blocked"), II, z3.BoolSort())
        self.A = z3.Function(ex.nm("mark"), II, II, II)
        self.H, self.YN, self.Y, self.YO = [f1(k) for k in ("held", "composed", "output", "offset")]
        ex.assume(And(self.S(Z) == -1, self.K(Z) == 0, self.XN(Z) == 0, self.YN(Z) == 0, self.YO(Z) == 0))
        ex.add_lazy(lambda y: Implies(y >= 0, self.YO(y + 1) == self.YO(y) + UL(self.Y(y))), kind="el")

    def marks(self, i):
        return lambda j: self.A(i, j)

    def step(self, i):
        """the definitions at position i"""
        ex = self.ex
        c, w, e, s, k = self.cp(i), self.W(i), self.XN(i), self.S(i), self.K(i)
        oul(ex, c)
        go, to = And(i >= 0, i < self.n, w > 0), i + w
        ex.assume_once(Implies(And(w > 0, c == 0), self.get(i) == 0))
        bl, sk = self.BL(i), self.SK(i)
        hit = lambda j: And(j >= 0, j < k, CCC(self.A(i, j)) >= CCC(c))
        ex.assume_once(Implies(bl, hit(sk)))
        ex.add_lazy(lambda j: Implies(hit(j), bl), kind="el")
        for x in (sk, k, e, e + k, e + k + 1):
            ex.index_term(x, "el")
        p = PC(s, c)
        ex.assume_once(Implies(And(okcp(s), okcp(c)), And(p >= -1, Implies(p >= 0, okcp(p)))))
        first = And(go, s < 0)
        joins = And(go, s >= 0, Not(bl), p >= 0)
        rest = And(go, s >= 0, Not(And(Not(bl), p >= 0)))
        mark = CCC(c) != 0
        keep, over, out = And(rest, mark, k < MARKS), And(rest, mark, k >= MARKS), And(rest, Not(mark))
        S, K, XN, X, A = self.S, self.K, self.XN, self.X, self.A
        ex.assume_once(And(Implies(And(first, mark), And(S(to) == -1, K(to) == 0, XN(to) == e + 1, X(e) == c)),
                           Implies(And(first, Not(mark)), And(S(to) == c, K(to) == 0, XN(to) == e)),
                           Implies(joins, And(S(to) == p, K(to) == k, XN(to) == e)),
                           Implies(keep, And(S(to) == s, K(to) == k + 1, XN(to) == e, A(to, k) == c)),
                           Implies(out, And(S(to) == c, K(to) == 0, XN(to) == e + 1 + k, X(e) == s))))
        ex.add_lazy(lambda j: Implies(And(Or(joins, keep), j >= 0, j < k), A(to, j) == A(i, j)), kind="el")
        ex.add_lazy(lambda j: Implies(And(out, j >= 0, j < k), X(e + 1 + j) == A(i, j)), kind="el")
        R = self.R
        ex.assume_once(Implies(And(i >= 0, i < self.n), R(i) == Ite(w == 0, I_(EILSEQ), Ite(over, I_(ENOBUFS), R(to)))))
        return c, w, over

    def last(self):
        """how many are settled once the text has ended"""
        ex, n = self.ex, self.n
        e, s, k = self.XN(n), self.S(n), self.K(n)
        ex.assume_once(Implies(s >= 0, self.X(e) == s))
        ex.add_lazy(lambda j: Implies(And(s >= 0, j >= 0, j < k), self.X(e + 1 + j) == self.A(n, j)), kind="el")
        ex.assume_once(self.R(n) == 0)
        return e + Ite(s >= 0, 1 + k, Z)

    def join(self, x):
        """Hangul composition at element x"""
        ex, c, h = self.ex, self.X(x), self.H(x)
        j, y = JOIN(h, c), self.YN(x)
        H, YN = self.H, self.YN
        ex.assume_once(And(Implies(x == 0, And(H(x + 1) == c, YN(x + 1) == 0)),
                           Implies(And(x > 0, j >= 0), And(H(x + 1) == j, YN(x + 1) == y)),
                           Implies(And(x > 0, j < 0), And(H(x + 1) == c, YN(x + 1) == y + 1, self.Y(y) == h))))
        for z in (y, y + 1):
            ex.index_term(z, "el")
        oul(ex, h)

    def whole(self):
        """the result"""
        x = self.last()
        y = self.YN(x)
        self.ex.index_term(y, "el")
        self.ex.index_term(y + 1, "el")
        h = self.H(x)
        oul(self.ex, h)
        q = Seq(Ite(x == 0, Z, y + 1), lambda k: Ite(k == y, h, self.Y(k)), lambda k: Ite(k == y + 1, self.YO(y) + UL(h), self.YO(k)))
        return q


def s_recompose(m, s, end, output, output_end):
    ex = m.ex
    if m.call:
        raise Limit("not called in these files")
    n, get, bounded = text_of(m, s, end)
    room = room_of(m, output, output_end)
    m.span(output, I8, room)
    for c in ex.chunks:
        if m.assuming and same(getattr(c, "base", None), output.base):
            c.val = ArrVal(room, I8, c.val.get, lambda j: False)
    t = Recomp(ex, stop_of(m, n, get, bounded), get, n if bounded else None, room)
    ex.ghost["recomp"] = s, t, output
    ex.ghost["opaque"] = True
    ret = yield
    r = t.R(Z)
    b = ex.ghost["errno_base"]
    if not m.split(ex.nonnull(m.val(ret))):
        m.ret_null(ret)
        m.arr(output, I8, n=room, heap=False, defd=lambda j: False)
        e = ex.find(b, "errno").val
        if m.split(e == EILSEQ):
            m.pure(r == EILSEQ, "the text is malformed")
        elif m.split(e == ENOBUFS):
            m.pure(r == ENOBUFS, "more than %d marks would have to be kept" % MARKS)
        else:
            m.pure(e == EOVERFLOW, "fails for a reason")
            y, q = ex.ghost["recomp_y"], t.whole()
            m.pure(Or(And(y >= 0, t.YO(y) + UL(t.Y(y)) > room), And(r == 0, q.O(q.N) >= room)), "what is settled, or the result, does not fit")
        return
    m.pure(r == 0, "no error in the text")
    q = t.whole()
    i = m.ret_ptr(ret, output.base)
    m.pure(And(i == q.O(q.N), i >= 0, i < room), "the end of the result")
    a = m.arr(output, I8, n=room, heap=False, defd=lambda j: And(j >= 0, j <= i))
    m.pure(a.get(iv(i)) == 0, "terminated")
    y = t.YN(t.last())
    q.encoded(m, a.get, i, None, lambda k: [k < y, k >= y])


def errno_taken(m):
    """the loop changes errno; its value"""
    ex = m.ex
    b = libc.b_errno(ex, [], None).base
    if m.assuming:
        v = ex.freshint("errno")
        ex.add_chunk(Mem(b, I32, v, heap=False))
        return v
    c = ex.find(b, "errno")
    ex.chunks.remove(c)
    return c.val


def rc_local(m, name):
    return P(m.find_var(name).mem)


def rc_output(m, t, out, x):
    """what Hangul composition has made of the first x elements"""
    ex = m.ex
    held = m.split(x > 0)
    if held:
        m.pure(okcp(t.H(x)), "a code point is held back")
        han_is(m, rc_local(m, "hangul_recomposer"), H_STARTED, t.H(x))
    else:
        m.pure(x == 0, "nothing is settled yet")
        han_is(m, rc_local(m, "hangul_recomposer"), H_INIT)
    o = m.ptr("q", out.base)
    y = t.YN(x)
    m.pure(And(y >= 0, o == t.YO(y), o >= 0, o <= t.room), "what is written so far")
    a = m.arr(P(out.base), I8, n=t.room, heap=False, defd=lambda j: And(j >= 0, j < o))
    was = ex.ghost.get("recomp_y")
    Seq(y, t.Y, t.YO).encoded(m, a.get, o, None, None if was is None else lambda k: [k < was, k >= was])
    if m.assuming:
        ex.ghost["recomp_y"] = y


def rc_kept(m, t, i):
    """the recomposer is as the text before i leaves it"""
    s, k = t.S(i), t.K(i)
    p = rc_local(m, "recomposer")
    if m.split(s >= 0):
        m.ex.index_term(k, "el")
        m.pure(And(okcp(s), k >= 0, k <= MARKS), "a starter, and its marks")
        rec_is(m, p, R_STARTED, s, k, t.marks(i))
        m.forall(lambda j: Implies(And(j >= 0, j < k), okcp(t.A(i, j))), "marks are code points", kind="el")
    else:
        m.pure(And(s == -1, k == 0), "no starter yet")
        rec_is(m, p, R_INIT)


def inv_recompose(m):
    ex = m.ex
    s, t, out = ex.ghost["recomp"]
    if m.assuming:
        ex.ghost.pop("fed", None)
    i = m.ptr("s", s.base)
    ex.index_term(i)
    errno_taken(m)
    m.pure(And(i >= 0, i <= t.n, t.XN(i) >= 0), "within the text")
    m.pure(t.R(Z) == t.R(i), "the error is that of the rest")
    rc_kept(m, t, i)
    rc_output(m, t, out, t.XN(i))
    if m.assuming:
        c, w, over = t.step(i)
        ex.ghost["recomp_at"] = i, c, w, over
    m.decreases(t.n - i)


def rc_delivering(m, t, i, e, total, state, after):
    """the elements e, e+1, ... up to total are being delivered"""
    ex = m.ex
    out = ex.ghost["recomp"][2]
    p = rc_local(m, "recomposer")
    cp = iv(m.var("codepoint"))
    err = errno_taken(m)
    if not m.split(cp >= 0):
        m.pure(cp == -1, "none")
        x = total
        after(err, p)
        rc_output(m, t, out, x)
        m.decreases(Z)
        return
    if m.assuming:
        d = z3.Int(ex.nm("delivered"))
    else:
        d = ex.ghost["delivered"] + 1 if "delivered" in ex.ghost else Z
    x = e + d
    ex.index_term(d, "el")
    ex.index_term(d - 1, "el")
    m.pure(And(d >= 0, x < total, cp == t.X(x), okcp(cp)), "the next of the elements")
    started = m.split(t.S(i) >= 0)
    if started:
        k = t.K(i)
        st, starter = state
        m.pure(And(d <= k, okcp(starter)), "the starter and its marks")
        rec_is(m, p, st, starter, k, t.marks(i), d)
    else:
        m.pure(d == 0, "a mark that follows no starter")
        rec_is(m, p, R_INIT)
    rc_output(m, t, out, x)
    if m.assuming:
        ex.ghost["delivered"] = d
        t.join(x)
    m.decreases(total - x)


def inv_deliver(m):
    ex = m.ex
    s, t, out = ex.ghost["recomp"]
    i, c, w, over = ex.ghost["recomp_at"]
    if not m.assuming and m.label.endswith("entry"):
        ex.ghost.pop("delivered", None)

    def after(err, p):
        if m.split(err == EAGAIN):
            m.pure(And(Not(over), i + w <= t.n), "goes on")
            rc_kept(m, t, i + w)
        else:
            m.pure(And(err == ENOBUFS, over), "too many marks")
            rec_is(m, p, R_STARTED, t.S(i), t.K(i), t.marks(i))
    e = t.XN(i)
    m.pure(Implies(over, t.S(i) >= 0), "marks follow a starter")
    rc_delivering(m, t, i, e, Ite(over, e, t.XN(i + w)), (R_DELIVERING, c), after)


def inv_last(m):
    ex = m.ex
    s, t, out = ex.ghost["recomp"]
    n = t.n
    if not m.assuming and m.label.endswith("entry"):
        ex.ghost.pop("delivered", None)

    def after(err, p):
        m.pure(err == ENODATA, "done")
        rec_is(m, p, R_DONE)
    total = t.last()
    rc_delivering(m, t, n, t.XN(n), total, (R_LAST, t.S(n)), after)
    if m.assuming:
        t.whole()


def join_lemma():
    h, c = z3.Ints("h c")
    return [("Hangul syllables made are code points", Implies(And(okcp(h), okcp(c)), join_fact(join_def(h, c))))]


C = Contract
TABLES = [C("charstr_unicode_canonical_combining_class", s_ccc), C("charstr_allowed_unicode_normal_forms", s_nf),
          C("_charstr_unicode_decomposition", s_dec), C("_charstr_unicode_primary_composite", s_pc),
          C("charstr_decode_utf8_codepoint", s_decode), C("charstr_encode_utf8_codepoint", s_encode)]
DETECT = [C("charstr_detect_unicode_normal_form", s_detect, {0: LoopSpec(inv_detect, {"s": "ptr", "result": "int:32:True", "last_canonical_class": "int:32:True"})}),
          C("charstr_unicode_canonically_composed", s_is(0)), C("charstr_unicode_canonically_decomposed", s_is(1))]
DECOMP = [C("decompose_hangul", s_hangul),
          C("decompose_fully", s_decompose1, {0: LoopSpec(inv_full, {"s": "ptr", "dp": "ptr"})})]
DECOMP += [C("sort_combining_characters", s_sort, {0: LoopSpec(inv_sort, {"s": "ptr", "begin": "ptr", "last_ccc": "int:32:True"}),
                                                    1: LoopSpec(inv_insert, {"t": "ptr", "ccc": "int:32:True"})})]
DECOMP += [C("charstr_unicode_decompose", s_decompose, {0: LoopSpec(inv_decompose, {"s": "ptr", "q": "ptr"})})]
RECOMP = [C("recomposer_blocked", s_blocked, {0: LoopSpec(inv_blocked, {"j": "int"})}),
          C("recomposer_feed", s_feed), C("recomposer_terminate", s_terminate), C("recomposer_read", s_read),
          C("hangul_recomposer_feed", s_hfeed), C("hangul_recomposer_terminate", s_hterminate),
          C("charstr_unicode_recompose", s_recompose, {0: LoopSpec(inv_recompose, {"s": "ptr", "q": "ptr"}),
                                                       1: LoopSpec(inv_deliver, {"q": "ptr", "codepoint": "int:32:True"}),
                                                       2: LoopSpec(inv_last, {"q": "ptr", "codepoint": "int:32:True"})})]
CONTRACTS = {c.name: c for c in TABLES + DETECT + DECOMP + RECOMP}
FUNCS = [c.name for c in DETECT + DECOMP + RECOMP]


def verifier():
    return Verifier([Unit(src("charstr_unicode.c")), Unit(src("charstr_decompose.c")), Unit(src("charstr_recompose.c"))], CONTRACTS, {},
                    builtins=libc.BUILTINS, may_uninit=("starter", "ccs", "wr", "rd", "next"))

