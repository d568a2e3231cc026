"""Contracts of base64.c against RFC 4648."""
from slv import *
import libc

Z = z3.IntVal(0)
U64MAX = (1 << 64) - 1


def iv(x):
    return x if isz(x) else z3.IntVal(x)


CH = z3.Function("base64_character", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def ch(v, p62, p63, ex=None):
    """the character for a six-bit value"""
    r = CH(v, p62, p63)
    if ex is not None:
        ex.assume_once(r == Ite(v < 26, v + 65, Ite(v < 52, v + 71, Ite(v < 62, v - 4, Ite(v == 62, p62, p63)))))
    return r


def dflt(p, d):
    return z3.simplify(Ite(iv(p) == -1, z3.IntVal(ord(d)), iv(p)))


def enc_at(ex, key, src, n, g, r, p62, p63):
    """character j of the encoding of src[0..n), n = 3g + r: W(j) is the j-th
    six-bit digit of the input read as a big-endian number, three bytes to four
    digits (RFC 4648 section 4), a short last group being filled up with zero
    bits"""
    # one digit sequence per source: the sources are borrowed, they cannot change
    W = ex.ghost.setdefault("W" + str(key), z3.Function(ex.nm("digit"), z3.IntSort(), z3.IntSort()))
    used = 4 * g + [0, 2, 3][r]
    inlined = not have("base64_char")
    groups = {}

    def e(j):
        return Ite(j >= used, z3.IntVal(61), ch(W(j), p62, p63, ex if inlined else None))

    def digits(c, s0, s1, s2):
        return value([W(c + i) for i in range(4)], [s0, s1, s2])

    def value(w, b):
        return And(b[0] * 65536 + b[1] * 256 + b[2] == w[0] * 262144 + w[1] * 4096 + w[2] * 64 + w[3],
                   *[And(x >= 0, x < 64) for x in w])

    def group(k):
        """defines the four digits of group k < g"""
        for t in range(3):
            src(3 * k + t)
        groups[str(k)] = (And(k >= 0, k < g), k, [src(3 * k + t) for t in range(3)])
        ex.assume_once(Implies(And(k >= 0, k < g), digits(4 * k, src(3 * k), src(3 * k + 1), src(3 * k + 2))))

    def last():
        if r:
            b = [src(3 * g + t) if t < r else Z for t in range(3)]
            groups["last"] = (True, g, b)
            ex.assume_once(digits(4 * g, *b))

    def hint(v):
        """v % 64 is one of the digits looked at so far: shown apart from
        everything else"""
        vs = names(v)
        pcs = [f for f in ex.pc if plain(f) and any(x.startswith("cast!") and x in vs for x in names(f))
               and not any(x.startswith("cast!") and x not in vs for x in names(f))]
        reads = []
        for f in [v] + pcs:
            reads += [x for x in apps(f, "in!") if not any(x.eq(y) for y in reads)]
        b = z3.Ints("b0 b1 b2")
        w = z3.Ints("w0 w1 w2 w3")
        for cond, k, bytes_ in groups.values():
            sub = []
            for x in reads:
                for t in range(3):
                    if isz(bytes_[t]) and not z3.is_int_value(bytes_[t]) and ex.entails(x.arg(0) == 3 * k + t, quick=True):
                        sub.append((x, b[t]))
            if not reads or len(sub) < len(reads):
                continue
            for c in range(4):
                s = z3.Solver()
                s.set("timeout", 5000)
                for t in range(3):
                    if z3.is_int_value(bytes_[t]):
                        s.add(b[t] == bytes_[t])
                    s.add(b[t] >= 0, b[t] <= 255)
                s.add(value(w, b))
                for f in pcs:
                    s.add(z3.substitute(f, *sub))
                s.add(z3.substitute(v, *sub) % 64 != w[c])
                if s.check() == z3.unsat:
                    ex.assume_once(Implies(cond, v % 64 == W(4 * k + c)))
                    return
    e.group, e.last, e.hint = group, last, hint
    return e


_light = {}


def light(f):
    """no division and no definition of a character or of digits"""
    k = f.get_id()
    if k in _light and _light[k][0].eq(f):
        return _light[k][1]
    ok = True
    todo = [f]
    chars = digits = 0
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            kind = x.decl().kind()
            if z3.is_int_value(x) and x.as_long() == 65536:
                ok = False
            todo += x.children()
    if ok and z3.is_eq(f) and z3.is_app(f.arg(0)) and str(f.arg(0).decl()) == "base64_character" and f.arg(1).decl().kind() == z3.Z3_OP_ITE:
        ok = False
    _light[k] = (f, ok)
    return ok


def apps(f, prefix):
    out = []
    todo = [f]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.num_args() and str(x.decl()).startswith(prefix):
                out.append(x)
            todo += x.children()
    return out


def names(f):
    out = set()
    todo = [f]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(str(x.decl()))
            todo += x.children()
    return out


def plain(f, seen=None):
    """a fact without case distinctions or digits"""
    todo = [f]
    k = 0
    while todo:
        x = todo.pop()
        k += 1
        if k > 60:
            return False
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES, z3.Z3_OP_OR) or str(x.decl()).startswith(("digit", "base64_character")):
                return False
            todo += x.children()
    return True


def enc_len(n):
    return (iv(n) + 2) / 3 * 4


def s_size(m, n):
    ret = yield
    ln = enc_len(n)
    m.pure(m.val(ret) == Ite(ln > U64MAX, z3.IntVal(U64MAX), ln), "length of the encoding, or -1 exactly when it does not fit")


def each(m, pts, fn, what):
    """for all j, showing some points one by one"""
    if not m.assuming:
        pts = [z3.simplify(p) for p in pts]
        for p in pts:
            m.ex.index_term(p)
            m.pure(fn(p), what)
        m.forall(lambda j: Implies(And(*[j != p for p in pts]), fn(j)), what)
        return
    m.forall(fn, what)


def divide(m, n):
    """n = 3g + r with r known"""
    if ("div", str(n)) in m.ex.ghost:
        return m.ex.ghost["div", str(n)]
    g = m.fresh("g")
    m.ex.assume(And(g >= 0, n >= 3 * g, n <= 3 * g + 2))    # g exists and is unique
    for r in (0, 1):
        if m.split(n == 3 * g + r):
            break
    else:
        r = 2
        m.ex.assume(n == 3 * g + 2)
    m.ex.ghost["div", str(n)] = g, r
    return g, r


def s_char(m, v, p62, p63):
    if m.assuming is False and "b64" in m.ex.ghost:
        m.ex.ghost["b64"][0].hint(iv(v))
    ret = yield
    m.pure(m.val(ret) == ch(iv(v) % 64, iv(p62), iv(p63), m.ex), "the character of the low six bits")


def s_encode(m, source, n, dest, dn, p62, p63):
    ex = m.ex
    n, dn = iv(n), iv(dn)
    if m.split(n == 0):
        src = lambda i: Z
    else:
        if m.assuming:
            ex.assume(n <= (1 << 62))
        src = m.borrow(source, U8, n).get
    q62, q63 = dflt(p62, "+"), dflt(p63, "/")
    g, r = divide(m, n)
    e = enc_at(ex, source.base, src, n, g, r, q62, q63)
    ln = 4 * g + (4 if r else 0)
    have = m.split(dn > 0)
    old = None
    if have:
        if m.assuming:
            ex.assume(dn <= (1 << 62))
        sp = m.span(dest, I8, dn)
        oget = sp.get
    e.last()
    if m.assuming:
        ex.ghost["b64"] = (e, src, n, dn, have, g, r)
    ret = yield
    m.pure(m.val(ret) == ln, "the full length is reported")
    if not have:
        return
    short = m.split(ln < dn)
    k = ln if short else dn - 1
    new = sp.back(defd=lambda i: i <= k)
    ex.index_term(k)
    each(m, [4 * g - 4 + c for c in range(8 if r else 4)], lambda j: Implies(And(j >= 0, j < k), new.get(j) == e(j)), "the destination holds the encoding")
    m.pure(new.get(k) == 0, "the stored text is terminated by NUL")
    if m.assuming:
        return
    m.forall(lambda j: Implies(And(j > k, j < dn), new.get(j) == oget(j)), "nothing is stored beyond the NUL")


def inv_encode(m):
    """k groups are done"""
    ex = m.ex
    e, src, n, dn, have, g, r = ex.ghost["b64"]
    i = m.var("i")
    q = m.var("q")
    k = m.fresh("k") if m.assuming else m.gh["k"] + 1 if "k" in m.gh else Z
    left = m.var("dest_body_counter")
    d = m.var("dest")
    if not m.assuming:
        ex.index_term(iv(i))
    if m.assuming:
        # q moves within the source block (or stays where it was)
        base = m.gh["src"]
        m.setvar("q", P(base, (3 * k,)))
        m.setvar("i", 4 * k)
        ex.index_term(4 * k)
        m.gh["k"] = k
        e.group(k)
    else:
        m.gh.setdefault("src", q.base)
        m.pure(iv(i) == 4 * k, "a whole number of groups is written")
        m.pure(q.base == m.gh["src"] if isz(q.base) or isz(m.gh["src"]) else q.base == m.gh["src"], "the reader stays in the source")
        m.pure(iv(q.idx) == 3 * k, "three bytes are read per group")
    c0 = m.once("c0", lambda: iv(left))
    m.pure(And(k >= 0, k <= g, 4 * k <= dn), "position within bounds")
    m.pure(Implies(k < g, And(left == c0 - k, k <= c0)), "groups left")
    m.pure(c0 == dn / 4, "room counter")
    if have:
        a = m.arr(d, I8, n=dn, heap=False)
        oget = m.once("old", lambda: a.get)
        pts = []
        if not m.assuming and "k" in m.gh:
            pts = [4 * m.gh["k"] + c for c in range(4)]
        each(m, pts, lambda j: Implies(And(j >= 0, j < 4 * k), a.get(j) == e(j)), "encoded so far")
        m.forall(lambda j: Implies(And(j >= 4 * k, j < dn), a.get(j) == oget(j)), "rest untouched")
    m.decreases(n - 3 * k)


def s_encode_simple(m, buf, n):
    ex = m.ex
    n = iv(n)
    if m.split(n == 0):
        src = lambda i: Z
    else:
        if m.assuming:
            ex.assume(n <= (1 << 62))
        src = m.borrow(buf, U8, n).get
    g, r = divide(m, n)
    e = enc_at(ex, buf.base, src, n, g, r, z3.IntVal(43), z3.IntVal(47))
    ln = 4 * g + (4 if r else 0)
    if m.assuming:
        ex.ghost["b64"] = (e, None)
    ret = yield
    if m.split(ln > U64MAX):
        m.ret_null(ret)
        return
    a = m.arr(m.val(ret), I8, n=ln + 1)
    ex.index_term(ln)
    m.forall(lambda j: Implies(And(j >= 0, j < ln), a.get(j) == e(j)), "the result is the encoding")
    m.pure(a.get(ln) == 0, "NUL-terminated")


# ---------------------------------------------------------------- decoding

V = z3.Function("base64_value", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort(), z3.IntSort())
WSP = (9, 10, 12, 13, 32)


def wsp(c):
    return Or(*[c == w for w in WSP])


def truth(b):
    if not isz(b):
        return z3.BoolVal(bool(b))
    return b if z3.is_bool(b) else b != 0


def value(c, p62, p63, ign, ex=None):
    """0..63 for a character of the alphabet, -2 for whitespace to be
    ignored, -1 for anything else"""
    c, p62, p63 = iv(c), iv(p62), iv(p63)
    ign = truth(ign)
    r = V(c, p62, p63, ign)
    if ex is not None:
        ex.assume_once(r == Ite(c == p62, z3.IntVal(62), Ite(c == p63, z3.IntVal(63),
                       Ite(And(c >= 65, c <= 90), c - 65, Ite(And(c >= 97, c <= 122), c - 71,
                       Ite(And(c >= 48, c <= 57), c + 4, Ite(And(ign, wsp(c)), z3.IntVal(-2), z3.IntVal(-1))))))))
    ex2 = ex or value.ex
    ex2.assume_once(And(r >= -2, r <= 63))
    return r


def s_get_bits(m, c, p62, p63, ign):
    ret = yield
    value.ex = m.ex
    v = value(c, p62, p63, ign, m.ex)
    r = m.val(ret)
    m.pure(And(Implies(v != -1, r == v), Implies(v == -1, And(r < 0, r != -2))), "the six-bit value of the character")


class Scan:
    """what decoding a source means: defined for every source, uniquely"""

    def __init__(self, m, get, E, p62, p63, ign):
        ex = self.ex = m.ex
        self.get, self.E, self.ign = get, E, ign
        value.ex = ex
        inl = not have("get_bits")
        I = z3.IntSort()
        self.K, self.S, self.B = (z3.Function(ex.nm(x), I, I) for x in ("sextets_before", "sextet", "byte_start"))
        self.V = lambda i: value(get(i), p62, p63, ign, ex if inl else None)
        # e: the scan ends at the first '=' or at the end of the text
        e = self.e = m.fresh("scan_end")
        ex.assume(And(e >= 0, e <= E, Implies(e < E, get(e) == 61)))
        ex.add_lazy(lambda i: Implies(And(i >= 0, i < e), get(i) != 61))
        # every character before e is of the alphabet, or one is not
        self.legal = z3.Bool(ex.nm("all_legal"))
        bad = m.fresh("bad")
        ex.assume(Implies(Not(self.legal), And(bad >= 0, bad < e, self.V(bad) == -1)))
        ex.add_lazy(lambda i: Implies(And(self.legal, i >= 0, i < e), self.V(i) != -1))
        ex.assume(self.K(0) == 0)
        ex.add_lazy(lambda i: And(
            Implies(And(i >= 0, i <= E), And(self.K(i) >= 0, self.K(i) <= i)),
            Implies(And(i >= 0, i < E), And(self.K(i + 1) == self.K(i) + Ite(self.V(i) >= 0, z3.IntVal(1), Z),
                                            Implies(self.V(i) >= 0, self.S(self.K(i)) == self.V(i))))))
        for t in (e, bad, E):
            ex.index_term(t)
        k = self.k = self.K(e)
        q, r = m.fresh("q"), m.fresh("r")
        ex.assume(And(q >= 0, r >= 0, r <= 3, k == 4 * q + r))
        self.q, self.r = q, r
        self.count = 3 * q + Ite(r >= 2, r - 1, Z)
        self.pad = Ite(r == 2, z3.IntVal(2), Ite(r == 3, z3.IntVal(1), Z))
        last = self.S(k - 1)
        self.zero = And(Implies(r == 2, last % 16 == 0), Implies(r == 3, last % 4 == 0))
        after = e + self.pad
        self.padded = And(after <= E, Implies(self.pad >= 1, get(e) == 61), Implies(self.pad == 2, get(e + 1) == 61))
        ign_ = truth(ign)
        self.clean = z3.Bool(ex.nm("only_whitespace_follows"))
        dirt = m.fresh("dirt")
        ex.assume(Implies(Not(self.clean), And(dirt >= after, dirt < E, Not(wsp(get(dirt))))))
        ex.add_lazy(lambda i: Implies(And(self.clean, i >= after, i < E), wsp(get(i))))
        ex.index_term(dirt)
        ex.index_term(after)
        tail = Ite(ign_, self.clean, after == E)
        self.ok = And(self.legal, r != 1, self.zero, self.padded, tail)

    def byte(self, j):
        """byte j of the decoding: bits 8j..8j+7 of the sextets"""
        p = self.B(j)
        self.ex.assume_once(Implies(j >= 0, And(p >= 0, 6 * p <= 8 * j, 8 * j <= 6 * p + 4)))
        a, b = self.S(p), self.S(p + 1)
        for x in (a, b):
            self.ex.assume_once(And(x >= 0, x < 64))
        off = 8 * j - 6 * p
        return Ite(off == 0, a * 4 + b / 16, Ite(off == 2, a % 16 * 16 + b / 4, a % 4 * 64 + b))


def text(m, source, size):
    """the source as far as it matters: contents and end (NUL or size)"""
    ex = m.ex
    size = iv(size)
    key = ("text", str(source.base), str(size))
    if m.assuming:
        # E characters that are not NUL, then a NUL unless the size is used up
        E = m.fresh("E")
        ex.assume(And(E >= 0, E <= size, E <= (1 << 62)))
        n = m.fresh("readable")
        ex.assume(n == E + Ite(E < size, z3.IntVal(1), Z))
        get = m.borrow(source, I8, n).get
        ex.assume(Implies(E < size, get(E) == 0))
        ex.add_lazy(lambda i: Implies(And(i >= 0, i < E), get(i) != 0))
        return get, E
    n, get = m.cstr(source)
    if key not in ex.ghost:
        E = m.fresh("E")
        ex.assume(Or(And(E == n, n <= size), And(E == size, size < n)))
        ex.ghost[key] = E
    return get, ex.ghost[key]


def scan_of(m, source, size, p62, p63, ign):
    get, E = text(m, source, size)
    key = ("scan", str(source.base), str(size), str(p62), str(p63), str(z3.simplify(truth(ign))))
    if key not in m.ex.ghost:
        m.ex.ghost[key] = Scan(m, get, E, p62, p63, ign)
    return m.ex.ghost[key]


def errno_is(m, val):
    ex = m.ex
    if m.assuming:
        b = libc.b_errno(ex, [], None).base
        c = ex.find(b, "errno")
        c.val = z3.IntVal(val)
        return
    b = ex.ghost.get("errno_base")
    m.pure(b is not None and ex.find(b, "errno").val == val, "errno tells why")


EILSEQ = 84


def s_decode(m, source, size, dest, dn, p62, p63, ign):
    ex = m.ex
    q62, q63 = dflt(p62, "+"), dflt(p63, "/")
    sc = scan_of(m, source, size, q62, q63, ign)
    dn = iv(dn)
    some = m.split(dn > 0)
    oget = None
    if some:
        if m.assuming:
            ex.assume(dn <= (1 << 62))
        sp = m.span(dest, U8, dn)
        oget = sp.get
    if m.assuming:
        ex.ghost["dec"] = (sc, source, iv(size), dest, dn, some, oget)
    ret = yield
    r = m.val(ret)
    good = m.split(sc.ok)
    if good:
        m.pure(r == sc.count, "well-formed text is accepted and its full decoded length reported")
    else:
        m.pure(r == -1, "anything else is rejected")
        errno_is(m, EILSEQ)
    if some:
        k = Ite(sc.count < dn, sc.count, dn)
        new = sp.back(defd=(lambda i: i < k) if good else (lambda i: And(i < 0, i > 0)))
        if good:
            m.forall(lambda j: Implies(And(j >= 0, j < k), new.get(j) == sc.byte(j)), "the bytes are those encoded", kind="b")
            if not m.assuming:
                m.forall(lambda j: Implies(And(j >= k, j < dn), new.get(j) == oget(j)), "nothing is stored beyond the decoded length", kind="b")


def shift_lemma(bits, v, c):
    """the byte that six more bits complete"""
    w = bits % 64
    return Implies(And(bits >= 0, bits < (1 << 32), v >= 0, v < 64),
                   ((bits * 64) % (1 << 32) + v) / (1 << c) % 256 == w % (4 << c) * (64 >> c) + v / (1 << c))


def lemmas():
    b, v = z3.Ints("bits v")
    return [("byte completed by six bits, %d left" % c, shift_lemma(b, v, c)) for c in (0, 2, 4)]


def scan_inv(m, storing):
    ex = m.ex
    sc, source, size, dest, dn, some, oget = ex.ghost["dec"]
    if m.assuming:
        si, pi, bits = m.fresh("si"), m.fresh("pi"), m.fresh("bits")
        m.setvar("si", si)
        m.setvar("pi", pi)
        m.setvar("bits", bits)
        bc = m.fresh("bit_count")
        m.setvar("bit_count", bc)
        m.gh["old"] = si, pi, bits
        ex.index_term(si)
        ex.index_term(pi, "b")
    else:
        si, pi, bits, bc = [iv(m.var(x)) for x in ("si", "pi", "bits", "bit_count")]
        ex.index_term(si)
        ex.index_term(pi, "b")
    k = sc.K(si)
    m.pure(And(si >= 0, si <= sc.E), "position within the text")
    m.pure(Or(*[bc == x for x in (0, 2, 4, 6)]), "bits left over")
    m.pure(6 * k == 8 * pi + bc, "bits consumed are bits produced and bits left")
    m.pure(And(pi >= 0, bits >= 0, bits < (1 << 32), Implies(k >= 1, bits % 64 == sc.S(k - 1)), Implies(k == 0, bits == 0)), "the last six bits are at hand")
    if storing:
        m.pure(pi <= dn, "stored within the destination")
    elif storing is False:
        m.pure(Or(pi >= dn, si == sc.e), "the destination is full or the text is read")
    m.forall(lambda i: Implies(And(i >= 0, i < si), And(sc.get(i) != 61, sc.V(i) != -1)), "only alphabet so far")
    if some:
        a = m.arr(dest, U8, n=dn, heap=False)
        decoded = lambda j: Implies(And(j >= 0, j < pi, j < dn), a.get(j) == sc.byte(j))
        if not m.assuming and "old" in m.gh:
            si0, pi0, bits0 = m.gh["old"]
            for c in (0, 2, 4):
                ex.assume(shift_lemma(bits0, sc.V(si0), c))
            m.pure(decoded(pi0), "the next byte")
            m.forall(lambda j: Or(j == pi0, decoded(j)), "decoded so far", kind="b")
        else:
            m.forall(decoded, "decoded so far", kind="b")
        m.forall(lambda j: Implies(And(j >= pi, j < dn), a.get(j) == oget(j)), "rest untouched", kind="b")
    m.decreases(sc.E - si)


def inv_wsp(m):
    ex = m.ex
    sc, source, size, dest, dn, some, oget = ex.ghost["dec"]
    p = m.var("remainder")
    if m.assuming:
        pos = m.fresh("pos")
        m.setvar("remainder", P(source.base, (pos,)))
        m.setvar("remainder_size", size - pos)
    else:
        m.pure(p.base == source.base, "the reader stays in the source")
        pos = iv(p.idx)
        m.pure(iv(m.var("remainder_size")) == size - pos, "characters left")
    ex.index_term(pos)
    start = m.once("start", lambda: pos)
    m.pure(And(pos >= start, pos <= sc.E), "position within the text")
    m.forall(lambda i: Implies(And(i >= start, i < pos), wsp(sc.get(i))), "whitespace so far")
    m.decreases(sc.E - pos)


def s_decode_simple(m, enc, psize):
    ex = m.ex
    if m.assuming:
        m.cstr(enc)
    out = m.arr(psize, U64, n=1)
    o = out.get(0)
    ret = yield
    sc = scan_of(m, enc, U64MAX, z3.IntVal(43), z3.IntVal(47), True)
    r = m.val(ret)
    out = m.arr(psize, U64, n=1)
    if not m.split(sc.ok):
        m.ret_null(ret)
        return
    m.pure(out.get(0) == sc.count, "the size is reported")
    a = m.arr(r, U8, n=sc.count + 1)
    ex.index_term(sc.count, "b")
    m.forall(lambda j: Implies(And(j >= 0, j < sc.count), a.get(j) == sc.byte(j)), "the bytes are those encoded", kind="b")
    m.pure(a.get(sc.count) == 0, "a NUL follows the bytes")


C = Contract
CONTRACTS = {c.name: c for c in [
    C("base64_encoding_size", s_size),
    C("base64_encode_buffer", s_encode, {0: LoopSpec(inv_encode, {"i": "int:64:False", "q": "ptr", "dest_body_counter": "int:64:False"})}),
    C("base64_encode_simple", s_encode_simple),
]}
CONTRACTS["base64_char"] = C("base64_char", s_char)
C11 = list(CONTRACTS)


S2 = {"si": "int:64:False", "pi": "int:64:False", "bits": "int:32:False", "bit_count": "int:32:False"}
CONTRACTS12 = {c.name: c for c in [
    C("base64_decode_buffer", s_decode, alt=[{0: LoopSpec(lambda m: scan_inv(m, None), S2), 1: LoopSpec(inv_wsp, {"remainder": "ptr", "remainder_size": "int:64:False"})}],
                           loops={0: LoopSpec(lambda m: scan_inv(m, True), S2), 1: LoopSpec(lambda m: scan_inv(m, False), S2),
                                         2: LoopSpec(inv_wsp, {"remainder": "ptr", "remainder_size": "int:64:False"})}),
    C("base64_decode_simple", s_decode_simple),
    C("get_bits", s_get_bits),
]}
C12 = list(CONTRACTS12)


def verifier12():
    return Verifier([Unit(src("base64.c"))], CONTRACTS12, {}, builtins=libc.BUILTINS)


def verifier():
    return Verifier([Unit(src("base64.c"))], CONTRACTS, {}, builtins=libc.BUILTINS, light=light)


def have(name):
    return name in Unit(src("base64.c")).funcs


FUNCS = list(CONTRACTS)
