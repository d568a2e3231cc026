"""Models of the allocator (its contract is C25) and of libc functions."""
import z3
from slv import *


def lt(ex, a, b):
    return ex.A.cmp("<", a, b, U64)


def b_fsalloc(ex, args, rty):
    size = args[0]
    return alloc(ex, size, False, None)


def alloc(ex, size, zero, cnt):
    nz = size != 0 if isz(size) else size != 0
    if not ex.branch(nz):
        # a zero-size request may yield NULL or an empty block
        if ex.choose(2) == 0:
            return NULL
    base = ex.freshbase("blk")
    c = Raw(base, size, zero, cnt)
    if ex.A.bv:
        if isz(size):
            ex.assume(size >= 0)
    elif isz(size):
        ex.assume(size <= (1 << 63) - 1)      # an allocation that succeeded
    elif size > (1 << 63) - 1:
        raise Infeasible()
    ex.add_chunk(c)
    return P(base)


def b_fscalloc(ex, args, rty):
    n, sz = args
    if ex.A.bv:
        if isz(sz):
            raise Limit("calloc")
        prod = n * sz if isz(n) else n * sz
        ex.assume(z3.ULE(n, ((1 << 63) - 1) // sz))
        return alloc(ex, prod, True, (n, sz))
    # an overflowing product requests SIZE_MAX bytes, which cannot succeed
    prod = n * sz
    if isz(prod):
        ex.assume(prod <= (1 << 63) - 1)
    return alloc(ex, prod, True, (n, sz))


def whole(ex, p, what):
    if p.path and not (len(p.path) == 1 and same(p.path[0], 0)):
        if len(p.path) == 1 and not isinstance(p.path[0], str):
            ex.prove(p.path[0] == 0, what + ": pointer to the start of a block", kind="memory")
        else:
            ex.prove(False, what + ": pointer to the start of a block", kind="memory")
    return p.base


def b_fsfree(ex, args, rty):
    p = args[0]
    if not ex.branch(ex.nonnull(p)):
        return None
    base = whole(ex, p, "free")
    c = ex.find(base, "free")
    if not c.heap or c.ro:
        ex.prove(False, "free: not a block the code may free", kind="memory")
    ex.touch(c)
    ex.remove(c)
    return None


def b_fsrealloc(ex, args, rty):
    p, size = args
    if not ex.branch(ex.nonnull(p)):
        return alloc(ex, size, False, None)
    base = whole(ex, p, "realloc")
    if not ex.branch(size != 0):
        b_fsfree(ex, [p], None)
        return NULL
    c = ex.find(base, "realloc")
    if not c.heap or c.ro:
        ex.prove(False, "realloc: not a block the code may resize", kind="memory")
    ex.touch(c)
    ex.remove(c)
    nb = ex.freshbase("blk")
    if isz(size):
        ex.assume(size <= (1 << 63) - 1)
    if isinstance(c, Raw):
        ex.add_chunk(Raw(nb, size))
        return P(nb)
    if not isinstance(c.val, ArrVal):
        raise Limit("realloc of a structure")
    a = c.val
    sz = ex.unit.sizeof(a.et)
    n = size if sz == 1 else None
    if n is None:
        # size is n * sz
        n = ex.freshint("n")
        ex.assume(And(n >= 0, n * sz <= size, size < n * sz + sz))
    od, on = a.defd, a.n

    def defd(i):
        inold = And(i >= 0, i < on)
        return inold if od is None else And(inold, od(i))
    junk = ex.arr_uf("junk", a.et)

    def get(i):
        e = i < on if (isz(i) or isz(on)) else i < on
        return ex.ite_val(e, a.get(i), junk(i))
    na = ArrVal(n, a.et, get, defd)
    if ex.ver.agg and a.agg is not None:
        ex.ver.agg.attach(ex, na, (a.agg, on))
    ex.add_chunk(Mem(nb, c.ty, na, True))
    return P(nb)


def region(ex, p, n, what, et=None):
    """the array chunk p points into; obligation: n elements from p exist"""
    c = ex.find(p.base, what)
    if isinstance(c, Raw):
        c = ex.typed(c, et or U8)
    path = p.path or (0,)
    if len(path) == 1 and not isinstance(path[0], str):
        a = c.val
        if not isinstance(a, ArrVal):
            raise Limit(what + " on a structure")
        i = path[0]
        return c, (), a, i
    a, t = ex.rd(c.val, path[:-1], c.ty)
    return c, path[:-1], a, path[-1]


def count_of(ex, nbytes, et):
    sz = ex.unit.sizeof(et)
    if sz == 1:
        return nbytes
    if not isz(nbytes):
        return nbytes // sz
    # (k) * sz as a product term
    q = ex.freshint("cnt")
    if ex.entails(nbytes % sz == 0):
        ex.assume(nbytes == q * sz)
        return q
    raise Limit("partial elements")


def in_range(ex, a, i, n, what):
    ex.prove(And(i >= 0 if isz(i) else i >= 0, i + n <= a.n if isz(i) or isz(n) or isz(a.n) else i + n <= a.n),
             what + " stays within the buffer", kind="memory")


def set_region(ex, c, path, new):
    if c.ro:
        ex.prove(False, "write to memory the contract does not let it change", kind="frame")
    ex.touch(c)
    if path:
        c.val = ex.wr(c.val, path, c.ty, new)
    else:
        c.val = new


def struct_copy(ex, dst, src, n, what):
    """a whole structure is copied"""
    if src.path or dst.path or isz(n):
        return False
    c = ex.find(src.base, what + " source")
    if not isinstance(c, Mem) or c.ty.k != "struct" or ex.unit.sizeof(c.ty) != n:
        return False
    d = ex.find(dst.base, what + " destination")
    if isinstance(d, Raw):
        d = ex.typed(d, c.ty)
    if d.ty.k != "struct" or d.ty.name != c.ty.name:
        return False
    if d.ro:
        ex.prove(False, "write to memory the contract does not let it change", kind="frame")
    ex.touch(d)
    d.val = c.val
    return True


def copy(ex, dst, src, n, what):
    if not ex.branch(n != 0 if isz(n) else n != 0):
        return dst
    if struct_copy(ex, dst, src, n, what):
        return dst
    cs, ps, sa, si = region(ex, src, n, what + " source")
    cd, pd, da, di = region(ex, dst, n, what + " destination", sa.et)
    if sa.et.k != da.et.k or sa.et.w != da.et.w:
        raise Limit("copy between types")
    cnt = count_of(ex, n, sa.et)
    in_range(ex, sa, si, cnt, what + " source")
    in_range(ex, da, di, cnt, what + " destination")
    for k in (si, di):
        ex.index_term(k)
    if cs is cd and what == "memcpy":
        ex.prove(Or(si + cnt <= di, di + cnt <= si), "memcpy regions do not overlap", kind="memory")
    if sa.defd is not None:
        k = ex.freshint("k")
        ex.index_term(k)
        ex.prove(Implies(And(k >= si, k < si + cnt), sa.defd(k)), what + " source is initialised", kind="memory")
    oget, odef = da.get, da.defd
    sget = sa.get
    sgn_fix = None
    if sa.et.isint and sa.et.s != da.et.s:
        w = sa.et.w
        if da.et.s:
            sgn_fix = lambda v: Ite(v >= (1 << (w - 1)), v - (1 << w), v)
        else:
            sgn_fix = lambda v: Ite(v < 0, v + (1 << w), v)

    def get(i):
        v = sget(i - di + si)
        if sgn_fix:
            v = sgn_fix(v)
        return ex.ite_val(And(i >= di, i < di + cnt), v, oget(i))

    def shift(i):
        # let facts about the source speak about the copy
        ex.index_term(i - di + si)
        return True
    ex.add_lazy(lambda i: True)
    defd = None
    if odef is not None:
        defd = lambda i: Or(And(i >= di, i < di + cnt), odef(i))
    set_region(ex, cd, pd, ArrVal(da.n, da.et, get, defd))
    return dst


def b_memcpy(ex, args, rty):
    return copy(ex, args[0], args[1], args[2], "memcpy")


def b_memmove(ex, args, rty):
    return copy(ex, args[0], args[1], args[2], "memmove")


def b_memset(ex, args, rty):
    p, v, n = args
    if not ex.branch(n != 0 if isz(n) else n != 0):
        return p
    c, path, a, i0 = region(ex, p, n, "memset")
    if ex.unit.sizeof(a.et) != 1:
        raise Limit("memset of wide elements")
    in_range(ex, a, i0, n, "memset")
    b = ex.A.cast(ex.A.cast(v, I32, U8), U8, a.et)
    oget, odef = a.get, a.defd

    def get(i):
        return ex.ite_val(And(i >= i0, i < i0 + n), b if isz(b) else z3.IntVal(b), oget(i))
    defd = None
    if odef is not None:
        defd = lambda i: Or(And(i >= i0, i < i0 + n), odef(i))
    set_region(ex, c, path, ArrVal(a.n, a.et, get, defd))
    return p


def b_strlen(ex, args, rty):
    m = M(ex, "prove", "strlen")
    n, get = m.cstr(args[0])
    ex.index_term(n if isz(n) else z3.IntVal(n))
    return n


def b_strchr(ex, args, rty):
    """first occurrence of a character, or NULL"""
    p, ch = args
    m = M(ex, "prove", "strchr")
    n, get = m.cstr(p)
    ch = ex.A.cast(ch, I32, I8)
    i0 = p.path[-1] if p.path else 0
    if ex.choose(2) == 0:
        k = ex.freshint("at")
        ex.index_term(i0 + k)
        ex.assume(And(k >= 0, k <= n, get(k) == ch))
        ex.add_lazy(lambda j: Implies(And(j >= i0, j < i0 + k), get(j - i0) != ch))
        return P(p.base, (i0 + k,))
    ex.add_lazy(lambda j: Implies(And(j >= i0, j <= i0 + n), get(j - i0) != ch))
    ex.index_term(i0 + n)
    return NULL


def b_strncmp(ex, args, rty, fold=None):
    """bounded comparison: n must be known on each path"""
    p, q, n = args
    if isz(n):
        n = z3.simplify(n)
        if not z3.is_int_value(n):
            raise Limit("strncmp of symbolic length")
        n = n.as_long()
    m = M(ex, "prove", "strncmp")
    for k in range(n):
        if k > 40:
            raise Limit("strncmp of a long string")
        a, b = m.borrow(p, I8, k + 1), m.borrow(q, I8, k + 1)
        x, y = a.get(k), b.get(k)
        for v in (x, y):
            if isz(v):
                ex.index_term(k)
        if ex.branch(x != y if isz(x) or isz(y) else x != y):
            r = ex.freshint("cmp")
            x, y = Ite(x < 0, x + 256, x), Ite(y < 0, y + 256, y)
            ex.assume(And(r != 0, (r < 0) == (x < y), r >= -(1 << 31), r < 1 << 31))
            return r
        if ex.branch(x == 0 if isz(x) else x == 0):
            return 0
    return 0


def b_memcmp(ex, args, rty):
    """compares up to the first difference or the given size"""
    p, q, n = args
    m = M(ex, "prove", "memcmp")
    a, b = m.borrow(p, I8, n), m.borrow(q, I8, n)
    i, j = [iv(x.path[-1] if x.path else 0) for x in (p, q)]
    d = ex.freshint("differ")
    ex.assume(And(d >= 0, d <= n))
    for t in (d, i + d, j + d, i + n, j + n):
        ex.index_term(t)
    for o in {str(x): x for x in (iv(0), i, j)}.values():
        ex.add_lazy(lambda t, o=o: Implies(And(t - o >= 0, t - o < d), a.get(t - o) == b.get(t - o)))
    for s in (a, b):
        if s.defd is not None:
            m.forall(lambda t, s=s: Implies(And(t >= 0, t < n), s.defd(t)), "the bytes compared are initialised")
    x, y = a.get(d), b.get(d)
    r = ex.freshint("cmp")
    x, y = Ite(x < 0, x + 256, x), Ite(y < 0, y + 256, y)
    ex.assume(And(Implies(d < n, And(x != y, (r < 0) == (x < y), r != 0)), Implies(d == n, r == 0), r >= -(1 << 31), r < 1 << 31))
    return r


def b_strcmp(ex, args, rty):
    """compares up to the first difference or the end"""
    m = M(ex, "prove", "strcmp")
    for p in args[:2]:
        n, get = m.cstr(p)
        if not isz(n):
            return b_strncmp(ex, [args[0], args[1], n + 1], rty)
    p, q = args[:2]
    n, gp = m.cstr(p)
    k, gq = m.cstr(q)
    i, j = [iv(x.path[-1] if x.path else 0) for x in (p, q)]
    d = ex.freshint("differ")
    ex.assume(And(d >= 0, d <= n, d <= k))
    for t in (d, i + d, j + d, i + n, j + k):
        ex.index_term(t)
    # gp and gq count from p and q; the terms looked at may count from the start
    for o in {str(x): x for x in (iv(0), i, j)}.values():
        ex.add_lazy(lambda t, o=o: Implies(And(t - o >= 0, t - o < d), And(gp(t - o) == gq(t - o), gp(t - o) != 0)))
    x, y = gp(d), gq(d)
    r = ex.freshint("cmp")
    x, y = Ite(x < 0, x + 256, x), Ite(y < 0, y + 256, y)
    ex.assume(And(Or(x != y, x == 0), (r < 0) == (x < y), (r == 0) == (x == y), r >= -(1 << 31), r < 1 << 31))
    return r


def iv(x):
    return x if isz(x) else z3.IntVal(x)


def occurs(ex, s, gs, n, d, gd, k):
    """where the string d (length k) occurs in s: OCC(position in the object s
    points into)"""
    i0 = iv(s.path[-1] if s.path else 0)
    key = ("occurs", str(s.base), str(d.base), str(d.path))
    if key not in ex.ghost:
        OCC = z3.Function(ex.nm("occurs"), z3.IntSort(), z3.BoolSort())
        MIS = z3.Function(ex.nm("mismatch"), z3.IntSort(), z3.IntSort())
        end = i0 + n
        at = lambda t: gs(t - i0)
        ex.add_lazy(lambda t: Implies(OCC(t), t + k <= end))
        ex.add_lazy(lambda t, u: Implies(And(OCC(t), u >= 0, u < k), at(t + u) == gd(u)), 2)
        ex.add_lazy(lambda t: Implies(And(t <= end, Not(OCC(t))), And(MIS(t) >= 0, MIS(t) < k, t + MIS(t) <= end, at(t + MIS(t)) != gd(MIS(t)))))
        ex.ghost[key] = OCC
    return ex.ghost[key]


def b_strstr(ex, args, rty):
    p, d = args
    m = M(ex, "prove", "strstr")
    n, gs = m.cstr(p)
    k, gd = m.cstr(d)
    if not ex.branch(iv(k) > 0):
        return p
    occ = occurs(ex, p, gs, n, d, gd, k)
    i0 = iv(p.path[-1] if p.path else 0)
    if ex.choose(2) == 0:
        at = ex.freshint("at")
        ex.index_term(at)
        ex.assume(And(at >= i0, at + k <= i0 + n, occ(at)))
        ex.add_lazy(lambda t: Implies(And(t >= i0, t < at), Not(occ(t))))
        return P(p.base, (at,))
    ex.index_term(i0 + n)
    ex.add_lazy(lambda t: Implies(And(t >= i0, t <= i0 + n), Not(occ(t))))
    return NULL


def b_snprintf(ex, args, rty):
    """literal text, %%, %c and %02X of a number below 256"""
    p, size, fmt, rest = args[0], args[1], args[2], list(args[3:])
    if isz(size):
        raise Limit("snprintf of symbolic size")
    m = M(ex, "prove", "snprintf")
    n, get = m.cstr(fmt)
    if isz(n):
        raise Limit("snprintf format")
    f = "".join(chr(get(k) % 256) for k in range(n))
    hexd = lambda v: Ite(v < 10, v + 48, v + 55)
    out = []
    k = 0
    while k < n:
        if f[k] != "%":
            out.append(ord(f[k]))
            k += 1
        elif f[k:k + 2] == "%%":
            out.append(37)
            k += 2
        elif f[k:k + 2] == "%c":
            v = rest.pop(0)
            out.append(ex.A.cast(ex.A.cast(v, I32, U8), U8, I8))
            k += 2
        elif f[k:k + 4] == "%02X":
            v = iv(rest.pop(0))
            if not ex.entails(And(v >= 0, v < 256)):
                raise Limit("snprintf of a number that may be large")
            out += [hexd(v / 16), hexd(v % 16)]
            k += 4
        else:
            raise Limit("snprintf directive " + f[k:k + 4])
    if not size:
        return len(out)
    full = len(out)
    for k, c in enumerate(out[:size - 1] + [0]):
        ex.store(ex.ptr_add(p, k, I32), I8, c if isz(c) else (c - 256 if c > 127 else c))
    return full


def b_assert_fail(ex, args, rty):
    ex.prove(False, "assertion in the code", kind="assert")
    raise PathDone()


def b_abort(ex, args, rty):
    ex.prove(False, "abort is not reached", kind="assert")
    raise PathDone()


def b_errno(ex, args, rty):
    key = "errno"
    if ex.ghost.get("errno_base") is None:
        b = ex.freshbase("errno")
        ex.ghost["errno_base"] = b
        ex.add_chunk(Mem(b, I32, ex.A.fresh("errno0", I32), heap=False))
    return P(ex.ghost["errno_base"])


BUILTINS = {
    "fsalloc": b_fsalloc, "fsfree": b_fsfree, "fsrealloc": b_fsrealloc,
    "fscalloc": b_fscalloc, "memcpy": b_memcpy, "memmove": b_memmove,
    "memset": b_memset, "strlen": b_strlen, "strchr": b_strchr, "strncmp": b_strncmp, "strcmp": b_strcmp, "memcmp": b_memcmp, "strstr": b_strstr, "snprintf": b_snprintf,
    "__assert_fail": b_assert_fail, "abort": b_abort,
    "__errno_location": b_errno,
    "__builtin_expect": lambda ex, a, r: a[0],
}

TRUST = [
    "slv, the deductive verifier in /verif/lib (symbolic execution and obligation generation)",
    "clang 18 front end (the verified text is clang's AST of /repo's current source)",
    "z3 as the back end",
    "models of fsalloc/fsfree/fsrealloc/fscalloc (contract decided by C25; a block that is handed out is at most PTRDIFF_MAX bytes and does not overlap another)",
    "pointers into distinct objects are unequal (one-past-the-end coincidences ignored)",
]
