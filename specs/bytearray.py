"""Contracts of bytearray.c."""
from slv import *
import libc


def tb(p):
    b = p.base if isinstance(p, P) else p
    return b if isz(b) else z3.IntVal(b)


class Bytes:
    def __init__(self, n, get, maxsz, refs, cap=None):
        self.n, self.get, self.max, self.refs = n, get, maxsz, refs


def own(m, p):
    """the byte array as the caller sees it"""
    v = m.obj(p, "struct byte_array")
    n, mx, sz, rc = v["cursor"], v["max_size"], v["size"], v["ref_count"]
    if m.assuming:
        m.pure(And(sz >= 1, n < sz, n < mx, rc >= 1))
        a = m.arr(v["data"], U8, n=sz, defd=lambda i: i <= n)
    else:
        a = m.arr(v["data"], U8, n=sz, exact=False, defd=lambda i: i <= n)
        m.pure(n < mx, "contents and NUL stay within the maximum size")
        m.pure(n < sz, "contents and NUL fit in the storage")
        m.pure(rc >= 1, "reference count positive")
    m.ex.index_term(n)
    m.pure(a.get(n) == 0, "contents are followed by NUL")
    b = Bytes(n, a.get, mx, rc)
    b.data = v["data"]
    return b


def want(m, p, n, get, old, refs=None):
    b = own(m, p)
    m.pure(b.n == n, "size of the contents")
    m.forall(lambda i: Implies(And(i >= 0, i < n), b.get(i) == get(i)), "contents")
    m.pure(b.max == old.max, "maximum size unchanged")
    m.pure(b.refs == (old.refs if refs is None else refs), "reference count")
    return b


def source(m, data, n):
    """the caller's bytes; nothing is needed when there are none"""
    if m.split(n == 0 if isz(n) else n == 0):
        return lambda i: z3.IntVal(0)
    if m.assuming:
        m.ex.assume(n <= (1 << 62))
    a = m.borrow(data, U8, n)
    return a.get


def s_make(m, maxsz):
    m.pure(maxsz >= 1, "room for the NUL")
    ret = yield
    b = own(m, ret)
    m.pure(And(b.n == 0, b.max == maxsz, b.refs == 1), "a new array is empty")


def s_share(m, arr):
    o = own(m, arr)
    m.pure(o.refs < (1 << 32) - 1, "reference count does not overflow")
    ret = yield
    m.ret_is(ret, arr, "result is the array")
    want(m, arr, o.n, o.get, o, o.refs + 1)


def s_destroy(m, arr):
    o = own(m, arr)
    yield
    if m.split(o.refs > 1):
        want(m, arr, o.n, o.get, o, o.refs - 1)


def ok(m, ret):
    return m.ex.branch(m.ex.truth(m.val(ret), BOOL))


def over(get, pos, n, src, total):
    return lambda i: Ite(And(i >= pos, i < pos + n), src(i - pos), get(i))


def copy_spec(m, arr, pos, n, src, o):
    ret = yield
    total = Ite(pos + n > o.n, pos + n, o.n)
    fits = And(pos <= o.n, total < o.max)
    m.pure(m.ex.truth(m.val(ret), BOOL) == fits, "succeeds exactly when it fits")
    if m.split(fits):
        want(m, arr, total, over(o.get, pos, n, src, total), o)
    else:
        want(m, arr, o.n, o.get, o)


def s_copy(m, arr, pos, data, n):
    o = own(m, arr)
    src = source(m, data, n)
    g = copy_spec(m, arr, pos, n, src, o)
    next(g)
    ret = yield
    try:
        g.send(ret)
    except StopIteration:
        pass


def u8(get):
    return lambda i: Ite(get(i) < 0, get(i) + 256, get(i))


def s_copy_string(m, arr, pos, s):
    o = own(m, arr)
    n, get = m.cstr(s)
    g = copy_spec(m, arr, pos, n, u8(get), o)
    next(g)
    ret = yield
    try:
        g.send(ret)
    except StopIteration:
        pass


def s_append(m, arr, data, n):
    o = own(m, arr)
    src = source(m, data, n)
    g = copy_spec(m, arr, o.n, n, src, o)
    next(g)
    ret = yield
    try:
        g.send(ret)
    except StopIteration:
        pass


def s_append_string(m, arr, s):
    o = own(m, arr)
    n, get = m.cstr(s)
    g = copy_spec(m, arr, o.n, n, u8(get), o)
    next(g)
    ret = yield
    try:
        g.send(ret)
    except StopIteration:
        pass


def s_clear(m, arr):
    o = own(m, arr)
    yield
    want(m, arr, z3.IntVal(0), o.get, o)


def s_resize(m, arr, n, c):
    o = own(m, arr)
    ret = yield
    fits = n < o.max
    fits = Or(n <= o.n, fits)
    m.pure(m.ex.truth(m.val(ret), BOOL) == fits, "succeeds exactly when it fits")
    if m.split(fits):
        want(m, arr, n, lambda i: Ite(i < o.n, o.get(i), c), o)
    else:
        want(m, arr, o.n, o.get, o)


def s_data(m, arr):
    o = own(m, arr)
    ret = yield
    b = want(m, arr, o.n, o.get, o)
    m.ret_is(ret, b.data, "result is the storage")


def s_size(m, arr):
    o = own(m, arr)
    ret = yield
    want(m, arr, o.n, o.get, o)
    m.ret_is(ret, o.n, "result is the size")


def s_stream(m, arr, cb, obj, n):
    o = own(m, arr)
    m.pure(m.ex.nonnull(cb), "callback given")
    avail = o.max - o.n - 1
    m.ex.ghost["cb"] = (cb, obj, Ite(n < avail, n, avail))
    m.ex.ghost["reads"] = []
    ret = yield
    reads = m.ex.ghost["reads"]
    if len(reads) > 1:
        m.pure(False, "at most one read")
    if not reads:
        m.pure(avail == 0, "a read is left out only when nothing fits")
        m.pure(m.val(ret) == -1, "failure is reported")
        want(m, arr, o.n, o.get, o)
        return
    r, src = reads[0]
    m.pure(m.val(ret) == r, "the callback's result is returned")
    k = Ite(r > 0, r, z3.IntVal(0))
    want(m, arr, o.n + k, over(o.get, o.n, k, src, None), o)


def indirect(ex, f, args, rty):
    cb = ex.ghost.get("cb")
    if cb is None:
        raise Limit("indirect call")
    ex.prove(ex.ptr_eq(f, cb[0]), "the given callback is called", kind="post")
    obj, buf, n = args
    ex.prove(ex.ptr_eq(obj, cb[1]), "the callback gets the given object", kind="post")
    ex.prove(n == cb[2], "the callback is asked for the given length or what fits", kind="post")
    c, path, a, i0 = libc.region(ex, buf, n, "stream read")
    libc.in_range(ex, a, i0, n, "stream read")
    r = ex.freshint("r")
    ex.assume(And(r >= -(1 << 63), r <= n))       # assumed contract of the callback
    src = ex.arr_uf("read", U8)
    oget, odef = a.get, a.defd

    def get(i):
        return Ite(And(i >= i0, i < i0 + r), src(i - i0), oget(i))
    defd = None
    if odef is not None:
        defd = lambda i: Or(And(i >= i0, i < i0 + r), odef(i))
    libc.set_region(ex, c, path, ArrVal(a.n, a.et, get, defd))
    ex.ghost["reads"].append((r, src))
    return r


def grow(m):
    n = m.var("n")
    m.pure(n >= 1, "size positive")
    m.decreases((1 << 64) - n)


C = Contract
G = lambda: {0: LoopSpec(grow, {"n": "int:64:False"})}
CONTRACTS = {c.name: c for c in [
    C("make_byte_array", s_make),
    C("share_byte_array", s_share),
    C("destroy_byte_array", s_destroy),
    C("byte_array_copy", s_copy, G()),
    C("byte_array_copy_string", s_copy_string, G()),
    C("byte_array_append", s_append, G()),
    C("byte_array_append_string", s_append_string, G()),
    C("byte_array_append_stream", s_stream, G()),
    C("byte_array_clear", s_clear),
    C("byte_array_resize", s_resize, G()),
    C("byte_array_data", s_data),
    C("byte_array_size", s_size),
]}


def verifier():
    u = Unit(src("bytearray.c"))
    return Verifier([u], CONTRACTS, {}, builtins=libc.BUILTINS, indirect=indirect, inline=set(CONTRACTS))


FUNCS = list(CONTRACTS)
