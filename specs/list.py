"""Contracts of list.c: a list is a doubly linked segment carrying a sequence."""
from slv import *
import libc

ANY = object()


class Seq:
    """mathematical sequence: n elements, addr(i) and val(i)"""

    def __init__(self, n, addr, val):
        self.n, self.addr, self.val = n, addr, val


def tb(p):
    b = p.base if isinstance(p, P) else p
    return b if isz(b) else z3.IntVal(b)


def empty_seq():
    return Seq(z3.IntVal(0), lambda i: z3.IntVal(0), lambda i: z3.IntVal(0))


def single(a, v):
    return Seq(z3.IntVal(1), lambda i: a, lambda i: v)


def sub(s, lo, n):
    return Seq(n, lambda i: s.addr(lo + i), lambda i: s.val(lo + i))


def concat(a, b):
    return Seq(z3.simplify(a.n + b.n),
               lambda i: Ite(i < a.n, a.addr(i), b.addr(i - a.n)),
               lambda i: Ite(i < a.n, a.val(i), b.val(i - a.n)))


def insert(s, k, a, v):
    return Seq(s.n + 1,
               lambda i: Ite(i < k, s.addr(i), Ite(i == k, a, s.addr(i - 1))),
               lambda i: Ite(i < k, s.val(i), Ite(i == k, v, s.val(i - 1))))


def delete(s, k):
    return Seq(s.n - 1,
               lambda i: Ite(i < k, s.addr(i), s.addr(i + 1)),
               lambda i: Ite(i < k, s.val(i), s.val(i + 1)))


def seq_eq(m, a, b, what):
    """element-wise equality of two sequences"""
    m.pure(a.n == b.n, what + ": length")
    m.forall(lambda i: Implies(And(i >= 0, i < a.n), And(a.addr(i) == b.addr(i))), what + ": element identities")
    m.forall(lambda i: Implies(And(i >= 0, i < a.n), And(a.val(i) == b.val(i))), what + ": element values")


class Dll(PredDef):
    """dll(first, before, last, after; seq)"""
    name = "dll"

    def roots(self, ex, c):
        f, pr, l, nx = c.ins
        s = c.outs[0]
        return [(f, s.n > 0), (l, s.n > 0)]

    def fresh_outs(self, ex):
        n = ex.freshint("n")
        a = z3.Function(ex.nm("addr"), z3.IntSort(), z3.IntSort())
        v = z3.Function(ex.nm("val"), z3.IntSort(), z3.IntSort())

        def val(i):
            ex.assume_once(v(i) >= 0)
            return v(i)
        return (Seq(n, lambda i: a(i), val),)

    def facts(self, ex, ins, outs, piece=False):
        f, pr, l, nx = ins
        s = outs[0]
        ex.assume(And(s.n >= 0, s.n < (1 << 62)))
        ex.assume((s.n == 0) == (f == nx))
        ex.assume((s.n == 0) == (l == pr))
        ex.assume(Implies(s.n > 0, And(f == s.addr(0), l == s.addr(s.n - 1), f != 0, l != 0)))
        ex.assume((s.n == 1) == And(s.n > 0, f == l))
        ex.add_lazy(lambda i: Implies(And(i >= 0, i < s.n), s.addr(i) != 0))
        if not piece:
            # separation: the elements are distinct blocks
            ex.index_term(z3.IntVal(0))
            ex.index_term(s.n - 1)
            ex.add_lazy(lambda i, j: Implies(And(0 <= i, i < j, j < s.n), s.addr(i) != s.addr(j)), 2)

    def put(self, ex, f, pr, l, nx, s):
        ex.add_chunk(Pred("dll", (f, pr, l, nx), (s,)))
        self.facts(ex, (f, pr, l, nx), (s,), True)

    def node(self, ex, c, k, at, pr2, nx2):
        s = c.outs[0]
        ch = Mem(at, T("struct", name="struct list_elem"),
                 StructVal({"value": P(s.val(k)), "previous": P(pr2), "next": P(nx2)}), True)
        ch.frozen = c.frozen
        ex.add_chunk(ch)

    def split_at(self, ex, c, k, at):
        """take node k (address `at`) out of the segment"""
        f, pr, l, nx = c.ins
        s = c.outs[0]
        ex.remove(c)
        fz = c.frozen
        n1 = ex.freshbase("prev")
        n2 = ex.freshbase("next")
        k = k if isz(k) else z3.IntVal(k)
        ex.assume(at != 0)
        # left part
        if ex.branch(k == 0):
            ex.assume(And(n1 == pr, at == f))
        else:
            self.put(ex, f, pr, n1, at, sub(s, z3.IntVal(0), k))
            ex.chunks[-1].frozen = fz
        # right part
        if ex.branch(k == s.n - 1):
            ex.assume(And(n2 == nx, at == l))
        else:
            self.put(ex, n2, at, l, nx, sub(s, k + 1, s.n - k - 1))
            ex.chunks[-1].frozen = fz
        self.node(ex, c, k, at, n1, n2)

    def open(self, ex, c, base):
        f, pr, l, nx = c.ins
        s = c.outs[0]
        if ex.branch(base == f):
            self.split_at(ex, c, z3.IntVal(0), base)
        else:
            self.split_at(ex, c, s.n - 1, base)

    def claims(self, ex, c, base):
        s = c.outs[0]
        for b, k in ex.ghost.get("member", []):
            if same(b, base) and ex.entails(And(k >= 0, k < s.n, s.addr(k) == b)):
                self.split_at(ex, c, k, base)
                return True
        return False

    def open_inside(self, ex, c, base):
        s = c.outs[0]
        for b, k in ex.ghost.get("member", []):
            e = And(k >= 0, k < s.n, s.addr(k) == b, b == base)
            if ex.entails(e):
                self.split_at(ex, c, k, base)
                return True
            # an index counted from the whole sequence
            if c.outs and hasattr(s, "off"):
                pass
        return False

    def empty(self, ex, c):
        return ex.entails(c.outs[0].n == 0)

    def consume(self, m, ins):
        ex = m.ex
        f, pr, l, nx = ins
        cur, curpr = f, pr
        acc = None
        for _ in range(12):
            hit = None
            if ex.branch(cur == nx):
                break
            for c in ex.chunks:
                if isinstance(c, Pred) and c.name == "dll" and not c.frozen:
                    e = c.ins[0] == cur if not same(c.ins[0], cur) else True
                    if e is True or ex.entails(e):
                        # an empty segment may sit anywhere
                        if not ex.branch(c.outs[0].n > 0):
                            ex.remove(c)
                            hit = "again"
                            break
                        hit = c
                        break
            if hit == "again":
                continue
            if hit is not None:
                c = hit
                if curpr is not ANY:
                    m.pure(c.ins[1] == curpr, "segment is linked backwards")
                ex.remove(c)
                acc = c.outs[0] if acc is None else concat(acc, c.outs[0])
                cur, curpr = c.ins[3], c.ins[2]
                continue
            c = ex.find(cur, m.label + ": list element")
            if isinstance(c, Raw):
                c = ex.typed(c, T("struct", name="struct list_elem"))
            if c.ty.k != "struct":
                raise Limit("list element expected")
            m._notfrozen(c)
            ex.remove(c)
            v = c.val.f
            for k in ("value", "previous", "next"):
                if v[k] is UNINIT:
                    ex.prove(False, m.label + ": field %s is set" % k, kind="post")
            if curpr is not ANY:
                m.pure(tb(v["previous"]) == curpr, "previous link")
            one = single(c.base if isz(c.base) else z3.IntVal(c.base), tb(v["value"]))
            acc = one if acc is None else concat(acc, one)
            cur, curpr = tb(v["next"]), c.base
        else:
            raise Limit("segment too fragmented")
        if acc is None:
            acc = empty_seq()
            if curpr is ANY:
                curpr = None
        if l is not ANY and curpr is not None:
            m.pure(l == curpr, "last element")
        return (acc,)


class M2:
    pass


def list_pre(m, p):
    """ownership of a list; returns its fields and its sequence"""
    v = m.obj(p, "struct list")
    s, = m.pred("dll", tb(v["first"]), z3.IntVal(0), tb(v["last"]), z3.IntVal(0))
    m.pure(v["size"] == s.n, "size is the number of elements")
    if m.assuming:
        b = m.base(p)
        m.ex.add_lazy(lambda i: Implies(And(i >= 0, i < s.n), s.addr(i) != b))
    return s


def member(m, p, s):
    """p is one of the sequence's elements; returns its position"""
    if m.assuming:
        k = m.fresh("pos")
        m.ex.assume(And(k >= 0, k < s.n, s.addr(k) == tb(p)))
        m.ex.index_term(k)
        m.ex.ghost.setdefault("member", []).append((tb(p), k))
        return k
    raise Limit("membership witness")


def unchanged(m, p, s):
    t = list_pre(m, p)
    seq_eq(m, t, s, "sequence unchanged")


def post(m, p, want):
    if m.assuming:
        v = m.obj(p, "struct list")
        s, = m.pred("dll", tb(v["first"]), z3.IntVal(0), tb(v["last"]), z3.IntVal(0), outs=(want,))
        m.pure(v["size"] == want.n)
        return want
    t = list_pre(m, p)
    seq_eq(m, t, want, "sequence")
    return t


def make_list(m):
    ret = yield
    post(m, ret, empty_seq())
    if m.assuming:
        m.ex.ghost["made"] = m.val(ret)


def destroy_list(m, list_):
    list_pre(m, list_)
    yield


def read_only(fn):
    """an operation that must not change the list"""
    def spec(m, list_, *args):
        s = list_pre(m, list_)
        gen = fn(m, s, *args)
        next(gen)
        ret = yield
        post(m, list_, s)
        try:
            gen.send(ret)
        except StopIteration:
            pass
    return spec


def ret_elem(m, ret, s, k):
    m.pure(tb(m.val(ret)) == s.addr(k), "result is the element at its position")


def g_first(m, s):
    ret = yield
    m.pure(tb(m.val(ret)) == Ite(s.n > 0, s.addr(z3.IntVal(0)), z3.IntVal(0)), "result is the first element or null")


def g_last(m, s):
    ret = yield
    m.pure(tb(m.val(ret)) == Ite(s.n > 0, s.addr(s.n - 1), z3.IntVal(0)), "result is the last element or null")


def g_empty(m, s):
    ret = yield
    m.pure((m.ex.truth(m.val(ret), I32)) == (s.n == 0), "empty exactly when the sequence is")


def g_size(m, s):
    ret = yield
    m.pure(m.val(ret) == s.n, "size")


def g_get(m, s, value):
    ret = yield
    v = tb(value)
    r = tb(m.val(ret))
    ex = m.ex
    if m.assuming:
        raise Limit("list_get contract used by a caller")
    if ex.branch(r == 0):
        m.forall(lambda i: Implies(And(i >= 0, i < s.n), s.val(i) != v), "null only if no element has the value")
    else:
        k = ex.ghost["found"]
        m.pure(And(k >= 0, k < s.n, s.addr(k) == r, s.val(k) == v), "result is an element with the value")
        m.forall(lambda i: Implies(And(i >= 0, i < k), s.val(i) != v), "result is the first such element")


def g_by_index(m, s, idx):
    m.pure(s.n < (1 << 31), "fewer than 2^31 elements")
    ret = yield
    r = tb(m.val(ret))
    m.pure(r == Ite(And(idx >= 0, idx < s.n), s.addr(idx), z3.IntVal(0)), "result is the element at the index or null")


def inv_walk(m):
    """element stands at position i of the sequence"""
    e = tb(m.var("element"))
    s = m.once("seq", lambda: seq_of(m))
    first, last = m.once("ends", lambda: ends_of(m))
    i = m.ghost("pos", z3.IntVal(0))
    return e, i


def elem_pre(m, p):
    """an element on its own: read access to its three fields"""
    return m.obj(p, "struct list_elem")


def elem_get(field):
    def spec(m, element):
        v = m.obj(element, "struct list_elem")
        ret = yield
        m.obj(element, "struct list_elem", **v.f)
        m.ret_is(ret, v[field], "result is the " + field + " link" if field != "value" else "result is the value")
    return spec


def m_append(m, list_, value):
    s = list_pre(m, list_)
    ret = yield
    post(m, list_, insert(s, s.n, tb(m.val(ret)), tb(value)))


def m_prepend(m, list_, value):
    s = list_pre(m, list_)
    ret = yield
    post(m, list_, insert(s, z3.IntVal(0), tb(m.val(ret)), tb(value)))


def m_insert_before(m, list_, value, nxt):
    s = list_pre(m, list_)
    k = member(m, nxt, s)
    ret = yield
    post(m, list_, insert(s, k, tb(m.val(ret)), tb(value)))


def m_remove(m, list_, element):
    s = list_pre(m, list_)
    k = member(m, element, s)
    yield
    post(m, list_, delete(s, k))


def m_pop(last):
    def spec(m, list_):
        s = list_pre(m, list_)
        ret = yield
        r = tb(m.val(ret))
        if m.ex.branch(s.n > 0):
            k = s.n - 1 if last else z3.IntVal(0)
            m.pure(r == s.val(k), "result is the value taken out")
            post(m, list_, delete(s, k))
        else:
            m.pure(r == 0, "result is null")
            post(m, list_, s)
    return spec


def whole(m, s_now, key="s0"):
    return m.once(key, lambda: s_now)


def loop_destroy(m):
    e = tb(m.var("element"))
    first = m.once("last", lambda: None)
    s, = m.pred("dll", e, m.fresh("pr") if m.assuming else ANY,
                m.fresh("l") if m.assuming else ANY, z3.IntVal(0))
    m.decreases(s.n)


def loop_get(m):
    ex = m.ex
    e = tb(m.var("element"))
    value = tb(ex.argv[1])
    walk(m, e)
    done, s, i = m.gh["done"], m.gh["s"], m.gh["i"]
    m.forall(lambda j: Implies(And(j >= 0, j < i), s.val(j) != value), "no earlier element has the value")
    if m.assuming:
        ex.ghost["found"] = i
    m.decreases(s.n - i)


def walk(m, e):
    """the whole list is [0, i) before e and [i, n) from e on"""
    ex = m.ex
    if "all" not in m.gh:
        # on entry: the whole list sits in one segment
        c = [c for c in ex.chunks if isinstance(c, Pred) and c.name == "dll" and not c.frozen]
        s0 = None
        v = None
        for ch in ex.chunks:
            if isinstance(ch, Mem) and ch.ty.k == "struct" and ch.ty.name in ("struct list",):
                v = ch.val
                break
        if v is None:
            raise Limit("no list in reach")
        m.gh["all"] = (tb(v["first"]), tb(v["last"]))
    f, l = m.gh["all"]
    if m.assuming:
        i = m.fresh("i")
        s = m.gh["s"]
        mid = ex.freshbase("mid")
        ex.assume(And(i >= 0, i <= s.n))
        ex.index_term(i)
        ex.assume(Implies(i < s.n, s.addr(i) == e))
        d = ex.ver.preds["dll"]
        d.put(ex, f, z3.IntVal(0), mid, e, sub(s, z3.IntVal(0), i))
        d.put(ex, e, mid, l, z3.IntVal(0), sub(s, i, s.n - i))
        m.gh["i"] = i
        m.gh["done"] = None
        return
    z = z3.IntVal(0)
    if "s" not in m.gh:
        s, = m.pred("dll", f, z, l, z)
        m.gh["s"] = s
        m.gh["i"] = z
        m.gh["done"] = None
        m.pure(e == f, "the walk starts at the first element")
        return
    # back edge: reassemble the part before e, then the rest
    d = ex.ver.preds["dll"]
    a, = m.pred("dll", f, z, ANY, e)
    b, = m.pred("dll", e, ANY, l, z)
    s = m.gh["s"]
    m.gh["i"] = a.n
    seq_eq(m, concat(a, b), s, "sequence unchanged by the walk")


def loop_index(m):
    ex = m.ex
    e = tb(m.var("element"))
    walk(m, e)
    s, i = m.gh["s"], m.gh["i"]
    m.pure(m.var("i") == i, "counter is the position")
    idx = ex.argv[1]
    m.pure(Implies(idx >= 0, i <= idx), "the index lies ahead")
    m.decreases(s.n - i)


def loop_foreach(m):
    ex = m.ex
    e = tb(m.var("e"))
    walk(m, e)
    s, i = m.gh["s"], m.gh["i"]
    if m.assuming:
        ex.ghost["calls"] = i
    else:
        m.pure(ex.ghost.get("calls", z3.IntVal(0)) == i, "one call per element passed")
    ex.ghost["foreach"] = s
    m.decreases(s.n - i)


def loop_copy(m):
    """copy holds the elements passed so far"""
    ex = m.ex
    e = tb(m.var("e"))
    arg = ex.ghost["made"]
    if "s" not in m.gh:
        # the original's list object is the one named by the variable
        lst = ex.argv[0]
        for ch in ex.chunks:
            if isinstance(ch, Mem) and same(ch.base, lst.base):
                m.gh["all"] = (tb(ch.val["first"]), tb(ch.val["last"]))
    cp = None
    if not m.assuming:
        cp = list_pre(m, arg)
        walk(m, e)
    else:
        walk(m, e)
        cp = list_pre(m, arg)
    s, i = m.gh["s"], m.gh["i"]
    m.pure(cp.n == i, "the copy has one element per element passed")
    m.forall(lambda j: Implies(And(j >= 0, j < i), cp.val(j) == s.val(j)), "the copy has the same values in order")
    m.decreases(s.n - i)


def g_foreach(m, s, f, arg):
    m.pure(m.ex.nonnull(f), "callback given")
    m.ex.ghost["calls"] = z3.IntVal(0)
    m.ex.ghost["cb"] = (f, arg)
    m.ex.ghost["foreach"] = s
    yield
    m.pure(m.ex.ghost["calls"] == s.n, "the callback is called once per element")


def m_copy(m, list_):
    s = list_pre(m, list_)
    ret = yield
    post(m, list_, s)
    t = list_pre(m, ret)
    m.pure(t.n == s.n, "copy has the same length")
    m.forall(lambda i: Implies(And(i >= 0, i < s.n), t.val(i) == s.val(i)), "copy has the same values in order")


def indirect(ex, f, args, rty):
    """the foreach callback: called with the element's value, in order"""
    cb = ex.ghost.get("cb")
    if cb is None:
        raise Limit("indirect call")
    ex.prove(ex.ptr_eq(f, cb[0]), "the given callback is called", kind="post")
    ex.prove(ex.ptr_eq(args[1], cb[1]), "the callback gets the given argument", kind="post")
    n = ex.ghost["calls"]
    ex.prove(tb(args[0]) == ex.ghost["foreach"].val(n), "the callback gets the values in order", kind="post")
    ex.ghost["calls"] = n + 1
    return None


C = Contract
CONTRACTS = {c.name: c for c in [
    C("make_list", make_list),
    C("destroy_list", destroy_list, {0: LoopSpec(loop_destroy, {"element": "ptr"})}),
    C("list_elem_get_value", elem_get("value")),
    C("list_next", elem_get("next")),
    C("list_previous", elem_get("previous")),
    C("list_get_first", read_only(g_first)),
    C("list_get_last", read_only(g_last)),
    C("list_get", read_only(g_get), {0: LoopSpec(loop_get, {"element": "ptr"})}),
    C("list_get_by_index", read_only(g_by_index), {0: LoopSpec(loop_index, {"element": "ptr", "i": "int"})}),
    C("list_append", m_append),
    C("list_prepend", m_prepend),
    C("list_insert_before", m_insert_before),
    C("list_remove", m_remove),
    C("list_pop_first", m_pop(False)),
    C("list_pop_last", m_pop(True)),
    C("list_empty", read_only(g_empty)),
    C("list_size", read_only(g_size)),
    C("list_foreach", read_only(g_foreach), {0: LoopSpec(loop_foreach, {"e": "ptr"})}),
    C("list_copy", m_copy, {0: LoopSpec(loop_copy, {"e": "ptr"})}),
]}
# small accessors are inlined into their callers; these contracts are used at calls
MODULAR = {"list_append", "make_list"}


def verifier():
    u = Unit(src("list.c"))
    return Verifier([u], CONTRACTS, {"dll": Dll()}, builtins=libc.BUILTINS, indirect=indirect,
                    inline=set(CONTRACTS) - MODULAR)


FUNCS = list(CONTRACTS)
