"""Contracts of priority_queue.c.

The queue is an array S[0..n) with the heap order.  cmp() is any total
preorder, given by rank: element -> real.  x0 is an arbitrary element: its
number of occurrences stands for the whole multiset (C07); last is the locator
most recently reported for it (C08)."""
from slv import *
import libc

I = z3.IntSort()
rank = z3.Function("rank", I, z3.RealSort())
X0 = z3.Int("x0")
MAXN = ((1 << 63) - 1) // 8


def tb(p):
    b = p.base if isinstance(p, P) else p
    return b if isz(b) else z3.IntVal(b)


def par(m, i):
    """parent slot, as a pair (q, definition)"""
    return (i - 1) / 2


def heap_at(S, i, n):
    return Implies(And(i >= 1, i < n), rank(S((i - 1) / 2)) <= rank(S(i)))


class Q:
    pass


def own(m, p, c8=False):
    ex = m.ex
    v = m.obj(p, "struct priorq")
    q = Q()
    q.n, q.max, q.storage = v["capacity"], v["max_capacity"], v["storage"]
    q.cmp, q.reloc, q.obj, q.v = v["cmp"], v["reloc"], v["obj"], v
    if m.assuming:
        m.pure(And(q.n <= q.max, q.max <= MAXN))
        m.pure(ex.nonnull(q.cmp))
        m.pure(ex.nonnull(q.reloc))
        m.pure((q.max == 0) == (tb(q.storage) == 0))
    else:
        m.pure(q.n <= q.max, "size within the capacity")
        m.pure(ex.nonnull(q.cmp), "comparator set")
        m.pure(ex.nonnull(q.reloc), "relocation callback set")
        m.pure(Implies(q.max > 0, tb(q.storage) != 0), "storage allocated")
    ex.ghost["q"] = q
    if ex.ver.c8 and "last" not in ex.ghost:
        ex.ghost["last"] = ex.ghost["last0"] = m.fresh("last")
    if not m.split(q.max > 0):
        q.get = lambda i: P(0)
        q.cnt = z3.IntVal(0)
        return q
    a = m.arr(q.storage, VOIDP, n=q.max, exact=False, defd=lambda i: i < q.n)
    q.get = a.get
    q.cnt = a.agg(q.n)
    S = lambda i: tb(a.get(i))
    for t in (z3.IntVal(0), q.n, q.n - 1):
        ex.index_term(t)
    if True:
        m.forall(lambda i: heap_at(S, i, q.n), "heap order")
        if m.assuming:
            # lemma root-is-minimal (proved by induction in lemmas())
            ex.add_lazy(lambda i: Implies(And(i >= 0, i < q.n), rank(S(z3.IntVal(0))) <= rank(S(i))))
    if ex.ver.c8:
        m.forall(lambda i, j: Implies(And(i >= 0, j >= 0, i < q.n, j < q.n, S(i) == X0, S(j) == X0), i == j),
                 "elements stay distinct", 2)
        if m.assuming:
            ex.ghost["last"] = m.fresh("last")
            ex.ghost.setdefault("last0", ex.ghost["last"])
        m.forall(lambda i: Implies(And(i >= 0, i < q.n, S(i) == X0), ex.ghost["last"] == i),
                 "the last reported locator denotes the element")
    q.S = S
    return q


def same_config(m, q, o):
    for k in ("cmp", "reloc", "obj"):
        m.eq(getattr(q, k), getattr(o, k), k + " unchanged")


def changed(m, p, o, dn, dcnt):
    q = own(m, p)
    same_config(m, q, o)
    m.pure(q.n == o.n + dn, "size changes by %d" % dn)
    m.pure(q.cnt == o.cnt + dcnt, "the multiset changes by just that element")
    return q


def is0(v):
    return z3.If(tb(v) == X0, z3.IntVal(1), z3.IntVal(0))


def s_make2(m, cmp, reloc, obj):
    m.pure(m.ex.nonnull(cmp), "comparator given")
    ret = yield
    q = own(m, ret)
    m.pure(q.n == 0, "a new queue is empty")
    m.eq(q.cmp, cmp, "comparator stored")
    m.eq(q.obj, obj, "context stored")
    if m.split(m.ex.nonnull(reloc)):
        m.eq(q.reloc, reloc, "relocation callback stored")
    else:
        harmless(m, q.reloc)


def s_make(m, cmp, reloc):
    m.pure(m.ex.nonnull(cmp), "comparator given")
    ret = yield
    q = own(m, ret)
    m.pure(q.n == 0, "a new queue is empty")
    m.eq(q.cmp, cmp, "comparator stored")
    if m.split(m.ex.nonnull(reloc)):
        m.eq(q.reloc, reloc, "relocation callback stored")
    else:
        harmless(m, q.reloc)


def harmless(m, f):
    """without a callback the stand-in must do nothing: run it"""
    name = str(f.base)
    if not name.startswith("fn:"):
        m.pure(False, "a stand-in callback is set")
        return
    ex = m.ex
    ex.call(name[3:], [P(ex.freshbase("e")), P(ex.freshbase("l")), P(ex.freshbase("o"))], [VOIDP] * 3, T("void"))


def s_destroy(m, prq):
    own(m, prq)
    yield


def s_enqueue(m, prq, value):
    o = own(m, prq)
    if m.ex.ver.c8:
        # distinct elements
        m.pure(Implies(tb(value) == X0, True))
        if o.max is not None and hasattr(o, "S"):
            m.forall(lambda i: Implies(And(i >= 0, i < o.n, o.S(i) == X0), tb(value) != X0), "elements are distinct")
    yield
    changed(m, prq, o, 1, is0(value))


def s_size(m, prq):
    o = own(m, prq)
    ret = yield
    changed(m, prq, o, 0, 0)
    m.pure(m.val(ret) == o.n, "size")


def s_empty(m, prq):
    o = own(m, prq)
    ret = yield
    changed(m, prq, o, 0, 0)
    m.pure(m.ex.truth(m.val(ret), BOOL) == (o.n == 0), "empty exactly when the size is zero")


def s_peek(m, prq):
    o = own(m, prq)
    ret = yield
    r = tb(m.val(ret))
    changed(m, prq, o, 0, 0)
    if m.split(o.n > 0):
        m.forall(lambda i: Implies(And(i >= 0, i < o.n), rank(r) <= rank(o.S(i))),
                 "no queued element precedes the result")
        member(m, o, r)
    else:
        m.pure(r == 0, "null when empty")


def member(m, o, r):
    # the result is queued: some slot holds it; candidates are the ends and the asked slot
    cands = [z3.IntVal(0), o.n - 1] + m.ex.ghost.get("slots", [])
    m.pure(Or(*[And(k >= 0, k < o.n, o.S(k) == r) for k in cands]), "the result is a queued element")


def s_dequeue(m, prq):
    o = own(m, prq)
    ret = yield
    r = tb(m.val(ret))
    if m.split(o.n > 0):
        m.forall(lambda i: Implies(And(i >= 0, i < o.n), rank(r) <= rank(o.S(i))),
                 "no queued element precedes the result")
        member(m, o, r)
        changed(m, prq, o, -1, -is0(r))
    else:
        m.pure(r == 0, "null when empty")
        changed(m, prq, o, 0, 0)


def s_pop(m, prq):
    o = own(m, prq)
    ret = yield
    r = tb(m.val(ret))
    if m.split(o.n > 0):
        member(m, o, r)
        changed(m, prq, o, -1, -is0(r))
    else:
        m.pure(r == 0, "null when empty")
        changed(m, prq, o, 0, 0)


def s_remove(m, prq, loc):
    o = own(m, prq)
    slot = tb(loc)
    m.pure(And(slot >= 0, slot < o.n), "a current locator")
    m.ex.index_term(slot)
    m.ex.ghost["slots"] = [slot]
    ret = yield
    r = tb(m.val(ret))
    m.pure(r == o.S(slot), "the element at the locator is returned")
    if m.ex.ver.c8:
        if m.assuming:
            raise Limit("contract used by a caller")
        m.pure(Implies(And(slot == m.ex.ghost["last0"], o.S(slot) == X0), r == X0), "removing by the last locator returns that element")
    changed(m, prq, o, -1, -is0(r))


# ------------------------------------------------------------------- loops

def storage_chunk(m):
    ex = m.ex
    prq = ex.argv[0]
    for c in ex.chunks:
        if isinstance(c, Mem) and c.ty.k == "struct" and same(c.base, prq.base):
            return c.val
    raise Limit("queue structure not in reach")


def array(m, v):
    """the storage in the loop: any contents, initialised below n and not
    necessarily at the hole"""
    n, mx = v["capacity"], v["max_capacity"]
    slot = m.var("slot")
    if m.assuming:
        a = m.arr(v["storage"], VOIDP, n=m.gh["size"], defd=lambda i: Or(And(i < n, i != slot), And(i < m.gh["hi"])))
        return a
    c = m.ex.find(tb(v["storage"]), "storage")
    if isinstance(c, Raw):
        c = m.ex.typed(c, VOIDP)
    if "size" not in m.gh:
        m.gh["size"] = c.val.n
        m.gh["hi"] = z3.If(And(slot < n), z3.IntVal(0), n)
    return m.arr(v["storage"], VOIDP, n=m.gh["size"], defd=lambda i: Or(And(i < n, i != slot), And(i < m.gh["hi"])))


def common_inv(m, order):
    ex = m.ex
    v = storage_chunk(m)
    n = v["capacity"]
    slot = m.var("slot")
    value = tb(m.var("value"))
    a = array(m, v)
    S = lambda i: tb(a.get(i))
    for t in (slot, (slot - 1) / 2, n - 1, n, 2 * slot + 1, 2 * slot + 2):
        ex.index_term(t)
    m.pure(And(slot >= 0, slot < m.gh["size"]), "hole within the storage")
    m.pure(slot <= n, "hole within the heap")
    if "slot0" not in m.gh:
        m.gh["slot0"] = slot
        m.gh["value"] = value
    slot0 = m.gh["slot0"]
    m.pure(Implies(slot0 < n, slot < n), "the hole stays in the heap")
    cntB = a.agg(n) + z3.If(slot < n, is0(value) - is0(S(slot)), z3.IntVal(0))
    if "cnt" not in m.gh:
        m.gh["cnt"] = cntB
    m.pure(cntB == m.gh["cnt"], "the multiset with the value in the hole is unchanged")
    if ex.ver.c8:
        B = lambda i: z3.If(i == slot, value, S(i))
        m.forall(lambda i, j: Implies(And(i >= 0, j >= 0, i < n, j < n, B(i) == X0, B(j) == X0), i == j),
                 "elements stay distinct", 2)
        if m.assuming:
            ex.ghost["last"] = m.fresh("last")
        L = ex.ghost["last"]
        m.forall(lambda i: Implies(And(i >= 0, i < n, i != slot, S(i) == X0), L == i), "locators are up to date")
        m.pure(Implies(And(slot0 >= n, slot != slot0), False), "a hole outside the heap stays put")
    order(m, S, n, slot, slot0, value)


def order_raise(m, S, n, slot, slot0, value):
    p = (slot - 1) / 2
    m.forall(lambda i: Implies(And(i >= 1, i < n, i != slot, (i - 1) / 2 != slot), rank(S((i - 1) / 2)) <= rank(S(i))),
             "heap order away from the hole")
    m.forall(lambda i: Implies(And(i >= 1, i < n, (i - 1) / 2 == slot, slot > 0), rank(S(p)) <= rank(S(i))),
             "the hole's parent precedes its children")
    m.forall(lambda i: Implies(And(i >= 1, i < n, (i - 1) / 2 == slot, slot != slot0), rank(value) <= rank(S(i))),
             "the value precedes the hole's children once it has moved")
    m.pure(Implies(And(slot >= n, slot > 0), rank(S(p)) <= rank(value)), "a value beyond the end stays put")


def order_lower(m, S, n, slot, slot0, value):
    p = (slot - 1) / 2
    m.forall(lambda i: Implies(And(i >= 1, i < n, i != slot, (i - 1) / 2 != slot), rank(S((i - 1) / 2)) <= rank(S(i))),
             "heap order away from the hole")
    m.forall(lambda i: Implies(And(i >= 1, i < n, (i - 1) / 2 == slot, slot > 0), rank(S(p)) <= rank(S(i))),
             "the hole's parent precedes its children")
    m.pure(Implies(And(slot > 0, slot < n), rank(S(p)) <= rank(value)), "the hole's parent precedes the value")


def inv_raise(m):
    common_inv(m, order_raise)
    m.decreases(m.var("slot"))


def inv_lower(m):
    common_inv(m, order_lower)
    v = storage_chunk(m)
    m.decreases((1 << 62) - m.var("slot"))


def inv_grow(m):
    n = m.var("n")
    v = storage_chunk(m)
    m.pure(And(n >= 1, n < 2 * (v["capacity"] + 1)), "new capacity bounded")
    m.decreases((1 << 64) - n)


def indirect(ex, f, args, rty):
    q = ex.ghost.get("q")
    if q is None:
        raise Limit("indirect call")
    if same(f.base, q.cmp.base) or ex.entails(f.base == q.cmp.base):
        ex.prove(ex.ptr_eq(args[2], q.obj), "the comparator gets the context", kind="post")
        a, b = rank(tb(args[0])), rank(tb(args[1]))
        r = ex.A.fresh("cmp", I32)
        ex.assume(And((r < 0) == (a < b), (r == 0) == (a == b)))
        return r
    if same(f.base, q.reloc.base) or ex.entails(f.base == q.reloc.base):
        ex.prove(ex.ptr_eq(args[2], q.obj), "the relocation callback gets the context", kind="post")
        if ex.ver.c8:
            ex.ghost["last"] = z3.If(tb(args[0]) == X0, tb(args[1]), ex.ghost["last"])
        return None
    ex.prove(False, "only the given callbacks are called", kind="post")


def p2i(ex, v, to):
    if v.path:
        raise Limit("pointer to integer")
    if isz(v.base):
        ex.assume_once(v.base < (1 << 63))
    return v.base


C = Contract
R = lambda: LoopSpec(inv_raise, {"slot": "int", "value": "ptr"})
L = lambda: LoopSpec(inv_lower, {"slot": "int", "value": "ptr"})
CONTRACTS = {c.name: c for c in [
    C("make_priority_queue_2", s_make2),
    C("make_priority_queue", s_make),
    C("destroy_priority_queue", s_destroy),
    C("priorq_enqueue", s_enqueue, {0: LoopSpec(inv_grow, {"n": "int"}), 1: R()}),
    C("priorq_size", s_size),
    C("priorq_empty", s_empty),
    C("priorq_peek", s_peek),
    C("priorq_dequeue", s_dequeue, {0: L()}),
    C("priorq_pop", s_pop),
    C("priorq_remove", s_remove, {0: R(), 1: L()}),
]}


def verifier(c8=False):
    v = Verifier([Unit(src("priority_queue.c"))], CONTRACTS, {}, builtins=libc.BUILTINS, indirect=indirect,
                 inline=set(CONTRACTS), agg=Counter(X0), ptr_to_int=p2i)
    v.c8 = c8
    return v


def verifier8():
    return verifier(True)


def lemmas():
    S = z3.Function("S", I, I)
    n, i, j = z3.Ints("n i j")
    q = z3.Int("q")
    # strong induction: all smaller indices are at least the root
    claim = lambda k: rank(S(0)) <= rank(S(k))
    hyp = z3.And(i >= 0, i < n, z3.Implies(i >= 1, z3.And(i - 1 == 2 * q + (i - 1) % 2, rank(S((i - 1) / 2)) <= rank(S(i)))),
                 z3.Implies(z3.And((i - 1) / 2 >= 0, (i - 1) / 2 < i), claim((i - 1) / 2)))
    return [("the root of a heap is minimal (strong induction on the slot)", z3.Implies(hyp, claim(i)))] + Counter.lemmas()


FUNCS = list(CONTRACTS)
