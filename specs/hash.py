"""Contracts of hashtable.c.

Keys fall into classes kc(key); cmp() tells classes apart and hash() depends on
the class only.  A table is a family of bucket sequences; every element sits in
the bucket its hash selects and no two elements of a bucket are equal."""
from slv import *
import libc

I = z3.IntSort()
KC = z3.Function("key_class", I, I)
H = z3.Function("hash_of_class", I, I)
ATTRS = ("addr", "val", "key", "value")
ANY = object()
Z = z3.IntVal(0)
ELEM = T("struct", name="struct hash_elem")
LELEM = T("struct", name="struct list_elem")
LIST = T("struct", name="struct list")


def tb(p):
    b = p.base if isinstance(p, P) else p
    return b if isz(b) else z3.IntVal(b)


class HSeq:
    """n elements; at(j) = dict of list cell, element, key and value"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def get(self, a, j):
        return self.at(j)[a]


def ite(c, x, y):
    return {a: Ite(c, x[a], y[a]) for a in x}


def empty_seq():
    return HSeq(Z, lambda j: {a: Z for a in ATTRS})


def sub(s, lo, n):
    return HSeq(n, lambda j: s.at(lo + j))


def concat(a, b):
    return HSeq(z3.simplify(a.n + b.n), lambda j: ite(j < a.n, a.at(j), b.at(j - a.n)))


def delete(s, k):
    return HSeq(s.n - 1, lambda j: ite(j < k, s.at(j), s.at(j + 1)))


def insert(s, k, e):
    return HSeq(s.n + 1, lambda j: ite(j < k, s.at(j), ite(j == k, e, s.at(j - 1))))


class HSeg(PredDef):
    """hseg(first, before, last, after, table, index; seq): list cells with
    the hash elements they hold"""
    name = "hseg"

    def roots(self, ex, c):
        s = c.outs[0]
        return [(c.ins[0], s.n > 0), (c.ins[2], s.n > 0)]

    def facts(self, ex, ins, outs, piece=False):
        f, pr, l, nx, t, ix = ins
        s = outs[0]
        ex.assume(And(s.n >= 0, s.n < (1 << 62)))
        ex.assume((s.n == 0) == (f == nx))
        ex.assume((s.n == 0) == (l == pr))
        ex.assume(Implies(s.n > 0, And(f == s.get("addr", Z), l == s.get("addr", s.n - 1), f != 0, l != 0)))
        ex.assume((s.n == 1) == And(s.n > 0, f == l))
        ex.add_lazy(lambda j: Implies(And(j >= 0, j < s.n), And(s.get("addr", j) != 0, s.get("val", j) != 0)))

    def put(self, ex, ins, s, frozen=0):
        c = Pred("hseg", ins, (s,))
        c.frozen = frozen
        ex.add_chunk(c)
        self.facts(ex, ins, (s,), True)

    def split_at(self, ex, c, k, at):
        f, pr, l, nx, t, ix = c.ins
        s = c.outs[0]
        ex.remove(c)
        n1, n2 = ex.freshbase("prev"), ex.freshbase("next")
        k = k if isz(k) else z3.IntVal(k)
        ex.assume(at != 0)
        if ex.branch(k == 0):
            ex.assume(And(n1 == pr, at == f))
        else:
            self.put(ex, (f, pr, n1, at, t, ix), sub(s, Z, k), c.frozen)
        if ex.branch(k == s.n - 1):
            ex.assume(And(n2 == nx, at == l))
        else:
            self.put(ex, (n2, at, l, nx, t, ix), sub(s, k + 1, s.n - k - 1), c.frozen)
        e = s.at(k)
        ch = Mem(at, LELEM, StructVal({"value": P(e["val"]), "previous": P(n1), "next": P(n2)}), True)
        ch.frozen = c.frozen
        ex.add_chunk(ch)
        ch = Mem(e["val"], ELEM, StructVal({"hash_table": P(t), "list_index": ix, "loc": P(at),
                                            "key": P(e["key"]), "value": P(e["value"])}), True)
        ch.frozen = c.frozen
        ex.add_chunk(ch)

    def open(self, ex, c, base):
        s = c.outs[0]
        if ex.branch(base == c.ins[0]):
            self.split_at(ex, c, Z, base)
        else:
            self.split_at(ex, c, s.n - 1, base)

    def claims(self, ex, c, base):
        s = c.outs[0]
        for b, i, k in ex.ghost.get("member", []):
            if same(b, base) and ex.entails(And(k >= 0, k < s.n, s.get("val", k) == b)):
                self.split_at(ex, c, k, s.get("addr", k))
                return True
        return False

    def open_inside(self, ex, c, base):
        s = c.outs[0]
        for b, i, k in ex.ghost.get("member", []):
            e = And(k >= 0, k < s.n, s.get("val", k) == b, Or(b == base, s.get("addr", k) == base))
            if ex.entails(e):
                self.split_at(ex, c, k, s.get("addr", k))
                return True
        return False

    def empty(self, ex, c):
        return ex.entails(c.outs[0].n == 0)

    def consume(self, m, ins):
        """collect segments and single cells from first to after"""
        ex = m.ex
        f, pr, l, nx, t, ix = ins
        cur, curpr = f, pr
        acc = None
        for _ in range(14):
            if ex.branch(cur == nx):
                break
            hit = None
            for c in ex.chunks:
                if isinstance(c, Pred) and c.name == "hseg" and not c.frozen:
                    if same(c.ins[0], cur) or ex.entails(c.ins[0] == cur):
                        hit = c
                        break
            if hit is not None:
                c = hit
                if not ex.branch(c.outs[0].n > 0):
                    ex.remove(c)
                    continue
                if curpr is not ANY:
                    m.pure(c.ins[1] == curpr, "segment is linked backwards")
                m.pure(And(c.ins[4] == t, c.ins[5] == ix), "elements belong to this bucket")
                ex.remove(c)
                acc = c.outs[0] if acc is None else concat(acc, c.outs[0])
                cur, curpr = c.ins[3], c.ins[2]
                continue
            c = ex.find(cur, m.label + ": list cell")
            if isinstance(c, Raw):
                c = ex.typed(c, LELEM)
            if c.ty.k != "struct" or c.ty.name != LELEM.name:
                raise Limit("list cell expected")
            m._notfrozen(c)
            ex.remove(c)
            v = c.val.f
            for k in ("value", "previous", "next"):
                if v[k] is UNINIT:
                    ex.prove(False, m.label + ": field %s is set" % k, kind="post")
            if curpr is not ANY:
                m.pure(tb(v["previous"]) == curpr, "previous link")
            ev = tb(v["value"])
            h = ex.find(ev, m.label + ": hash element")
            if isinstance(h, Raw):
                h = ex.typed(h, ELEM)
            if h.ty.k != "struct" or h.ty.name != ELEM.name:
                raise Limit("hash element expected")
            m._notfrozen(h)
            ex.remove(h)
            hv = h.val.f
            for k in hv:
                if hv[k] is UNINIT:
                    ex.prove(False, m.label + ": field %s is set" % k, kind="post")
            m.pure(tb(hv["hash_table"]) == t, "element refers to its table")
            m.pure(hv["list_index"] == ix, "element records its bucket")
            m.pure(tb(hv["loc"]) == c.base, "element records its list cell")
            e = {"addr": tb(c.base), "val": ev, "key": tb(hv["key"]), "value": tb(hv["value"])}
            one = HSeq(z3.IntVal(1), lambda j, e=e: e)
            acc = one if acc is None else concat(acc, one)
            cur, curpr = tb(v["next"]), c.base
        else:
            raise Limit("segment too fragmented")
        if acc is None:
            acc = empty_seq()
            if curpr is ANY:
                curpr = None
        if l is not ANY and curpr is not None:
            m.pure(l == curpr, "last cell")
        return (acc,)


class DllPlain(PredDef):
    """plain(first, after; n): list cells whose elements are gone"""
    name = "plain"

    def roots(self, ex, c):
        return [(c.ins[0], c.outs[0] > 0)]

    def fresh_outs(self, ex):
        return (ex.freshint("n"),)

    def facts(self, ex, ins, outs):
        ex.assume(And(outs[0] >= 0, (outs[0] == 0) == (ins[0] == ins[1]), Implies(outs[0] > 0, ins[0] != 0)))

    def open(self, ex, c, base):
        f, nx = c.ins
        n = c.outs[0]
        ex.remove(c)
        n2 = ex.freshbase("next")
        if ex.branch(n == 1):
            ex.assume(n2 == nx)
        else:
            p = Pred("plain", (n2, nx), (n - 1,))
            p.frozen = c.frozen
            ex.add_chunk(p)
            self.facts(ex, p.ins, p.outs)
        ch = Mem(base, LELEM, StructVal({"value": P(ex.freshbase("v")), "previous": P(ex.freshbase("p")), "next": P(n2)}), True)
        ch.frozen = c.frozen
        ex.add_chunk(ch)

    def empty(self, ex, c):
        return ex.entails(c.outs[0] == 0)

    def consume(self, m, ins):
        ex = m.ex
        cur, nx = ins
        n = Z
        for _ in range(10):
            if ex.branch(cur == nx):
                return (z3.simplify(n),)
            hit = None
            for c in ex.chunks:
                if isinstance(c, Pred) and c.name == "plain" and not c.frozen and (same(c.ins[0], cur) or ex.entails(c.ins[0] == cur)):
                    hit = c
                    break
            if hit is not None:
                ex.remove(hit)
                n = n + hit.outs[0]
                cur = hit.ins[1]
                continue
            c = ex.find(cur, m.label + ": list cell")
            if c.ty.k != "struct" or c.ty.name != LELEM.name:
                raise Limit("list cell expected")
            m._notfrozen(c)
            ex.remove(c)
            n = n + 1
            cur = tb(c.val["next"])
        raise Limit("segment too fragmented")


class BK:
    """all buckets of a table"""

    def __init__(self, cap, ptr, seq, total, out=(), lo=None):
        self.lo = lo          # buckets below are gone
        self.cap, self.ptr, self.seq, self.total, self.out = cap, ptr, seq, total, tuple(out)


class Buckets(PredDef):
    """bks(table; BK): the lists and elements of every bucket"""
    name = "bks"

    def open_bucket(self, ex, c, i):
        b = c.outs[0]
        s = b.seq(i)
        nb = BK(b.cap, b.ptr, b.seq, b.total, b.out + (i,), b.lo)
        c.outs = (nb,)
        f, l = ex.freshbase("first"), ex.freshbase("last")
        ex.index_term(i)
        ch = Mem(b.ptr(i), LIST, StructVal({"first": P(f), "last": P(l), "size": s.n}), True)
        ch.frozen = c.frozen
        ex.add_chunk(ch)
        d = ex.ver.preds["hseg"]
        ins = (f, Z, l, Z, c.ins[0], i)
        p = Pred("hseg", ins, (s,))
        p.frozen = c.frozen
        ex.add_chunk(p)
        d.facts(ex, ins, (s,))

    def avail(self, b, i):
        return And(i >= 0, i < b.cap, i >= b.lo if b.lo is not None else True, *[i != o for o in b.out])

    def empty(self, ex, c):
        b = c.outs[0]
        return b.lo is not None and ex.entails(b.lo >= b.cap)

    def claims(self, ex, c, base):
        b = c.outs[0]
        for mb, i, k in ex.ghost.get("member", []):
            if same(mb, base) and not any(same(i, o) for o in b.out):
                if ex.entails(And(self.avail(b, i), b.ptr(i) != 0)):
                    self.open_bucket(ex, c, i)
                    return True
        for i in list(ex.terms):
            if same(b.ptr(i), base) and not any(same(i, o) for o in b.out):
                if ex.entails(And(self.avail(b, i), base != 0)):
                    self.open_bucket(ex, c, i)
                    return True
        return False

    def open_inside(self, ex, c, base):
        b = c.outs[0]
        ex.instantiate()
        for mb, i, k in ex.ghost.get("member", []):
            if any(same(i, o) for o in b.out):
                continue
            if ex.entails(And(mb == base, b.ptr(i) != 0, self.avail(b, i))):
                self.open_bucket(ex, c, i)
                return True
        for i in list(ex.terms):
            if any(same(i, o) for o in b.out):
                continue
            if ex.entails(And(b.ptr(i) == base, base != 0, self.avail(b, i))):
                self.open_bucket(ex, c, i)
                return True
        return False


def home(ex, key, cap):
    h = H(KC(key))
    ex.assume_once(And(h >= 0, h < (1 << 64)))
    ex.assume_once(And(h == UDIV(h, cap) * cap + UMOD(h, cap), UMOD(h, cap) >= 0, UMOD(h, cap) < cap, UDIV(h, cap) >= 0))
    return UMOD(h, cap)


class Tab:
    pass


def fresh_bk(m, cap):
    ex = m.ex
    II = (I, I, I)
    fs = {a: z3.Function(ex.nm(a), *II) for a in ATTRS}
    n = z3.Function(ex.nm("n"), I, I)
    ptr = z3.Function(ex.nm("bucket"), I, I)
    total = ex.freshint("total")

    def seq(i):
        ex.assume_once(And(n(i) >= 0, n(i) < (1 << 62), Implies(ptr(i) == 0, n(i) == 0), ptr(i) >= 0))
        return HSeq(n(i), lambda j: at(i, j))

    seen = {}

    def at(i, j):
        """element j of bucket i; looking at it brings its facts along"""
        j = z3.simplify(j) if isz(j) else z3.IntVal(j)
        e = {a: fs[a](i, j) for a in ATTRS}
        prev = seen.setdefault(i.get_id(), (i, []))[1]
        if not any(j.eq(q) for q in prev):
            ins = And(i >= 0, i < cap, j >= 0, j < n(i))
            ex.assume(Implies(ins, And(home(ex, e["key"], cap) == i, e["addr"] > 0, e["val"] > 0)))
            for q in prev:
                o = {a: fs[a](i, q) for a in ATTRS}
                ex.assume(Implies(And(ins, q >= 0, q < n(i), j != q),
                                  And(KC(e["key"]) != KC(o["key"]), e["addr"] != o["addr"], e["val"] != o["val"])))
            prev.append(j)
        return e

    def p(i):
        ex.assume_once(ptr(i) >= 0)
        return ptr(i)
    bk = BK(cap, p, seq, total)
    sum_facts(ex, bk)
    return bk


def sum_facts(ex, bk):
    """facts about a sum of non-negative numbers (lemmas())"""
    w = ex.freshint("w")
    ex.assume(And(bk.total >= 0, bk.total < (1 << 62)))       # every element occupies memory
    ex.assume(Implies(bk.total > 0, And(w >= 0, w < bk.cap, bk.seq(w).n > 0)))
    ex.index_term(w)
    ex.add_lazy(lambda i: Implies(And(i >= 0, i < bk.cap), And(bk.seq(i).n <= bk.total, bk.seq(i).n >= 0)))


def own(m, p):
    ex = m.ex
    v = m.obj(p, "struct hash_table")
    t = Tab()
    t.v = v
    t.cap, t.size, t.hash, t.cmp = v["capacity"], v["size"], v["hash"], v["cmp"]
    tbase = m.base(p)
    if m.assuming:
        m.pure(And(t.cap >= 1, t.cap <= ((1 << 63) - 1) // 8))
        m.pure(And(ex.nonnull(t.hash), ex.nonnull(t.cmp)))
        bk = fresh_bk(m, t.cap)
        a = m.arr(v["table"], VOIDP, n=t.cap, get=lambda i: P(bk.ptr(i)))
        ex.add_chunk(Pred("bks", (tbase,), (bk,)))
        m.pure(t.size == bk.total)
        t.bk = bk
        ex.ghost["tab"] = t
        return t
    m.pure(And(t.cap >= 1 if isz(t.cap) else t.cap >= 1), "at least one bucket")
    m.pure(And(ex.nonnull(t.hash), ex.nonnull(t.cmp)), "callbacks set")
    a = m.arr(v["table"], VOIDP, n=t.cap)
    chunk = None
    for c in ex.chunks:
        if isinstance(c, Pred) and c.name == "bks" and (same(c.ins[0], tbase) or ex.entails(c.ins[0] == tbase)):
            chunk = c
    if chunk is None:
        m.forall(lambda i: Implies(And(i >= 0, i < t.cap), tb(a.get(i)) == 0), "a new table's buckets are empty")
        bk = BK(t.cap, lambda i: Z, lambda i: empty_seq(), Z)
    else:
        m._notfrozen(chunk)
        ex.remove(chunk)
        bk = chunk.outs[0]
        # a bucket that was empty may have got a list
        outs = list(bk.out)
        for i in list(ex.ghost.get("touched", [])):
            if not any(same(i, o) for o in outs):
                if not any(ex.entails(i == o) for o in outs):
                    outs.append(i)
        base_bk = BK(bk.cap, bk.ptr, bk.seq, bk.total)
        for i in outs:
            base_bk = refold(m, base_bk, a, tbase, i, i in bk.out or any(same(i, o) for o in bk.out))
        fin = base_bk
        m.forall(lambda i: Implies(And(i >= 0, i < t.cap), tb(a.get(i)) == fin.ptr(i)), "bucket pointers")
        m.pure(fin.cap == t.cap, "capacity")
        bk = fin
    m.pure(t.size == bk.total, "size is the number of elements")
    t.bk = bk
    return t


def refold(m, bk, a, tbase, i, opened):
    ex = m.ex
    p = tb(a.get(i))
    ex.index_term(i)
    if not opened:
        # nothing was opened: the bucket had no list
        if ex.entails(p == bk.ptr(i)):
            return bk
        m.pure(bk.ptr(i) == 0, "a bucket's list is not lost")
    old = bk.seq(i)
    if ex.branch(p == 0):
        m.pure(And(old.n == 0) if opened else True, "no element is lost")
        new = empty_seq()
    else:
        v = m.obj(P(p), "struct list")
        new, = m.pred("hseg", tb(v["first"]), Z, tb(v["last"]), Z, tbase, i)
        m.pure(v["size"] == new.n, "the bucket's list size")
        m.forall(lambda j: Implies(And(j >= 0, j < new.n), home(ex, new.get("key", j), bk.cap) == i), "every element is in the bucket its hash selects")
        m.forall(lambda j, k: Implies(And(0 <= j, j < k, k < new.n), KC(new.get("key", j)) != KC(new.get("key", k))),
                 "no two elements of a bucket have equal keys", 2)

    def seq(j):
        if same(i, j):
            return new
        o = bk.seq(j)
        return HSeq(Ite(j == i, new.n, o.n), lambda q: ite(j == i, new.at(q), o.at(q)))
    return BK(bk.cap, lambda j: Ite(j == i, p, bk.ptr(j)), seq, bk.total + new.n - old.n)


def same_config(m, t, o):
    for k in ("hash", "cmp"):
        m.eq(t.v[k], o.v[k], k + " unchanged")
    m.pure(t.cap == o.cap, "capacity unchanged")


def unchanged(m, p, o):
    t = own(m, p)
    same_config(m, t, o)
    m.forall(lambda i: Implies(And(i >= 0, i < o.cap), t.bk.seq(i).n == o.bk.seq(i).n), "number of elements of every bucket")
    elements(m, t.bk, o.bk.seq, o.cap, "elements unchanged")
    m.pure(t.bk.total == o.bk.total, "size unchanged")


def elements(m, bk, want, cap, what, skip=None):
    for a in ("val", "key", "value"):
        def body(i, j, a=a):
            s, w = bk.seq(i), want(i)
            c = And(i >= 0, i < cap, j >= 0, j < w.n)
            if skip is not None:
                c = And(c, i != skip)
            return Implies(c, s.get(a, j) == w.get(a, j))
        m.forall(body, what + ": " + a, 2)


def other_buckets(m, t, o, b):
    """every bucket but b is as before"""
    m.forall(lambda i: Implies(And(i >= 0, i < o.cap, i != b), t.bk.seq(i).n == o.bk.seq(i).n), "other buckets: number of elements")
    elements(m, t.bk, o.bk.seq, o.cap, "other buckets", skip=b)


def bucket_is(m, t, b, wants):
    """bucket b holds one of the given sequences (they differ in order only)"""
    ex = m.ex
    got = t.bk.seq(b)
    j = ex.freshint("k")
    ex.index_term(j)

    def cond(w):
        return And(got.n == w.n, Implies(And(j >= 0, j < w.n), And(*[got.get(a, j) == w.get(a, j) for a in ("val", "key", "value")])))
    pick = wants[0]
    for w in wants:
        if ex.entails(cond(w)):
            pick = w
            break
    m.pure(got.n == pick.n, "bucket: number of elements")
    for a in ("val", "key", "value"):
        m.pure(Implies(And(j >= 0, j < pick.n), got.get(a, j) == pick.get(a, j)), "bucket contents: " + a)


def member(m, t, e):
    """e is element k of bucket i"""
    ex = m.ex
    i, k = m.fresh("bi"), m.fresh("bk")
    s = t.bk.seq(i)
    ex.assume(And(i >= 0, i < t.cap, k >= 0, k < s.n, s.get("val", k) == tb(e), t.bk.ptr(i) != 0, tb(e) != 0))
    ex.index_term(i)
    ex.index_term(k)
    ex.ghost.setdefault("member", []).append((tb(e), i, k))
    return i, k


# ---------------------------------------------------------------- contracts

def s_make(m, capacity, hash_, cmp):
    m.pure(And(m.ex.nonnull(hash_), m.ex.nonnull(cmp)), "callbacks given")
    ret = yield
    t = own(m, ret)
    m.pure(t.bk.total == 0, "a new table is empty")
    m.eq(t.v["hash"], hash_, "hash function stored")
    m.eq(t.v["cmp"], cmp, "comparator stored")
    m.forall(lambda i: Implies(And(i >= 0, i < t.cap), t.bk.seq(i).n == 0), "every bucket is empty")


def s_destroy(m, table):
    own(m, table)
    yield


def s_destroy_elem(m, e):
    m.obj(e, "struct hash_elem")
    yield


def elem_field(field):
    def spec(m, e):
        v = m.obj(e, "struct hash_elem")
        ret = yield
        m.obj(e, "struct hash_elem", **v.f)
        m.ret_is(ret, v[field], "result is the element's " + field)
    return spec


def s_size(m, table):
    o = own(m, table)
    ret = yield
    unchanged(m, table, o)
    m.pure(m.val(ret) == o.bk.total, "size is the number of elements")


def s_empty(m, table):
    o = own(m, table)
    ret = yield
    unchanged(m, table, o)
    m.pure(m.ex.truth(m.val(ret), I32) == (o.bk.total == 0), "empty exactly when there is no element")


def found(m, o, key):
    """position of the key's element in its bucket, or none"""
    return m.ex.ghost.get("at")


def s_get(m, table, key):
    o = own(m, table)
    ex = m.ex
    ret = yield
    r = tb(m.val(ret))
    b = home(ex, tb(key), o.cap)
    s = o.bk.seq(b)
    ex.index_term(b)
    if ex.branch(r == 0):
        absent(m, s, key)
    else:
        k = ex.ghost.get("at", Z)
        ex.index_term(k)
        m.pure(And(k >= 0, k < s.n, s.get("val", k) == r, KC(s.get("key", k)) == KC(tb(key))), "the result is the element with an equal key")
    unchanged(m, table, o)


def absent(m, s, key):
    m.forall(lambda j: Implies(And(j >= 0, j < s.n), KC(s.get("key", j)) != KC(tb(key))), "no element has an equal key")


def s_put(m, table, key, value):
    o = own(m, table)
    ex = m.ex
    b = home(ex, tb(key), o.cap)
    ex.ghost["touched"] = [b]
    ret = yield
    r = tb(m.val(ret))
    s = o.bk.seq(b)
    ex.index_term(b)
    k = ex.ghost.get("at", Z)
    present = And(k >= 0, k < s.n, KC(s.get("key", k)) == KC(tb(key)))
    here = ex.branch(present)
    if not here:
        absent(m, s, key)
        m.pure(r == 0, "nothing is handed back for a new key")
        t = own(m, table)
        same_config(m, t, o)
        got = t.bk.seq(b)
        alts = []
        for pos in (s.n, Z):
            e = {a: got.get(a, pos) for a in ATTRS}
            e["key"], e["value"] = tb(key), tb(value)
            alts.append(insert(s, pos, e))
        bucket_is(m, t, b, alts)
        other_buckets(m, t, o, b)
        return
    if ex.branch(s.get("value", k) == tb(value)):
        m.pure(r == 0, "putting the stored value again returns nothing")
        unchanged(m, table, o)
        return
    m.pure(r == s.get("val", k), "the replaced element is handed back")
    v = m.obj(P(r), "struct hash_elem")
    m.eq(v["key"], P(s.get("key", k)), "the replaced element's key")
    m.eq(v["value"], P(s.get("value", k)), "the replaced element's value")
    t = own(m, table)
    same_config(m, t, o)
    got = t.bk.seq(b)
    alts = []
    d = delete(s, k)
    for pos in (d.n, Z, k):
        e = {a: got.get(a, pos) for a in ATTRS}
        e["key"], e["value"] = tb(key), tb(value)
        alts.append(insert(d, pos, e))
    bucket_is(m, t, b, alts)
    other_buckets(m, t, o, b)


def taken_out(m, table, o, i, k):
    t = own(m, table)
    same_config(m, t, o)
    m.ex.index_term(i)
    bucket_is(m, t, i, [delete(o.bk.seq(i), k)])
    other_buckets(m, t, o, i)
    m.pure(t.bk.total == o.bk.total - 1, "size decreases by one")


def orphan(m, e, s, k):
    v = m.obj(P(tb(e)), "struct hash_elem")
    m.eq(v["key"], P(s.get("key", k)), "the element keeps its key")
    m.eq(v["value"], P(s.get("value", k)), "the element keeps its value")


def s_detach(m, table, e):
    o = own(m, table)
    i, k = member(m, o, e)
    yield
    orphan(m, e, o.bk.seq(i), k)
    taken_out(m, table, o, i, k)


def s_remove(m, table, e):
    o = own(m, table)
    i, k = member(m, o, e)
    yield
    taken_out(m, table, o, i, k)


def s_pop(m, table, key):
    o = own(m, table)
    ex = m.ex
    ret = yield
    r = tb(m.val(ret))
    b = home(ex, tb(key), o.cap)
    s = o.bk.seq(b)
    ex.index_term(b)
    if ex.branch(r == 0):
        absent(m, s, key)
        unchanged(m, table, o)
        return
    k = ex.ghost.get("at", Z)
    m.pure(And(k >= 0, k < s.n, s.get("val", k) == r, KC(s.get("key", k)) == KC(tb(key))), "the result is the element with an equal key")
    orphan(m, r, s, k)
    taken_out(m, table, o, b, k)


def first_from(m, o, ret, start, unchanged_too=True):
    """ret is the first element of the first non-empty bucket from start on"""
    ex = m.ex
    r = tb(m.val(ret))
    i = ex.ghost.get("scan", start)
    ex.index_term(i)
    if ex.branch(r == 0):
        m.forall(lambda j: Implies(And(j >= start, j < o.cap), o.bk.seq(j).n == 0), "null only if no element is left")
        return None
    m.forall(lambda j: Implies(And(j >= start, j < i), o.bk.seq(j).n == 0), "no element is skipped")
    s = o.bk.seq(i)
    m.pure(And(i >= start, i < o.cap, s.n > 0, s.get("val", Z) == r), "the result is the next element")
    return i


def s_get_any(m, table):
    o = own(m, table)
    ret = yield
    first_from(m, o, ret, Z)
    unchanged(m, table, o)


def s_get_other(m, e):
    ex = m.ex
    table = P(ex.freshbase("table"))
    o = own(m, table)
    i, k = member(m, o, e)
    ret = yield
    s = o.bk.seq(i)
    ex.index_term(k + 1)
    if ex.branch(k + 1 < s.n):
        m.pure(tb(m.val(ret)) == s.get("val", k + 1), "the result is the next element of the bucket")
    else:
        first_from(m, o, ret, i + 1)
    unchanged(m, table, o)


def s_pop_any(m, table):
    o = own(m, table)
    ret = yield
    ex = m.ex
    r = tb(m.val(ret))
    i = ex.ghost.get("scan", Z)
    ex.index_term(i)
    if ex.branch(r == 0):
        m.forall(lambda j: Implies(And(j >= 0, j < o.cap), o.bk.seq(j).n == 0), "null only if the table is empty")
        unchanged(m, table, o)
        return
    s = o.bk.seq(i)
    # whichever element of the bucket is taken
    k = None
    for c in (Z, s.n - 1):
        if ex.entails(And(s.n > 0, s.get("val", c) == r)):
            k = c
            break
    k = Z if k is None else k
    m.pure(And(i >= 0, i < o.cap, s.n > 0, s.get("val", k) == r), "the result is an element of the table")
    orphan(m, r, s, k)
    taken_out(m, table, o, i, k)


# ------------------------------------------------------------------- loops

def bucket_list(m):
    """the opened bucket's list structure"""
    ex = m.ex
    for c in ex.chunks:
        if isinstance(c, Mem) and c.ty.k == "struct" and c.ty.name == LIST.name:
            return c
    raise Limit("no bucket is open")


def walk(m, e):
    ex = m.ex
    if "ends" not in m.gh:
        c = bucket_list(m)
        f, l = tb(c.val["first"]), tb(c.val["last"])
        hs = [x for x in ex.chunks if isinstance(x, Pred) and x.name == "hseg"]
        tix = None
        for x in hs:
            tix = x.ins[4:6]
        if tix is None:
            # everything is spread out: ask an element
            for x in ex.chunks:
                if isinstance(x, Mem) and x.ty.k == "struct" and x.ty.name == ELEM.name:
                    tix = (tb(x.val["hash_table"]), x.val["list_index"])
        if tix is None:
            for x in ex.chunks:
                if isinstance(x, Pred) and x.name == "bks" and x.outs[0].out:
                    tix = (x.ins[0], x.outs[0].out[-1])
        if tix is None:
            raise Limit("no bucket is open")
        m.gh["ends"] = (f, l) + tuple(tix)
    f, l, t, ix = m.gh["ends"]
    d = ex.ver.preds["hseg"]
    if m.assuming:
        s = m.gh["s"]
        i = m.fresh("i")
        mid = ex.freshbase("mid")
        ex.assume(And(i >= 0, i <= s.n))
        ex.index_term(i)
        ex.assume(Implies(i < s.n, s.get("addr", i) == e))
        d.put(ex, (f, Z, mid, e, t, ix), sub(s, Z, i))
        d.put(ex, (e, mid, l, Z, t, ix), sub(s, i, s.n - i))
        m.gh["i"] = i
        return
    if "s" not in m.gh:
        s, = m.pred("hseg", f, Z, l, Z, t, ix)
        m.gh["s"], m.gh["i"] = s, Z
        m.pure(e == f, "the walk starts at the first element")
        return
    a, = m.pred("hseg", f, Z, ANY, e, t, ix)
    b, = m.pred("hseg", e, ANY, l, Z, t, ix)
    s = m.gh["s"]
    m.gh["i"] = a.n
    w = concat(a, b)
    m.pure(w.n == s.n, "the walk leaves the length alone")
    for at in ATTRS:
        m.forall(lambda j, at=at: Implies(And(j >= 0, j < s.n), w.get(at, j) == s.get(at, j)), "the walk leaves the elements alone")


def inv_find(m):
    ex = m.ex
    if "ends" not in m.gh and not any(isinstance(c, Mem) and c.ty.k == "struct" and c.ty.name == LIST.name for c in ex.chunks):
        # no bucket at all: nothing to walk over
        m.pure(tb(m.var("le")) == 0, "nothing to walk over")
        m.decreases(Z)
        return
    walk(m, tb(m.var("le")))
    key = tb(ex.argv[1])
    s, i = m.gh["s"], m.gh["i"]
    m.forall(lambda j: Implies(And(j >= 0, j < i), KC(s.get("key", j)) != KC(key)), "no earlier element has an equal key")
    if m.assuming:
        ex.ghost["at"] = i
    m.decreases(s.n - i)


def inv_scan(m):
    """buckets from the start up to i are empty"""
    ex = m.ex
    i = m.var("i")
    c = [x for x in ex.chunks if isinstance(x, Pred) and x.name == "bks"]
    if len(c) != 1:
        raise Limit("no table in reach")
    c = c[0]
    bk = c.outs[0]
    start = m.once("start", lambda: i)
    m.once("bk", lambda: bk)
    i = i if isz(i) else z3.IntVal(i)
    ex.index_term(i)
    m.pure(And(i >= start), "scan position")
    m.pure(i <= (1 << 63), "scan position bounded")
    m.forall(lambda j: Implies(And(j >= start, j < i, j < bk.cap), bk.seq(j).n == 0), "buckets scanned so far are empty")
    # the opened bucket is closed again before the next one is looked at
    if m.assuming:
        ex.ghost["scan"] = i
    m.decreases((1 << 64) - i)


def inv_scan_open(m):
    """like inv_scan, with the bucket lists closed at the loop head"""
    ex = m.ex
    if not m.assuming:
        close_all(m)
    else:
        p, bk = m.gh["bks"]
        c = Pred("bks", p, (bk,))
        ex.add_chunk(c)
    inv_scan(m)


def close_all(m):
    """give up the bks predicate with every opened bucket folded, unchanged"""
    ex = m.ex
    for c in list(ex.chunks):
        if isinstance(c, Pred) and c.name == "bks":
            m._notfrozen(c)
            bk = c.outs[0]
            plain = BK(bk.cap, bk.ptr, bk.seq, bk.total, m.gh["bks"][1].out if "bks" in m.gh else bk.out)
            if "bks" not in m.gh:
                m.gh["bks"] = (c.ins, bk)
            o0 = m.gh["bks"][1]
            for i in bk.out:
                if any(same(i, o) for o in o0.out):
                    continue
                v = m.obj(P(bk.ptr(i)), "struct list")
                new, = m.pred("hseg", tb(v["first"]), Z, tb(v["last"]), Z, c.ins[0], i)
                old = bk.seq(i)
                m.pure(v["size"] == new.n, "bucket size")
                m.pure(new.n == old.n, "bucket unchanged")
                for at in ATTRS:
                    m.forall(lambda j, at=at: Implies(And(j >= 0, j < old.n), new.get(at, j) == old.get(at, j)), "bucket unchanged")
            ex.remove(c)
            cc = Pred("bks", c.ins, (BK(bk.cap, bk.ptr, bk.seq, bk.total, o0.out),))
            ex.ghost["closing"] = cc
            ex.chunks.append(cc)
            m.closing = cc


def inv_scan2(m):
    inv_scan_open(m)
    if not m.assuming and getattr(m, "closing", None) is not None:
        m.ex.remove(m.closing)


def inv_destroy_outer(m):
    """buckets from i on are still there"""
    ex = m.ex
    i = m.var("i")
    i = i if isz(i) else z3.IntVal(i)
    ex.index_term(i)
    if m.assuming:
        ins, bk = m.gh["bks"]
        ex.add_chunk(Pred("bks", ins, (BK(bk.cap, bk.ptr, bk.seq, bk.total, (), i),)))
    else:
        cs = [c for c in ex.chunks if isinstance(c, Pred) and c.name == "bks"]
        if len(cs) != 1:
            raise Limit("no table in reach")
        c = cs[0]
        m._notfrozen(c)
        bk = c.outs[0]
        if "bks" not in m.gh:
            m.gh["bks"] = (c.ins, bk)
        # opened buckets lie below i and have been emptied (a leftover chunk is a leak)
        for o in bk.out:
            m.pure(o < i, "only buckets already passed have been taken apart")
        # nothing passed over may still hold memory
        m.forall(lambda j: Implies(And(j >= (Z if bk.lo is None else bk.lo), j < i, j < bk.cap, *[j != o for o in bk.out]), bk.ptr(j) == 0),
                 "every list passed has been destroyed")
        ex.remove(c)
    m.pure(i >= 0, "scan position")
    m.decreases((1 << 64) - i)


def inv_destroy_elems(m):
    """cells before le have lost their element, the rest is intact"""
    ex = m.ex
    e = tb(m.var("le"))
    if "ends" not in m.gh:
        c = bucket_list(m)
        x = [x for x in ex.chunks if isinstance(x, Pred) and x.name == "bks"][0]
        m.gh["ends"] = (tb(c.val["first"]), tb(c.val["last"]), x.ins[0], x.outs[0].out[-1])
    f, l, t, ix = m.gh["ends"]
    mid = ex.freshbase("mid") if m.assuming else ANY
    if m.assuming:
        m.pred("plain", f, e)
        s = HSeq(ex.freshint("n"), None)
        fs = {a: z3.Function(ex.nm(a), I, I) for a in ATTRS}
        s.at = lambda j: {a: fs[a](j) for a in ATTRS}
        ex.ver.preds["hseg"].put(ex, (e, mid, l, Z, t, ix), s)
        ex.chunks[-1].frozen = 0
    else:
        m.pred("plain", f, e)
        s, = m.pred("hseg", e, ANY, l, Z, t, ix)
    m.decreases(s.n)


def inv_destroy_cells(m):
    """destroy_list: the cells from element on remain"""
    e = tb(m.var("element"))
    n, = m.pred("plain", e, Z)
    m.decreases(n)


def indirect(ex, f, args, rty):
    t = ex.ghost.get("tab")
    if t is None:
        raise Limit("indirect call")
    if same(f.base, t.hash.base) or ex.entails(f.base == t.hash.base):
        h = H(KC(tb(args[0])))
        home(ex, tb(args[0]), t.cap)
        ex.index_term(UMOD(h, t.cap))
        return h
    if same(f.base, t.cmp.base) or ex.entails(f.base == t.cmp.base):
        r = ex.A.fresh("cmp", I32)
        ex.assume((r == 0) == (KC(tb(args[0])) == KC(tb(args[1]))))
        return r
    ex.prove(False, "only the given callbacks are called", kind="post")


C = Contract
F = lambda: LoopSpec(inv_find, {"le": "ptr"})
SC = lambda: LoopSpec(inv_scan2, {"i": "int"})
CONTRACTS = {c.name: c for c in [
    C("make_hash_table", s_make),
    C("destroy_hash_table", s_destroy, {0: LoopSpec(inv_destroy_outer, {"i": "int"}), 1: LoopSpec(inv_destroy_elems, {"le": "ptr"}),
                                        2: LoopSpec(inv_destroy_cells, {"element": "ptr"})}),
    C("destroy_hash_element", s_destroy_elem),
    C("hash_elem_get_key", elem_field("key")),
    C("hash_elem_get_value", elem_field("value")),
    C("hash_table_size", s_size),
    C("hash_table_empty", s_empty),
    C("hash_table_get", s_get, {0: F()}),
    C("hash_table_put", s_put, {0: F()}),
    C("hash_table_detach", s_detach),
    C("hash_table_remove", s_remove),
    C("hash_table_pop", s_pop, {0: F()}),
    C("hash_table_pop_any", s_pop_any, {0: SC()}),
    C("hash_table_get_any", s_get_any, {0: SC()}),
    C("hash_table_get_other", s_get_other, {0: SC()}),
]}
C5 = ["make_hash_table", "destroy_hash_table", "destroy_hash_element", "hash_elem_get_key", "hash_elem_get_value", "hash_table_size",
      "hash_table_empty", "hash_table_get", "hash_table_put", "hash_table_detach", "hash_table_remove", "hash_table_pop", "hash_table_pop_any"]
C6 = ["make_hash_table", "hash_table_put", "hash_table_detach", "hash_table_pop", "hash_table_pop_any", "hash_table_get_any", "hash_table_get_other"]


def verifier():
    v = Verifier([Unit(src("hashtable.c")), Unit(src("list.c")), Unit(src("integer.c"))], CONTRACTS,
                 {"hseg": HSeg(), "bks": Buckets(), "plain": DllPlain()},
                 builtins=libc.BUILTINS, indirect=indirect, inline=set(CONTRACTS))
    return v


FUNCS = list(CONTRACTS)


def lemmas():
    """the facts used about the sum of the bucket lengths (sum_facts, the
    effect of changing one bucket), each by induction on the number of buckets"""
    S, S2 = z3.Function("S", I, I), z3.Function("S2", I, I)
    n, n2 = z3.Function("n", I, I), z3.Function("n2", I, I)
    k, i = z3.Ints("k i")
    dS = z3.And(S(0) == 0, S(k + 1) == S(k) + n(k), S2(0) == 0, S2(k + 1) == S2(k) + n2(k))
    up = lambda x: S2(x) == S(x) + z3.If(z3.And(i >= 0, i < x), n2(i) - n(i), 0)
    le = lambda x: z3.Implies(z3.And(i >= 0, i < x), n(i) <= S(x))
    same_elsewhere = z3.Implies(k != i, n2(k) == n(k))
    nn = z3.And(n(k) >= 0, n(i) >= 0)
    out = []
    for name, claim, hyp in [
            ("changing one bucket changes the sum by the difference", up, same_elsewhere),
            ("no bucket is longer than the sum", le, z3.And(nn, S(k) >= 0)),
            ("the sum is not negative", lambda x: S(x) >= 0, nn),
            ("a sum over empty buckets is zero", lambda x: S(x) == 0, n(k) == 0)]:
        out.append((name + " (base)", z3.Implies(z3.And(dS, i >= 0), claim(z3.IntVal(0)))))
        out.append((name + " (step)", z3.Implies(z3.And(dS, k >= 0, i >= 0, hyp, claim(k)), claim(k + 1))))
    return out
