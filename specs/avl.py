"""Contracts of avltree.c.

tree(p, par; S, h, rp, bal): the subtree at p, whose parent link is par, holds
the in-order sequence S (element address, key, value), has height h, its top
element is at position rp and records balance bal; every element's recorded
balance is the difference of its subtrees' heights and lies in -1..1; all
parent links agree.

ctx(top, toppar, hole, par, he; A, B, H, ne): a tree with top `top` from which
the subtree `hole` (parent link par) is cut out: with a subtree of height he
in the hole it is a balanced tree of height H; in order, A precedes the hole
and B follows.  ne: there is at least one element.
"""
from slv import *
import slv
import libc

I = z3.IntSort()
rank = z3.Function("rank", I, I)
ELEM = "struct avl_elem"
TREE = "struct avl_tree"


def Z(v):
    return v if isz(v) else z3.IntVal(v)


def tb(p):
    return Z(p.base if isinstance(p, P) else p)


class Seq:
    """a mathematical sequence; frm: what its positions mean elsewhere"""

    def __init__(self, n, addr, key, val, frm=()):
        self.n, self.addr, self.key, self.val, self.frm = Z(n), addr, key, val, frm
        self.root, self.off = self, z3.IntVal(0)


def fresh_seq(ex, n=None):
    n = ex.freshint("n") if n is None else n
    fs = [z3.Function(ex.nm(x), I, I) for x in ("addr", "key", "val")]

    def get(f):
        def g(i):
            v = f(Z(i))
            ex.assume_once(v >= 0)
            return v
        return g
    return Seq(n, *[get(f) for f in fs])


def nil():
    z = lambda i: z3.IntVal(0)
    return Seq(0, z, z, z)


def single(a, k, v):
    return Seq(1, lambda i: Z(a), lambda i: Z(k), lambda i: Z(v))


def sub(s, lo, n):
    if s.root is not s:
        return sub(s.root, z3.simplify(s.off + lo), n)
    at = lambda i: z3.simplify(Z(lo) + i)
    r = Seq(z3.simplify(Z(n)), lambda i: s.addr(at(i)), lambda i: s.key(at(i)), lambda i: s.val(at(i)), ((s, at),))
    r.root, r.off = s, z3.simplify(Z(lo))
    return r


def cat2(a, b):
    pick = lambda f: lambda i: Ite(Z(i) < a.n, getattr(a, f)(i), getattr(b, f)(z3.simplify(i - a.n)))
    return Seq(z3.simplify(a.n + b.n), pick("addr"), pick("key"), pick("val"),
               ((a, lambda i: i), (b, lambda i: z3.simplify(i - a.n))))


def concat(*ss):
    ss = [s for s in ss if not (z3.is_int_value(s.n) and s.n.as_long() == 0)]
    if not ss:
        return nil()
    r = ss[0]
    for s in ss[1:]:
        # neighbouring pieces of one sequence
        if r.root is s.root and r.root is not r and z3.is_true(z3.simplify(r.off + r.n == s.off)):
            r = sub(r.root, r.off, z3.simplify(r.n + s.n))
        else:
            r = cat2(r, s)
    return r


def insert(s, k, a, key, val):
    pick = lambda f, x: lambda i: Ite(Z(i) < k, f(i), Ite(Z(i) == k, x, f(z3.simplify(i - 1))))
    return Seq(z3.simplify(s.n + 1), pick(s.addr, a), pick(s.key, key), pick(s.val, val),
               ((s, lambda i: i), (s, lambda i: z3.simplify(i - 1))))


def replace(s, k, a, key, val):
    pick = lambda f, x: lambda i: Ite(Z(i) == k, x, f(i))
    return Seq(s.n, pick(s.addr, a), pick(s.key, key), pick(s.val, val), ((s, lambda i: i),))


def delete(s, k):
    pick = lambda f: lambda i: Ite(Z(i) < k, f(i), f(z3.simplify(i + 1)))
    return Seq(z3.simplify(s.n - 1), pick(s.addr), pick(s.key), pick(s.val),
               ((s, lambda i: i), (s, lambda i: z3.simplify(i + 1))))


def touch(ex, s, i, depth=0):
    """look at position i of s: the facts about what s is made of as well"""
    i = z3.simplify(Z(i))
    if depth < 8:
        for t, f in s.frm:
            touch(ex, t, f(i), depth + 1)
    if not s.frm:
        ex.index_term(i)


def seq_eq(m, a, b, what):
    ex = m.ex
    m.pure(a.n == b.n, what + ": length")
    if m.assuming:
        raise Limit("sequences are given, not compared")
    k = m.fresh("k")
    inr = And(k >= 0, k < a.n)
    for f, nm in (("addr", "element identities"), ("key", "keys"), ("val", "values")):
        ex.prove(Implies(inr, getattr(a, f)(k) == getattr(b, f)(k)), "%s: %s: %s" % (m.label, what, nm), kind="post")


def each(m, s, fn, what, arity=1):
    """a fact about every position of s"""
    if m.assuming:
        m.ex.add_lazy(fn, arity)
        return
    ks = [m.fresh("k") for _ in range(arity)]
    for k in ks:
        touch(m.ex, s, k)
    m.ex.prove(fn(*ks), m.label + ": " + what, kind="post")


def mx(a, b):
    return Ite(a >= b, a, b)


def elem(ex, base, **f):
    c = Mem(base, T("struct", name=ELEM), StructVal({k: (P(v) if k != "balance" else v) for k, v in f.items()}), True)
    ex.add_chunk(c)
    return c


class Tree(PredDef):
    name = "tree"

    def roots(self, ex, c):
        return [(c.ins[0], c.outs[0].n > 0)]

    def fresh_outs(self, ex):
        return (fresh_seq(ex), ex.freshint("h"), ex.freshint("rp"), ex.freshint("bal"))

    def facts(self, ex, ins, outs):
        p, par = ins
        s, h, rp, bal = outs
        ex.assume(And(s.n >= 0, s.n < (1 << 62), h >= 0))
        ex.assume(And((p == 0) == (s.n == 0), (h == 0) == (s.n == 0)))
        ex.assume(Implies(s.n > 0, And(rp >= 0, rp < s.n, s.addr(rp) == p, bal >= -1, bal <= 1)))
        # a top element alone, and the top element's height bound
        ex.assume(Implies(And(s.n > 0, bal != 0), h >= 2))
        if s.root is s:
            ex.add_lazy(lambda i: Implies(And(i >= 0, i < s.n), s.addr(i) != 0))

    def open(self, ex, c, base):
        p, par = c.ins
        s, h, rp, bal = c.outs
        fz = c.frozen
        ex.remove(c)
        l, r = ex.freshbase("left"), ex.freshbase("right")
        hl, hr = ex.freshint("hl"), ex.freshint("hr")
        L = sub(s, z3.IntVal(0), rp)
        R = sub(s, rp + 1, s.n - rp - 1)
        node = elem(ex, p, key=s.key(rp), value=s.val(rp), left=l, right=r, parent=par, balance=bal)
        node.frozen = fz
        for q, S, hh in ((l, L, hl), (r, R, hr)):
            ex.add_chunk(Pred("tree", (q, p), (S, hh, ex.freshint("rp"), ex.freshint("bal"))))
            ex.chunks[-1].frozen = fz
            self.facts(ex, (q, p), ex.chunks[-1].outs)
        ex.assume(And(bal == hr - hl, h == 1 + mx(hl, hr)))
        ex.index_term(z3.simplify(s.off + rp) if s.root is not s else rp)
        # distinct blocks
        ex.add_lazy(lambda i: Implies(And(i >= s.off, i < s.off + s.n, i != s.off + rp), s.root.addr(i) != p))

    def empty(self, ex, c):
        return ex.entails(c.outs[0].n == 0)

    def consume(self, m, ins):
        ex = m.ex
        p, par = Z(ins[0]), Z(ins[1]) if ins[1] is not None else None
        if not isz(ins[0]) and ins[0] == 0 or z3.is_int_value(p):
            m.pure(p == 0, "subtree link is null or an element")
            return nil(), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)
        cs = [c for c in ex.chunks if isinstance(c, Pred) and c.name == "tree" and not c.frozen]
        for c in cs:
            if same(c.ins[0], p):
                return self.take(m, c, par)
        nodes = [c for c in ex.chunks if isinstance(c, Mem) and c.heap and c.ty.k == "struct" and c.ty.name == ELEM and not c.frozen]
        node = next((c for c in nodes if same(c.base, p)), None)
        if node is None:
            c = next((c for c in ex.chunks if isinstance(c, Pred) and c.name == "ctx" and not c.frozen and same(c.ins[0], p)), None)
            if c is not None:
                return self.zip(m, c, par)
            if ex.entails(p == 0):
                return nil(), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)
            for c in cs:
                if ex.entails(And(c.ins[0] == p, c.ins[0] != 0)):
                    return self.take(m, c, par)
            for c in list(ex.chunks):
                if isinstance(c, Pred) and c.name == "ctx" and not c.frozen and ex.entails(And(c.ins[0] == p, p != 0)):
                    return self.zip(m, c, par)
            c = ex.find(p, m.label + ": subtree")
            if isinstance(c, Raw):
                c = ex.typed(c, T("struct", name=ELEM))
            node = c
        if node.ty.k != "struct" or node.ty.name != ELEM:
            raise Limit("tree element expected")
        m._notfrozen(node)
        ex.remove(node)
        v = node.val.f
        for k, x in v.items():
            if x is UNINIT:
                ex.prove(False, m.label + ": field %s is set" % k, kind="post")
        b = Z(node.base)
        if par is not None:
            m.pure(tb(v["parent"]) == par, "parent link")
        L, hl, _, _ = self.consume(m, (tb(v["left"]), b))
        R, hr, _, _ = self.consume(m, (tb(v["right"]), b))
        m.pure(And(v["balance"] == hr - hl), "recorded balance is the difference of the subtrees' heights")
        m.pure(And(hr - hl >= -1, hr - hl <= 1), "heights of the two subtrees differ by at most one")
        return (concat(L, single(b, tb(v["key"]), tb(v["value"])), R), z3.simplify(1 + mx(hl, hr)), L.n, v["balance"])

    def take(self, m, c, par):
        ex = m.ex
        if par is not None and not same(c.ins[1], par):
            m.pure(Implies(c.outs[0].n > 0, c.ins[1] == par), "parent link")
        ex.remove(c)
        return c.outs

    def zip(self, m, c, par):
        ex = m.ex
        top, toppar, hole, hpar, he = c.ins
        A, B, H, ne = c.outs
        ex.remove(c)
        if not ex.branch(ne):
            return self.consume(m, (hole, par))
        if par is not None:
            m.pure(toppar == par, "parent link")
        S, h, rp, bal = self.consume(m, (hole, hpar))
        m.pure(h == he, "height of the subtree")
        rp2, bal2 = ex.freshint("rp"), ex.freshint("bal")
        outs = (concat(A, S, B), H, rp2, bal2)
        self.facts(ex, (top, toppar), outs)
        return outs


class Ctx(PredDef):
    name = "ctx"

    def roots(self, ex, c):
        top, toppar, hole, par, he = c.ins
        ne = c.outs[3]
        return [(par, ne), (top, ne)]

    def facts(self, ex, ins, outs):
        top, toppar, hole, par, he = ins
        A, B, H, ne = outs
        ex.assume(And(A.n >= 0, B.n >= 0, A.n < (1 << 62), B.n < (1 << 62), H >= he, he >= 0))
        ex.assume(And(ne == (A.n + B.n > 0), ne == (top != hole), ne == (par != toppar), Implies(Not(ne), H == he)))
        ex.assume(Implies(ne, And(top != 0, par != 0, H > he)))

    def put(self, ex, ins, A, B, H, fz=0):
        ne = ex.freshbool("ne") if hasattr(ex, "freshbool") else z3.Bool(ex.nm("ne"))
        c = Pred("ctx", ins, (A, B, H, ne))
        c.frozen = fz
        ex.add_chunk(c)
        self.facts(ex, ins, c.outs)
        return c

    def open(self, ex, c, base):
        top, toppar, hole, par, he = c.ins
        if same(base, par):
            return self.bottom(ex, c)
        if same(base, top):
            return self.top(ex, c)
        if ex.branch(base == par):
            return self.bottom(ex, c)
        return self.top(ex, c)

    def pieces(self, ex, c):
        sib, hs, ns = ex.freshbase("sib"), ex.freshint("hs"), ex.freshint("ns")
        b = ex.freshint("bal")
        ex.assume(And(ns >= 0, b >= -1, b <= 1))
        return sib, hs, ns, b

    def sibling(self, ex, sib, par, S, hs, fz):
        t = Pred("tree", (sib, par), (S, hs, ex.freshint("rp"), ex.freshint("bal")))
        t.frozen = fz
        ex.add_chunk(t)
        ex.ver.preds["tree"].facts(ex, t.ins, t.outs)

    def bottom(self, ex, c):
        """the hole's parent comes out"""
        top, toppar, hole, par, he = c.ins
        A, B, H, ne = c.outs
        fz = c.frozen
        ex.remove(c)
        ex.assume(ne)
        gp = ex.freshbase("gp")
        sib, hs, ns, b = self.pieces(ex, c)
        he2 = 1 + mx(he, hs)
        if ex.branch(z3.Bool(ex.nm("hole is a left child"))):
            a2, b2 = A.n, B.n - 1 - ns
            ex.assume(And(b2 >= 0, b == hs - he))
            node = elem(ex, par, key=B.key(0), value=B.val(0), left=hole, right=sib, parent=gp, balance=b)
            ex.assume(B.addr(0) == par)
            touch(ex, B, 0)
            self.sibling(ex, sib, par, sub(B, z3.IntVal(1), ns), hs, fz)
            A2, B2 = A, sub(B, 1 + ns, b2)
        else:
            a2 = A.n - 1 - ns
            ex.assume(And(a2 >= 0, b == he - hs))
            at = A.n - 1
            node = elem(ex, par, key=A.key(at), value=A.val(at), left=sib, right=hole, parent=gp, balance=b)
            ex.assume(A.addr(at) == par)
            touch(ex, A, at)
            self.sibling(ex, sib, par, sub(A, a2, ns), hs, fz)
            A2, B2 = sub(A, z3.IntVal(0), a2), B
        node.frozen = fz
        self.put(ex, (top, toppar, par, gp, he2), A2, B2, H, fz)

    def top(self, ex, c):
        """the top element comes out"""
        top, toppar, hole, par, he = c.ins
        A, B, H, ne = c.outs
        fz = c.frozen
        ex.remove(c)
        ex.assume(ne)
        ch = ex.freshbase("child")
        H2 = ex.freshint("H")
        sib, hs, ns, b = self.pieces(ex, c)
        if ex.branch(z3.Bool(ex.nm("hole is on the left"))):
            b2 = B.n - 1 - ns
            ex.assume(And(b2 >= 0, b == hs - H2))
            node = elem(ex, top, key=B.key(b2), value=B.val(b2), left=ch, right=sib, parent=toppar, balance=b)
            ex.assume(B.addr(b2) == top)
            touch(ex, B, b2)
            self.sibling(ex, sib, top, sub(B, b2 + 1, ns), hs, fz)
            A2, B2 = A, sub(B, z3.IntVal(0), b2)
        else:
            a2 = A.n - 1 - ns
            ex.assume(And(a2 >= 0, b == H2 - hs))
            node = elem(ex, top, key=A.key(ns), value=A.val(ns), left=sib, right=ch, parent=toppar, balance=b)
            ex.assume(A.addr(ns) == top)
            touch(ex, A, ns)
            self.sibling(ex, sib, top, sub(A, z3.IntVal(0), ns), hs, fz)
            A2, B2 = sub(A, ns + 1, a2), B
        node.frozen = fz
        ex.assume(H == 1 + mx(H2, hs))
        self.put(ex, (ch, top, hole, par, he), A2, B2, H2, fz)

    def empty(self, ex, c):
        return ex.entails(Not(c.outs[3]))

    def consume(self, m, ins):
        """walk up from the hole"""
        ex = m.ex
        top, toppar, hole, par, he = [Z(x) for x in ins]
        A, B, H = nil(), nil(), he
        cur, curpar = hole, par
        anything = z3.BoolVal(False)
        for _ in range(14):
            if same(curpar, toppar) or ex.branch(curpar == toppar):
                break
            hit = None
            for c in ex.chunks:
                if isinstance(c, Pred) and c.name == "ctx" and not c.frozen and same(c.ins[3], curpar):
                    hit = c
                    break
            node = None
            if hit is None:
                node = next((c for c in ex.chunks if isinstance(c, Mem) and same(c.base, curpar)), None)
            if hit is None and node is None:
                for c in ex.chunks:
                    if isinstance(c, Pred) and c.name == "ctx" and not c.frozen and ex.entails(c.ins[3] == curpar):
                        hit = c
                        break
            if hit is not None:
                # an empty context may sit anywhere
                if not ex.branch(hit.outs[3]):
                    ex.remove(hit)
                    continue
                m.pure(hit.ins[2] == cur, "the element's parent has it as a child")
                m.pure(hit.ins[4] == H, "height of the subtree")
                ex.remove(hit)
                A = concat(hit.outs[0], A)
                B = concat(B, hit.outs[1])
                H = hit.outs[2]
                cur, curpar = hit.ins[0], hit.ins[1]
                continue
            if node is None:
                node = ex.find(curpar, m.label + ": parent element")
                if isinstance(node, Raw):
                    node = ex.typed(node, T("struct", name=ELEM))
            if node.ty.k != "struct" or node.ty.name != ELEM:
                raise Limit("tree element expected")
            m._notfrozen(node)
            v = node.val.f
            l, r = tb(v["left"]), tb(v["right"])
            if same(l, cur):
                left = True
            elif same(r, cur):
                left = False
            else:
                el = ex.entails(l == cur)
                er = ex.entails(r == cur)
                if el and er:
                    raise Limit("both children are null")
                if not el and not er:
                    left = ex.branch(l == cur)
                    if not left:
                        m.pure(r == cur, "the element's parent has it as a child")
                else:
                    left = el
            ex.remove(node)
            for k, x in v.items():
                if x is UNINIT:
                    ex.prove(False, m.label + ": field %s is set" % k, kind="post")
            b = Z(node.base)
            S, hs, _, _ = ex.ver.preds["tree"].consume(m, (r if left else l, b))
            me = single(b, tb(v["key"]), tb(v["value"]))
            d = hs - H if left else H - hs
            m.pure(v["balance"] == d, "recorded balance is the difference of the subtrees' heights")
            m.pure(And(d >= -1, d <= 1), "heights of the two subtrees differ by at most one")
            if left:
                B = concat(B, me, S)
            else:
                A = concat(S, me, A)
            H = z3.simplify(1 + mx(H, hs))
            cur, curpar = b, tb(v["parent"])
        else:
            raise Limit("context too fragmented")
        m.pure(cur == top, "topmost element")
        ne = z3.Bool(ex.nm("ne"))
        outs = (A, B, H, ne)
        self.facts(ex, (top, toppar, hole, par, he), outs)
        return outs


PREDS = {"tree": Tree(), "ctx": Ctx()}


# ---------------------------------------------------------------- the map

def sorted_seq(m, s):
    each(m, s, lambda i, j: Implies(And(i >= 0, i < j, j < s.n), rank(s.key(i)) < rank(s.key(j))), "keys ascend", 2)


def setcmp(m, v):
    """the comparator of the tree is the one the keys are ranked by"""
    ex = m.ex
    if m.assuming:
        if "cmp" not in ex.ghost:
            ex.ghost["cmp"] = (v["cmp"], v["obj"])
            return
    c = ex.ghost.get("cmp")
    if c is not None:
        m.eq(v["cmp"], c[0], "comparator")
        m.eq(v["obj"], c[1], "comparator context")


def tree_struct(m, p, **given):
    v = m.obj(p, TREE, **given)
    setcmp(m, v)
    return v


def whole(m, p):
    """ownership of a tree; returns its struct, sequence, height"""
    v = tree_struct(m, p)
    S, h, _, _ = m.pred("tree", tb(v["root"]), z3.IntVal(0))
    m.pure(v["size"] == S.n, "size is the number of elements")
    sorted_seq(m, S)
    return v, S


def holds(m, p, want, v0=None, name="content", h=None):
    """afterwards the tree holds exactly `want`"""
    given = {}
    if v0 is not None:
        given = dict(cmp=v0["cmp"], obj=v0["obj"])
    if m.assuming:
        root = m.ex.freshbase("root")
        v = m.obj(p, TREE, root=P(root), size=want.n, **given)
        outs = (want, m.ex.freshint("h"), m.ex.freshint("rp"), m.ex.freshint("bal"))
        m.ex.add_chunk(Pred("tree", (root, z3.IntVal(0)), outs))
        PREDS["tree"].facts(m.ex, (root, z3.IntVal(0)), outs)
        return v
    v = tree_struct(m, p, **given)
    S, h, _, _ = m.pred("tree", tb(v["root"]), z3.IntVal(0))
    m.pure(v["size"] == S.n, "size is the number of elements")
    seq_eq(m, S, want, name)
    sorted_seq(m, want)
    return v


def unchanged(m, p, v, S):
    holds(m, p, S, v, "unchanged")


def s_make2(m, cmp, obj):
    ret = yield
    if m.assuming:
        m.ret_is(ret, P(m.ex.freshbase("tree")))
        m.ex.ghost.setdefault("cmp", (cmp, obj))
        holds(m, ret, nil(), {"cmp": cmp, "obj": obj})
        return
    holds(m, ret, nil(), {"cmp": cmp, "obj": obj})


def s_make(m, cmp):
    ret = yield
    holds(m, ret, nil(), {"cmp": cmp, "obj": P(0)})


def s_destroy(m, tree):
    whole(m, tree)
    yield


def s_destroy_subtree(m, element):
    par = m.fresh("par") if m.assuming else None
    m.pred("tree", tb(element), par)
    yield


def s_size(m, tree):
    v, S = whole(m, tree)
    ret = yield
    m.pure(m.val(ret) == S.n, "size")
    unchanged(m, tree, v, S)


def s_empty(m, tree):
    v, S = whole(m, tree)
    ret = yield
    m.pure(m.ex.truth(m.val(ret), I32) == (S.n == 0), "empty exactly when nothing is stored")
    unchanged(m, tree, v, S)


def s_elem(field):
    def spec(m, element):
        v = m.obj(element, ELEM)
        ret = yield
        m.obj(element, ELEM, **v.f)
        m.ret_is(ret, v[field], field)
    return spec


def s_destroy_elem(m, element):
    m.obj(element, ELEM)
    yield


def query(post):
    """a lookup by key: the tree stays as it is"""
    def spec(m, tree, key):
        v, S = whole(m, tree)
        m.ex.ghost["whole"] = (tb(v["root"]), S, None)
        m.ex.ghost["x"] = rank(tb(key))
        ret = yield
        if m.assuming:
            raise Limit("query used by a caller")
        unchanged(m, tree, v, S)
        post(m, S, rank(tb(key)), tb(m.val(ret)))
    return spec


def q_get(m, S, x, r):
    if m.ex.branch(r == 0):
        each(m, S, lambda i: Implies(And(i >= 0, i < S.n), rank(S.key(i)) != x), "nothing only if no stored key is equal")
        return
    k = find_pos(m, S, r)
    m.pure(And(k >= 0, k < S.n, S.addr(k) == r, rank(S.key(k)) == x), "result is an element with an equal key")


def find_pos(m, S, r):
    """the position of the element the code has in hand"""
    ex = m.ex
    for b, k in reversed(ex.ghost.get("pos", [])):
        if same(b, r):
            return k
    for b, k in reversed(ex.ghost.get("pos", [])):
        if ex.entails(b == r):
            return k
    raise Limit("no position known for the result")


def q_side(below, inclusive):
    """nearest element below (above) the key"""
    def side(a, x):
        if below:
            return a <= x if inclusive else a < x
        return a >= x if inclusive else a > x

    def post(m, S, x, r):
        rk = lambda i: rank(S.key(i))
        if m.ex.branch(r == 0):
            each(m, S, lambda i: Implies(And(i >= 0, i < S.n), Not(side(rk(i), x))), "nothing only if there is no such element")
            return
        k = find_pos(m, S, r)
        touch(m.ex, S, k)
        m.pure(And(k >= 0, k < S.n, S.addr(k) == r, side(rk(k), x)), "result is on the asked side")
        each(m, S, lambda i: Implies(And(i >= 0, i < S.n, side(rk(i), x)), i <= k if below else i >= k), "result is the nearest one")
    return post


# ------------------------------------------------------------- loop invariants

def node_at(ex, b):
    for c in ex.chunks:
        if isinstance(c, Mem) and same(c.base, b):
            return c
    return None


def parent_of(m, e):
    """parent link of the subtree at e, from what is owned"""
    ex = m.ex
    for c in ex.chunks:
        if isinstance(c, Pred) and c.name == "tree" and not c.frozen and same(c.ins[0], e):
            return c.ins[1]
    c = node_at(ex, e)
    if c is not None:
        return tb(c.val["parent"])
    for c in ex.chunks:
        if isinstance(c, Pred) and c.name == "ctx" and not c.frozen and same(c.ins[0], e):
            return c.ins[1]
    for c in ex.chunks:
        if isinstance(c, Pred) and c.name == "tree" and not c.frozen and ex.entails(And(c.ins[0] == e, e != 0)):
            return c.ins[1]
    if ex.entails(e == 0):
        raise Limit("null subtree of unknown place")
    c = ex.find(e, m.label + ": element")
    return tb(c.val["parent"])


def walk(m, e, top, toppar, S, H0):
    """the subtree at e inside the tree at top: returns positions a..a+t-1"""
    ex = m.ex
    if m.assuming:
        par = ex.freshbase("par")
        a, t, he = ex.freshint("a"), ex.freshint("t"), ex.freshint("he")
        ex.assume(And(a >= 0, t >= 0, a + t <= S.n))
        outs = (sub(S, a, t), he, ex.freshint("rp"), ex.freshint("bal"))
        ex.add_chunk(Pred("tree", (e, par), outs))
        PREDS["tree"].facts(ex, (e, par), outs)
        PREDS["ctx"].put(ex, (top, toppar, e, par, he), sub(S, z3.IntVal(0), a), sub(S, a + t, S.n - a - t), H0)
        return a, t
    par = parent_of(m, e)
    Ts, he, _, _ = m.pred("tree", e, par)
    A, B, H, ne = m.pred("ctx", top, toppar, e, par, he)
    seq_eq(m, concat(A, Ts, B), S, "elements in order")
    m.pure(H == H0, "height")
    return z3.simplify(A.n), Ts.n


def the_tree(m):
    """the tree chunk of the whole tree, before the loop"""
    ex = m.ex

    def look():
        root, S, _ = ex.ghost["whole"]
        for c in ex.chunks:
            if isinstance(c, Pred) and c.name == "tree" and not c.frozen and same(c.ins[0], root):
                return root, z3.IntVal(0), S, c.outs[1]
        c = node_at(ex, root)
        if c is not None:
            h = ex.ghost.get("h0")
            if h is not None:
                return root, z3.IntVal(0), S, h
        raise Limit("the tree is not at hand")
    return m.once("tree", look)


def inv_side(goes_right, below):
    def inv(m):
        ex = m.ex
        e = tb(m.var("element"))
        top, toppar, S, H = the_tree(m)
        x = ex.ghost["x"]
        a, t = walk(m, e, top, toppar, S, H)
        rk = lambda i: rank(S.key(i))
        each(m, S, lambda i: Implies(And(i >= 0, i < a), goes_right(x, rk(i))), "everything left of the subtree was passed on the right")
        each(m, S, lambda i: Implies(And(i >= a + t, i < S.n), Not(goes_right(x, rk(i)))), "everything right of the subtree was passed on the left")
        c = tb(m.var("candidate"))
        k = z3.simplify(a - 1) if below else z3.simplify(a + t)
        some = a > 0 if below else a + t < S.n
        m.pure(Implies(some, And(c == S.addr(k), c != 0)), "candidate is the nearest element passed")
        m.pure(Implies(Not(some), c == 0), "no candidate before one was passed")
        if m.assuming:
            ex.ghost["pos"] = [(c, k)]
            touch(ex, S, k)
        m.decreases(t)
    return inv


def inv_find(m):
    ex = m.ex
    e = tb(m.var("element"))
    top, toppar, S, H = the_tree(m)
    x = ex.ghost["x"]
    a, t = walk(m, e, top, toppar, S, H)
    rk = lambda i: rank(S.key(i))
    each(m, S, lambda i: Implies(And(i >= 0, i < a), rk(i) < x), "everything left of the subtree has a smaller key")
    each(m, S, lambda i: Implies(And(i >= a + t, i < S.n), rk(i) > x), "everything right of the subtree has a greater key")
    if m.assuming:
        at(ex, S, e, a, t)
    m.decreases(t)


def at(ex, S, e, a, t):
    """remember where the top of the subtree at e stands"""
    for c in ex.chunks:
        if isinstance(c, Pred) and c.name == "tree" and same(c.ins[0], e):
            k = z3.simplify(a + c.outs[2])
            ex.ghost["pos"] = [(e, k)]
            touch(ex, S, k)
            return


def q_end(first):
    """the least or greatest element"""
    def spec(m, tree):
        ex = m.ex
        v, S = whole(m, tree)
        ex.ghost["whole"] = (tb(v["root"]), S, None)
        ret = yield
        if m.assuming:
            raise Limit("query used by a caller")
        unchanged(m, tree, v, S)
        r = tb(m.val(ret))
        k = z3.IntVal(0) if first else S.n - 1
        m.pure(r == Ite(S.n > 0, S.addr(k), z3.IntVal(0)), "result is the %s element or nothing" % ("least" if first else "greatest"))
    return spec


def inv_end(first):
    def inv(m):
        e = tb(m.var("element"))
        top, toppar, S, H = the_tree(m)
        a, t = walk(m, e, top, toppar, S, H)
        m.pure(t > 0, "not past the end")
        if first:
            m.pure(a == 0, "nothing to the left was skipped")
        else:
            m.pure(a + t == S.n, "nothing to the right was skipped")
        if m.assuming:
            at(m.ex, S, e, a, t)
        m.decreases(t)
    return inv


def focus(m, e, root, stale=None):
    """element e and the tree around it; returns the sequence and e's position.
    stale "left"/"right": that subtree is one level lower than recorded"""
    ex = m.ex
    b = tb(e)
    v = None
    if m.assuming:
        S = fresh_seq(ex)
        a, l, r = ex.freshint("a"), ex.freshint("l"), ex.freshint("r")
        ex.assume(And(a >= 0, l >= 0, r >= 0, a + l + r < S.n, S.n < (1 << 62)))
        k = z3.simplify(a + l)
        pl, pr, par = ex.freshbase("left"), ex.freshbase("right"), ex.freshbase("par")
        bal = ex.freshint("bal")
        elem(ex, b, key=S.key(k), value=S.val(k), left=pl, right=pr, parent=par, balance=bal)
        ex.assume(And(S.addr(k) == b, bal >= -1, bal <= 1))
        hl, hr, H = ex.freshint("hl"), ex.freshint("hr"), ex.freshint("H")
        for p, s, h in ((pl, sub(S, a, l), hl), (pr, sub(S, k + 1, r), hr)):
            outs = (s, h, ex.freshint("rp"), ex.freshint("bal"))
            ex.add_chunk(Pred("tree", (p, b), outs))
            PREDS["tree"].facts(ex, (p, b), outs)
        hl0 = hl + 1 if stale == "left" else hl
        hr0 = hr + 1 if stale == "right" else hr
        ex.assume(bal == hr0 - hl0)
        PREDS["ctx"].put(ex, (root, z3.IntVal(0), b, par, 1 + mx(hl0, hr0)), sub(S, z3.IntVal(0), a),
                         sub(S, k + 1 + r, S.n - k - 1 - r), H)
        ex.index_term(k)
        return S, k
    v = m.obj(e, ELEM)
    L, hl, _, _ = m.pred("tree", tb(v["left"]), b)
    R, hr, _, _ = m.pred("tree", tb(v["right"]), b)
    hl0 = hl + 1 if stale == "left" else hl
    hr0 = hr + 1 if stale == "right" else hr
    m.pure(v["balance"] == hr0 - hl0, "recorded balance is the difference of the subtrees' heights")
    m.pure(And(v["balance"] >= -1, v["balance"] <= 1), "recorded balance at most one")
    A, B, H, ne = m.pred("ctx", root, z3.IntVal(0), b, tb(v["parent"]), z3.simplify(1 + mx(hl0, hr0)))
    return concat(A, L, single(b, tb(v["key"]), tb(v["value"])), R, B), z3.simplify(A.n + L.n)


def s_step(forward):
    """the immediate neighbour"""
    def spec(m, element):
        ex = m.ex
        root = ex.freshbase("root")
        if not m.assuming:
            raise Limit("stepping used by a caller")
        S, k = focus(m, element, root)
        node = node_at(ex, tb(element))
        ex.ghost["step"] = (root, S, k, tb(element))
        ret = yield
        T, h, _, _ = m.pred("tree", root, z3.IntVal(0))
        seq_eq(m, T, S, "tree unchanged")
        r = tb(m.val(ret))
        if forward:
            m.pure(r == Ite(k + 1 < S.n, S.addr(k + 1), z3.IntVal(0)), "result is the next element or nothing")
        else:
            m.pure(r == Ite(k > 0, S.addr(k - 1), z3.IntVal(0)), "result is the previous element or nothing")
    return spec


def inv_adj(side):
    """descent to the neighbour inside the subtree on one side of `element`"""
    def inv(m):
        ex = m.ex

        def look():
            e = tb(m.var("element"))
            n = node_at(ex, e)
            if n is None:
                raise Limit("element not at hand")
            q = tb(n.val[side])
            for c in ex.chunks:
                if isinstance(c, Pred) and c.name == "tree" and same(c.ins[0], q):
                    return q, e, c.outs[0], c.outs[1]
            raise Limit("subtree not at hand")
        top, toppar, S, H = m.once("sub", look)
        e = tb(m.var("adj"))
        a, t = walk(m, e, top, toppar, S, H)
        m.pure(t > 0, "not past the end")
        m.pure(a + t == S.n if side == "left" else a == 0, "nothing between the element and the subtree")
        m.decreases(t)
    return inv


def inv_climb(forward):
    def inv(m):
        ex = m.ex
        root, S, k, e0 = ex.ghost["step"]
        H = m.once("H", lambda: whole_height(m, root))
        e = tb(m.var("element"))
        a, t = walk(m, e, root, z3.IntVal(0), S, H)
        m.pure(t > 0, "an element")
        if forward:
            m.pure(a + t - 1 == k, "the element is the last of the subtree climbed")
            m.decreases(z3.simplify(S.n - t))
        else:
            m.pure(a == k, "the element is the first of the subtree climbed")
            m.decreases(z3.simplify(S.n - t))
        if m.assuming:
            touch(ex, S, a + t)
            touch(ex, S, a - 1)
    return inv


def whole_height(m, root):
    for c in m.ex.chunks:
        if isinstance(c, Pred) and c.name == "ctx" and same(c.ins[0], root):
            return c.outs[2]
    raise Limit("height of the tree")


def s_lighten(side):
    """the subtree on `side` has become one level lower than recorded"""
    def spec(m, tree, element):
        ex = m.ex
        v = tree_struct(m, tree)
        root = tb(v["root"])
        S, k = focus(m, element, root, side)
        yield
        if m.assuming:
            root2 = ex.freshbase("root")
            m.obj(tree, TREE, root=P(root2), size=v["size"], cmp=v["cmp"], obj=v["obj"])
            outs = (S, ex.freshint("h"), ex.freshint("rp"), ex.freshint("bal"))
            ex.add_chunk(Pred("tree", (root2, z3.IntVal(0)), outs))
            PREDS["tree"].facts(ex, (root2, z3.IntVal(0)), outs)
            return
        w = m.obj(tree, TREE, size=v["size"], cmp=v["cmp"], obj=v["obj"])
        T, h, _, _ = m.pred("tree", tb(w["root"]), z3.IntVal(0))
        seq_eq(m, T, S, "content")
    return spec


def s_detach(m, tree, element):
    ex = m.ex
    v = tree_struct(m, tree)
    S, k = focus(m, element, tb(v["root"]))
    m.pure(v["size"] == S.n, "size is the number of elements")
    sorted_seq(m, S)
    b = tb(element)
    ex.ghost["detach"] = (S, k, b)
    key, val = S.key(k), S.val(k)
    yield
    holds(m, tree, delete(S, k), v, "everything else stays")
    m.obj(P(b), ELEM, key=P(key), value=P(val))


def s_remove(m, tree, element):
    v = tree_struct(m, tree)
    S, k = focus(m, element, tb(v["root"]))
    m.pure(v["size"] == S.n, "size is the number of elements")
    sorted_seq(m, S)
    yield
    holds(m, tree, delete(S, k), v, "everything else stays")


def inv_detach(m):
    """element, wherever it has been moved: the rest in order"""
    ex = m.ex
    S, k, b = ex.ghost["detach"]
    e = tb(m.var("element"))
    m.pure(e == b, "the element detached stays the same")
    D = delete(S, k)
    tree = ex.argv[0]
    t0 = m.once("tree", lambda: dict(node_at(ex, tb(tree)).val.f))
    if m.assuming:
        root = ex.freshbase("root")
        m.obj(tree, TREE, root=P(root), size=t0["size"], cmp=t0["cmp"], obj=t0["obj"])
        a, l, r = ex.freshint("a"), ex.freshint("l"), ex.freshint("r")
        ex.assume(And(a >= 0, l >= 0, r >= 0, a + l + r <= D.n))
        pl, pr, par = ex.freshbase("left"), ex.freshbase("right"), ex.freshbase("par")
        hl, hr, H = ex.freshint("hl"), ex.freshint("hr"), ex.freshint("H")
        bal = hr - hl
        ex.assume(And(bal >= -1, bal <= 1))
        elem(ex, b, key=S.key(k), value=S.val(k), left=pl, right=pr, parent=par, balance=bal)
        for p, s, h in ((pl, sub(D, a, l), hl), (pr, sub(D, a + l, r), hr)):
            outs = (s, h, ex.freshint("rp"), ex.freshint("bal"))
            ex.add_chunk(Pred("tree", (p, b), outs))
            PREDS["tree"].facts(ex, (p, b), outs)
        PREDS["ctx"].put(ex, (root, z3.IntVal(0), b, par, 1 + mx(hl, hr)), sub(D, z3.IntVal(0), a),
                         sub(D, a + l + r, D.n - a - l - r), H)
        m.decreases(l + r)
        return
    w = m.obj(tree, TREE, size=t0["size"], cmp=t0["cmp"], obj=t0["obj"])
    v = m.obj(P(b), ELEM, key=P(S.key(k)), value=P(S.val(k)))
    L, hl, _, _ = m.pred("tree", tb(v["left"]), b)
    R, hr, _, _ = m.pred("tree", tb(v["right"]), b)
    m.pure(v["balance"] == hr - hl, "recorded balance is the difference of the subtrees' heights")
    m.pure(And(v["balance"] >= -1, v["balance"] <= 1), "recorded balance at most one")
    A, B, H, ne = m.pred("ctx", tb(w["root"]), z3.IntVal(0), b, tb(v["parent"]), z3.simplify(1 + mx(hl, hr)))
    seq_eq(m, concat(A, L, R, B), D, "the other elements in order")
    m.decreases(z3.simplify(L.n + R.n))


def s_pop(m, tree, key):
    ex = m.ex
    v, S = whole(m, tree)
    ex.ghost["whole"] = (tb(v["root"]), S, None)
    x = rank(tb(key))
    ex.ghost["x"] = x
    ret = yield
    r = tb(m.val(ret))
    if ex.branch(r == 0):
        each(m, S, lambda i: Implies(And(i >= 0, i < S.n), rank(S.key(i)) != x), "nothing only if no stored key is equal")
        unchanged(m, tree, v, S)
        return
    k = find_pos(m, S, r)
    m.pure(And(k >= 0, k < S.n, S.addr(k) == r, rank(S.key(k)) == x), "the element popped has an equal key")
    holds(m, tree, delete(S, k), v, "everything else stays")
    m.obj(P(r), ELEM, key=P(S.key(k)), value=P(S.val(k)))


def s_pop_end(first):
    def spec(m, tree):
        ex = m.ex
        v, S = whole(m, tree)
        ex.ghost["whole"] = (tb(v["root"]), S, None)
        ret = yield
        r = tb(m.val(ret))
        k = z3.IntVal(0) if first else S.n - 1
        if ex.branch(r == 0):
            m.pure(S.n == 0, "nothing only from an empty tree")
            unchanged(m, tree, v, S)
            return
        m.pure(And(S.n > 0, S.addr(k) == r), "the %s element is popped" % ("least" if first else "greatest"))
        holds(m, tree, delete(S, k), v, "everything else stays")
        m.obj(P(r), ELEM, key=P(S.key(k)), value=P(S.val(k)))
    return spec


def least(m, S, x, p):
    """p: how many keys are less than x (x a rank)"""
    rk = lambda i: rank(S.key(i))
    m.pure(And(p >= 0, p <= S.n), "position")
    each(m, S, lambda i: Implies(And(i >= 0, i < p), rk(i) < x), "smaller keys come before the position")
    each(m, S, lambda i: Implies(And(i > p, i < S.n), rk(i) > x), "greater keys come after the position")
    if m.assuming:
        m.ex.index_term(p)
    else:
        touch(m.ex, S, p)
    m.pure(Implies(p < S.n, rk(p) >= x), "the key at the position is not smaller")


def offset(s, root):
    """where s, a piece of root, begins in it"""
    if s.root is root:
        return s.off
    if s is root:
        return z3.IntVal(0)
    if s.root is root.root:
        return z3.simplify(s.off - root.off)
    raise Limit("sequence of unknown origin")


def s_put(m, tree, ploc, element, premoved):
    ex = m.ex
    ELT = T("struct", name=ELEM)
    # where the subtree hangs
    if m.assuming:
        if ex.branch(z3.Bool(ex.nm("whole tree"))):
            place, base = "root", tb(tree)
        else:
            place = "left" if ex.branch(z3.Bool(ex.nm("left subtree"))) else "right"
            base = ex.freshbase("loc")
        m.args[1] = P(base, (place,))
    else:
        if len(ploc.path) != 1 or ploc.path[0] not in ("root", "left", "right"):
            raise Limit("place of the subtree")
        place, base = ploc.path[0], tb(ploc)
        if place == "root":
            ex.prove(base == tb(tree), m.label + ": the root of the very tree", kind="post")
    v = tree_struct(m, tree)
    if place == "root":
        loc, par = tb(v["root"]), z3.IntVal(0)
        up = None
    else:
        up = m.obj(P(base), ELEM)
        loc, par = tb(up[place]), base
    m.pure(v["size"] < (1 << 62), "as many elements as fit in memory")
    m.pure(loc != 0, "the subtree is not empty")
    S, h, rp, bal = m.pred("tree", loc, par)
    if place != "root":
        root = tb(v["root"])
        each(m, S, lambda i: Implies(And(i >= 0, i < S.n), S.addr(i) != root), "the tree's topmost element is elsewhere")
        if place == "right":
            m.pure(tb(up["left"]) != loc, "not the left child")
    # the new element
    e = m.obj(element, ELEM, left=P(0), right=P(0), balance=z3.IntVal(0))
    key, val, b = tb(e["key"]), tb(e["value"]), tb(element)
    x = rank(key)
    if m.assuming:
        p = ex.freshint("p")
        ex.ghost["put"] = (S, p)
    else:
        S0, p0 = ex.ghost["put"]
        p = z3.simplify(p0 - offset(S, S0))
    least(m, S, x, p)
    # where a replaced element is reported
    if m.assuming:
        cell = ex.freshbase("cell")
        old = P(ex.freshbase("old"))
        ex.add_chunk(Mem(cell, T("ptr", to=ELT), old, heap=False))
        m.args[3] = P(cell)
    else:
        cell, old = take_cell(m, premoved)
    ret = yield
    same_key = And(p < S.n, rank(S.key(p)) == x)
    # outcome
    removed = None
    if ex.branch(same_key):
        if ex.branch(S.val(p) == val):
            want, grown = S, False
        else:
            want, grown = replace(S, p, b, key, val), False
            removed = S.addr(p)
    else:
        want, grown = insert(S, p, b, key, val), True
    given = dict(cmp=v["cmp"], obj=v["obj"], size=v["size"] + 1 if grown else v["size"])
    if m.assuming:
        loc2 = ex.freshbase("loc")
        if place == "root":
            m.obj(tree, TREE, root=P(loc2), **given)
        else:
            m.obj(tree, TREE, root=v["root"], **given)
            m.obj(P(base), ELEM, **dict(up.f, **{place: P(loc2)}))
        h2, bal2 = ex.freshint("h"), ex.freshint("bal")
        outs = (want, h2, ex.freshint("rp"), bal2)
        ex.add_chunk(Pred("tree", (loc2, par), outs))
        PREDS["tree"].facts(ex, (loc2, par), outs)
        if removed is not None:
            m.obj(P(removed), ELEM, key=P(S.key(p)), value=P(S.val(p)))
        ex.add_chunk(Mem(cell, T("ptr", to=ELT), P(removed) if removed is not None else old, heap=False))
    else:
        if place == "root":
            w = m.obj(tree, TREE, **given)
            loc2 = tb(w["root"])
        else:
            m.obj(tree, TREE, root=v["root"], **given)
            w = m.obj(P(base), ELEM, **{f: y for f, y in up.f.items() if f != place})
            loc2 = tb(w[place])
        T2, h2, rp2, bal2 = m.pred("tree", loc2, par)
        seq_eq(m, T2, want, "content after the put")
        if removed is not None:
            m.obj(P(removed), ELEM, key=P(S.key(p)), value=P(S.val(p)))
        c2, now = take_cell(m, P(cell))
        m.eq(now, P(removed) if removed is not None else old, "replaced element handed back")
    r = m.val(ret)
    r = Z(ex.num(r, I32))
    if grown:
        m.pure(Or(r == 0, r == 1), "result 0 or 1")
        m.pure(h2 == h + r, "result tells whether the subtree grew higher")
        m.pure(Implies(r == 1, bal2 != 0), "a subtree that grew leans to one side")
    else:
        m.pure(And(r == 0, h2 == h), "the shape is unchanged")


def take_cell(m, p):
    c = m.ex.find(tb(p), m.label + ": place for the replaced element")
    if c.ty.k != "ptr":
        raise Limit("place for the replaced element")
    m._notfrozen(c)
    m.ex.remove(c)
    if c.val is UNINIT:
        m.ex.prove(False, m.label + ": place for the replaced element is set", kind="post")
    return Z(c.base), c.val


def s_tree_put(m, tree, key, value):
    ex = m.ex
    v, S = whole(m, tree)
    x, val = rank(tb(key)), tb(value)
    p = ex.freshint("p")
    if not m.assuming:
        raise Limit("put used by a caller")
    # such a position exists: the keys ascend
    least(m, S, x, p)
    ex.ghost["put"] = (S, p)
    ret = yield
    r = tb(m.val(ret))
    if ex.branch(And(p < S.n, rank(S.key(p)) == x)):
        if ex.branch(S.val(p) == val):
            m.pure(r == 0, "the very same value: nothing is handed back")
            holds(m, tree, S, v, "unchanged")
            return
        m.pure(r == S.addr(p), "the replaced element is handed back")
        m.obj(P(S.addr(p)), ELEM, key=P(S.key(p)), value=P(S.val(p)))
        holds2(m, tree, v, S, p, lambda a: replace(S, p, a, tb(key), val))
        return
    m.pure(r == 0, "nothing is handed back")
    holds2(m, tree, v, S, p, lambda a: insert(S, p, a, tb(key), val))


def holds2(m, tree, v0, S, p, want):
    """like holds, the new element's address being whatever stands at p"""
    v = tree_struct(m, tree, cmp=v0["cmp"], obj=v0["obj"])
    T2, h, _, _ = m.pred("tree", tb(v["root"]), z3.IntVal(0))
    w = want(T2.addr(p))
    m.pure(v["size"] == T2.n, "size is the number of elements")
    touch(m.ex, S, p)
    touch(m.ex, S, p - 1)
    seq_eq(m, T2, w, "content after the put")
    sorted_seq(m, w)


def s_copy_tree(m, element):
    ex = m.ex
    par = ex.freshbase("par") if m.assuming else None
    if not m.assuming:
        par = parent_of(m, tb(element))
    S, h, rp, bal = m.pred("tree", tb(element), par)
    m.pure(tb(element) != 0, "not the empty tree")
    ret = yield
    if m.assuming:
        ex.add_chunk(Pred("tree", (tb(element), par), (S, h, rp, bal)))
        a = fresh_seq(ex, S.n)
        C2 = Seq(S.n, a.addr, S.key, S.val)
        outs = (C2, h, rp, bal)
        b = ex.freshbase("copy")
        m.ret_is(ret, P(b))
        ex.add_chunk(Pred("tree", (b, z3.IntVal(0)), outs))
        PREDS["tree"].facts(ex, (b, z3.IntVal(0)), outs)
        return
    T1, h1, rp1, bal1 = m.pred("tree", tb(element), par)
    seq_eq(m, T1, S, "original unchanged")
    m.pure(And(h1 == h, rp1 == rp, bal1 == bal), "original unchanged in shape")
    T2, h2, rp2, bal2 = m.pred("tree", tb(m.val(ret)), z3.IntVal(0))
    seq_eq(m, T2, Seq(S.n, T2.addr, S.key, S.val), "copy")
    m.pure(And(h2 == h, rp2 == rp, bal2 == bal), "copy of the same shape")


def s_copy(m, tree):
    v, S = whole(m, tree)
    ret = yield
    if m.assuming:
        raise Limit("copy used by a caller")
    unchanged(m, tree, v, S)
    w = tree_struct(m, ret, cmp=v["cmp"], obj=v["obj"])
    T2, h, _, _ = m.pred("tree", tb(w["root"]), z3.IntVal(0))
    m.pure(w["size"] == T2.n, "size of the copy")
    c = Seq(S.n, T2.addr, S.key, S.val, ((S, lambda i: i),))
    seq_eq(m, T2, c, "copy")
    sorted_seq(m, c)


# ------------------------------------------------- lemmas about the predicates
# Tree.open / folding a node, and Ctx.top / topcons, are the definitions; what
# else the verifier does with the predicates follows by induction on the size:

def new_tree(ex, p, par, S=None, h=None):
    outs = (fresh_seq(ex) if S is None else S, ex.freshint("h") if h is None else h, ex.freshint("rp"), ex.freshint("bal"))
    c = Pred("tree", (p, par), outs)
    ex.add_chunk(c)
    PREDS["tree"].facts(ex, (p, par), outs)
    return c


def new_ctx(ex, top, toppar, hole, par, he, A=None, B=None, H=None):
    return PREDS["ctx"].put(ex, (top, toppar, hole, par, he), fresh_seq(ex) if A is None else A,
                            fresh_seq(ex) if B is None else B, ex.freshint("H") if H is None else H)


def topcons(m, node, sub_ctx, sib):
    """the definition of a non-empty context: an element, the context of one
    child, the other child's tree"""
    ex = m.ex
    v = node.val.f
    b = Z(node.base)
    ch, chpar, hole, par, he = sub_ctx.ins
    A, B, H2, _ = sub_ctx.outs
    left = same(tb(v["left"]), ch)
    m.pure((tb(v["left"]) if left else tb(v["right"])) == ch, "child")
    m.pure(chpar == b, "parent link of the child")
    m.pure(And(sib.ins[0] == tb(v["right"] if left else v["left"]), sib.ins[1] == b), "the other child")
    S, hs = sib.outs[0], sib.outs[1]
    d = hs - H2 if left else H2 - hs
    m.pure(And(v["balance"] == d, d >= -1, d <= 1), "balance")
    for c in (node, sub_ctx, sib):
        ex.remove(c)
    me = single(b, tb(v["key"]), tb(v["value"]))
    ins = (b, tb(v["parent"]), hole, par, he)
    A2, B2 = (A, concat(B, me, S)) if left else (concat(S, me, A), B)
    return PREDS["ctx"].put(ex, ins, A2, B2, z3.simplify(1 + mx(H2, hs)))


def take_top(ex, c):
    """Ctx.top, returning what came out: element, context, sibling"""
    before = list(ex.chunks)
    PREDS["ctx"].top(ex, c)
    new = [x for x in ex.chunks if x not in before]
    node = next(x for x in new if isinstance(x, Mem))
    return node, next(x for x in new if isinstance(x, Pred) and x.name == "ctx"), \
        next(x for x in new if isinstance(x, Pred) and x.name == "tree")


def bases(ex, *names):
    return [ex.freshbase(n) for n in names]


def lemma_zip(ex, m):
    top, toppar, hole, par = bases(ex, "top", "toppar", "hole", "par")
    he = ex.freshint("he")
    c = new_ctx(ex, top, toppar, hole, par, he)
    t = new_tree(ex, hole, par, None, he)
    A, B, H, ne = c.outs
    S = t.outs[0]
    if not ex.branch(ne):
        m.pure(And(top == hole, toppar == par, H == he, A.n == 0, B.n == 0), "the tree itself")
        return
    node, c2, sib = take_top(ex, c)
    # induction hypothesis
    ex.remove(c2)
    ex.remove(t)
    new_tree(ex, c2.ins[0], c2.ins[1], concat(c2.outs[0], S, c2.outs[1]), c2.outs[2])
    T2, h, _, _ = PREDS["tree"].consume(m, (top, toppar))
    seq_eq(m, T2, concat(A, S, B), "sequence")
    m.pure(h == H, "height")


def lemma_compose(ex, m):
    top, toppar, mid, mpar, hole, par = bases(ex, "top", "toppar", "mid", "mpar", "hole", "par")
    he, h1 = ex.freshint("he"), ex.freshint("h1")
    c = new_ctx(ex, top, toppar, mid, mpar, h1)
    d = new_ctx(ex, mid, mpar, hole, par, he, None, None, h1)
    A1, B1, H1, ne1 = c.outs
    A2, B2, _, ne2 = d.outs
    if not ex.branch(ne1):
        m.pure(And(top == mid, toppar == mpar, H1 == h1, A1.n == 0, B1.n == 0), "the second context itself")
        return
    node, c2, sib = take_top(ex, c)
    ex.remove(c2)
    ex.remove(d)
    ih = new_ctx(ex, c2.ins[0], c2.ins[1], hole, par, he, concat(c2.outs[0], A2), concat(B2, c2.outs[1]), c2.outs[2])
    r = topcons(m, node, ih, sib)
    m.pure(And(r.ins[0] == top, r.ins[1] == toppar, r.outs[2] == H1), "ends and height")
    seq_eq(m, r.outs[0], concat(A1, A2), "before the hole")
    seq_eq(m, r.outs[1], concat(B2, B1), "after the hole")


def lemma_bottom(ex, m):
    top, toppar, hole, par = bases(ex, "top", "toppar", "hole", "par")
    he = ex.freshint("he")
    c = new_ctx(ex, top, toppar, hole, par, he)
    A, B, H, ne = c.outs
    ex.assume(ne)
    node, c2, sib = take_top(ex, c)
    if not ex.branch(c2.outs[3]):
        # the top is the hole's parent
        pn, ps = node, sib
        rest = (nil(), nil(), H)
        gp = toppar
        ends = (top, toppar)
        m.pure(par == top, "the hole's parent")
    else:
        # induction hypothesis
        before = list(ex.chunks)
        PREDS["ctx"].bottom(ex, c2)
        new = [x for x in ex.chunks if x not in before]
        pn = next(x for x in new if isinstance(x, Mem))
        ps = next(x for x in new if isinstance(x, Pred) and x.name == "tree")
        c3 = next(x for x in new if isinstance(x, Pred) and x.name == "ctx")
        r = topcons(m, node, c3, sib)
        rest = r.outs[:3]
        ends = r.ins[:2]
        gp = tb(pn.val["parent"])
        m.pure(And(r.ins[2] == par, r.ins[3] == gp), "the rest ends at the hole's parent")
        m.pure(r.ins[4] == 1 + mx(he, ps.outs[1]), "height at the hole's parent")
    m.pure(And(ends[0] == top, ends[1] == toppar, rest[2] == H), "ends and height")
    v = pn.val.f
    m.pure(And(Z(pn.base) == par, ps.ins[1] == par), "the hole's parent")
    me = single(par, tb(v["key"]), tb(v["value"]))
    hs = ps.outs[1]
    # on which side the hole is was decided when its parent came out
    if pn is node:
        left = same(tb(v["right"]), ps.ins[0])
    else:
        left = same(tb(v["left"]), hole)
    m.pure((tb(v["left"]) if left else tb(v["right"])) == hole, "the hole is a child")
    m.pure(And(v["balance"] == (hs - he if left else he - hs)), "balance")
    m.pure(1 + mx(he, hs) == (H if pn is node else r.ins[4]), "height")
    if left:
        seq_eq(m, rest[0], A, "before the hole")
        seq_eq(m, concat(me, ps.outs[0], rest[1]), B, "after the hole")
    else:
        seq_eq(m, concat(rest[0], ps.outs[0], me), A, "before the hole")
        seq_eq(m, rest[1], B, "after the hole")


def lemma_focus(ex, m):
    p, par = bases(ex, "p", "par")
    c = new_tree(ex, p, par)
    S, h, rp, bal = c.outs
    k = ex.freshint("k")
    ex.assume(And(k >= 0, k < S.n))
    before = list(ex.chunks)
    PREDS["tree"].open(ex, c, p)
    new = [x for x in ex.chunks if x not in before]
    node = new[0]
    if ex.branch(k == rp):
        # an empty context and the tree itself
        m.pure(And(S.addr(k) == p, p != 0), "the element is the top")
        return
    left = ex.branch(k < rp)
    t, sib = (new[1], new[2]) if left else (new[2], new[1])
    k2 = k if left else k - rp - 1
    m.pure(And(k2 >= 0, k2 < t.outs[0].n), "the element is on that side")
    # induction hypothesis on the child
    ex.remove(t)
    e, epar = bases(ex, "e", "epar")
    a, n, he, rp2 = ex.freshint("a"), ex.freshint("n"), ex.freshint("he"), ex.freshint("rp2")
    T = t.outs[0]
    ex.assume(And(a >= 0, n > 0, a + n <= T.n, a + rp2 == k2))
    f = new_tree(ex, e, epar, sub(T, a, n), he)
    ex.assume(f.outs[2] == rp2)
    c2 = new_ctx(ex, t.ins[0], p, e, epar, he, sub(T, z3.IntVal(0), a), sub(T, a + n, T.n - a - n), t.outs[1])
    r = topcons(m, node, c2, sib)
    m.pure(And(r.ins[0] == p, r.ins[1] == par, r.outs[2] == h), "ends and height")
    seq_eq(m, concat(r.outs[0], f.outs[0], r.outs[1]), S, "sequence")
    m.pure(r.outs[0].n + f.outs[2] == k, "position of the element")


GHOST = [("a context filled with a tree of its hole's height is a tree", lemma_zip),
         ("contexts compose", lemma_compose),
         ("the hole's parent can be taken out of a non-empty context", lemma_bottom),
         ("every element of a tree is the top of a subtree in a context", lemma_focus)]


# ---------------------------------------------------------------- the verifier

def indirect(ex, f, args, rty):
    g = ex.ghost.get("cmp")
    if g is None:
        raise Limit("indirect call")
    ex.prove(ex.ptr_eq(f, g[0]) if isinstance(f, P) else False, "only the tree's comparator is called", kind="post")
    ex.prove(ex.ptr_eq(args[2], g[1]), "the comparator gets its context", kind="post")
    a, b = rank(tb(args[0])), rank(tb(args[1]))
    r = ex.A.fresh("cmp", I32)
    ex.assume(And((r < 0) == (a < b), (r == 0) == (a == b)))
    return r


C = Contract
EV = {"element": "ptr"}
AV = {"adj": "ptr", "element": "ptr"}
CV = {"element": "ptr", "candidate": "ptr"}
ge = lambda x, r: x >= r
gt = lambda x, r: x > r
CONTRACTS = {c.name: c for c in [
    C("avl_elem_get_key", s_elem("key")),
    C("avl_elem_get_value", s_elem("value")),
    C("destroy_avl_element", s_destroy_elem),
    C("make_avl_tree_2", s_make2),
    C("make_avl_tree", s_make),
    C("destroy_subtree", s_destroy_subtree),
    C("destroy_avl_tree", s_destroy),
    C("avl_tree_size", s_size),
    C("avl_tree_empty", s_empty),
    C("avl_tree_get", query(q_get), {0: LoopSpec(inv_find, EV)}),
    C("avl_tree_get_before", query(q_side(True, False)), {0: LoopSpec(inv_side(gt, True), CV)}),
    C("avl_tree_get_on_or_before", query(q_side(True, True)), {0: LoopSpec(inv_side(ge, True), CV)}),
    C("avl_tree_get_after", query(q_side(False, False)), {0: LoopSpec(inv_side(ge, False), CV)}),
    C("avl_tree_get_on_or_after", query(q_side(False, True)), {0: LoopSpec(inv_side(gt, False), CV)}),
    C("avl_tree_get_first", q_end(True), {0: LoopSpec(inv_end(True), EV)}),
    C("avl_tree_get_last", q_end(False), {0: LoopSpec(inv_end(False), EV)}),
    C("avl_tree_next", s_step(True), {0: LoopSpec(inv_adj("right"), AV), 1: LoopSpec(inv_climb(True), EV)}),
    C("avl_tree_previous", s_step(False), {0: LoopSpec(inv_adj("left"), AV), 1: LoopSpec(inv_climb(False), EV)}),
    C("put", s_put),
    C("avl_tree_put", s_tree_put),
    C("copy_tree", s_copy_tree),
    C("avl_tree_copy", s_copy),
    C("lighten_left", s_lighten("left")),
    C("lighten_right", s_lighten("right")),
    C("avl_tree_detach", s_detach, {0: LoopSpec(inv_detach, {"element": "ptr"}), 1: LoopSpec(inv_adj("left"), AV), 2: LoopSpec(inv_adj("right"), AV)}),
    C("avl_tree_remove", s_remove),
    C("avl_tree_pop", s_pop, {0: LoopSpec(inv_find, EV)}),
    C("avl_tree_pop_first", s_pop_end(True), {0: LoopSpec(inv_end(True), EV)}),
    C("avl_tree_pop_last", s_pop_end(False), {0: LoopSpec(inv_end(False), EV)}),
]}

NOINLINE = {"put", "copy_tree", "destroy_subtree", "lighten_left", "lighten_right", "avl_tree_detach"}


def verifier():
    return Verifier([Unit(src("avltree.c"))], CONTRACTS, PREDS, builtins=libc.BUILTINS, indirect=indirect,
                    inline=set(CONTRACTS) - NOINLINE)


C04 = ["avl_tree_get_before", "avl_tree_get_on_or_before", "avl_tree_get_after", "avl_tree_get_on_or_after",
       "avl_tree_get_first", "avl_tree_get_last", "avl_tree_next", "avl_tree_previous"]
C03 = ["make_avl_tree_2", "make_avl_tree", "put", "avl_tree_put", "lighten_left", "lighten_right", "avl_tree_detach",
       "avl_tree_remove", "avl_tree_pop", "avl_tree_pop_first", "avl_tree_pop_last", "copy_tree", "avl_tree_copy"]
C02 = [f for f in CONTRACTS if f not in C04]
FUNCS = list(CONTRACTS)
