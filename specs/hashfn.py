"""hash_string() and hash_blob(): the value is made of the bytes alone (C20).

The loop invariant names the running value F(i) after i bytes.  What the body
makes of F(i) and byte i is read off the obligation: it may mention nothing
else, so by induction F(n), the result, is a function of the bytes and their
number; equal contents hash equally.  Every access lies within the bytes."""
from slv import *
import libc
import z3.z3util

F = z3.Function("F", z3.IntSort(), z3.IntSort())


def made_of(e, ok, seen=None):
    """e is built from numbers and the symbols ok allows"""
    seen = set() if seen is None else seen
    if not isz(e):
        return isinstance(e, int)
    if e.get_id() in seen:
        return True
    seen.add(e.get_id())
    d = e.decl()
    if d.kind() == z3.Z3_OP_UNINTERPRETED and not ok(d):
        return False
    if d.kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
        return True
    return all(made_of(c, ok, seen) for c in e.children())


def allowed(m, e, get, what, *also):
    probe = get(z3.Int("probe"))
    names = set()
    for x in also:
        if isz(x):
            names |= {str(v) for v in z3.z3util.get_vars(x)}

    def scan(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
            names.add(t.decl().name())
        for c in t.children():
            scan(c)
    if isz(probe):
        scan(probe)
    # the result of an unsigned operation brought into range is a function of its operands
    good = made_of(e, lambda d: d.name() == "F" or d.name() in names or d.name().startswith("wrap"))
    m.pure(z3.BoolVal(bool(good)), what)


def s_string(m, s):
    n, get = m.cstr(s)
    m.ex.ghost["h"] = s, n, get
    ret = yield
    allowed(m, m.val(ret), get, "the hash is made of the bytes of the string")


def s_blob(m, p, size):
    n = size
    get = m.borrow(p, U8, n).get
    m.ex.ghost["h"] = p, n, get
    ret = yield
    allowed(m, m.val(ret), get, "the hash is made of the bytes of the blob")


def inv(ptr, count):
    def i_(m):
        ex = m.ex
        s, n, get = ex.ghost["h"]
        i = m.ptr(ptr, s.base)
        i = i if isz(i) else z3.IntVal(i)
        ex.index_term(i)
        m.pure(And(i >= 0, i <= n), "within the bytes")
        if count:
            c = m.var(count)
            m.pure(c + i == n, "what is left")
        h = m.var("hash")
        if m.assuming:
            m.setvar("hash", F(i))
            ex.assume(And(F(i) >= 0, F(i) < (1 << 64)))
        else:
            allowed(m, h, get, "the running value is made of the bytes seen", i, n)
        m.decreases(n - i)
    return i_


CONTRACTS = {c.name: c for c in [
    Contract("hash_string", s_string, {0: LoopSpec(inv("s", None), {"s": "ptr", "hash": "int:64:False"})}),
    Contract("hash_blob", s_blob, {0: LoopSpec(inv("p", "size"), {"p": "ptr", "hash": "int:64:False", "size": "int:64:False"})})]}
FUNCS = list(CONTRACTS)


def verifier():
    return Verifier([Unit(src("hashtable.c"))], CONTRACTS, {}, builtins=libc.BUILTINS)
