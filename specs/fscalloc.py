"""fscalloc(): the request covers the product and all of it is cleared."""
from slv import *
import libc


def b_fsalloc(ex, args, rty):
    """contract of fsalloc (C25): the reallocator's answer for that size"""
    size = args[0]
    ex.ghost.setdefault("asked", []).append(size)
    if ex.choose(2) == 0:
        return NULL
    base = ex.freshbase("blk")
    ex.add_chunk(Raw(base, size))
    return P(base)


def spec(m, nmemb, size):
    ret = yield
    ex = m.ex
    asked = ex.ghost.get("asked", [])
    if len(asked) != 1:
        m.pure(False, "exactly one request")
        return
    s = asked[0]
    prod = nmemb * size
    m.pure(s <= (1 << 64) - 1, "a request is a size_t")
    m.pure(Implies(prod <= (1 << 64) - 1, s == prod), "the request is the product when that is representable")
    m.pure(Implies(prod > (1 << 64) - 1, s == (1 << 64) - 1), "an overflowing product makes a request that cannot be satisfied")
    r = m.val(ret)
    if not m.split(ex.nonnull(r)):
        return
    # the block handed out is the one allocated, cleared throughout
    a = m.arr(r, U8, n=s)
    m.forall(lambda i: Implies(And(i >= 0, i < s), a.get(i) == 0), "every byte is zero")


CONTRACTS = {"fscalloc": Contract("fscalloc", spec)}


def verifier():
    b = dict(libc.BUILTINS)
    b["fsalloc"] = b_fsalloc
    return Verifier([Unit(src("fsalloc.c"))], CONTRACTS, {}, builtins=b)


FUNCS = ["fscalloc"]
