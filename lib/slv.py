"""slv: a deductive verifier for C functions in separation-logic style.

It symbolically executes the clang AST of the real function, one function at a
time, against a contract.  Calls are replaced by the callee's contract, loops
by their invariant, every memory access needs an owned chunk, and each
postcondition, precondition, invariant, bound, overflow and ownership condition
is an obligation discharged by z3 for all inputs.
"""
import itertools, os, pickle, select, signal, sys, time, traceback
import z3
from cfront import *
from common import Ob, ToolError

UNINIT = object()
def div_facts(a, b, q):
    """linear consequences of a == q * b + r, 0 <= r < b (lemma, see div_lemmas)"""
    return And(q <= a, Implies(b >= 2, 2 * q <= a), Implies(b >= 10, 10 * q <= a), Implies(q > 0, b <= a))


def div_lemmas():
    a, b, q, r = z3.Ints("a b q r")
    return [("linear consequences of a division", Implies(And(a == q * b + r, a >= 0, r >= 0, r < b, q >= 0), div_facts(a, b, q)))]


UDIV = z3.Function("udiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
UMOD = z3.Function("umod", z3.IntSort(), z3.IntSort(), z3.IntSort())


# processes that may run at once; none: no parallel paths
TOKENS = None
try:
    from fixedvars import FIXED
except ImportError:
    FIXED = {}
PROF = float(os.environ.get("SLV_PROF", "0") or 0)


class Infeasible(Exception):
    pass


class PathDone(Exception):
    pass


class PathFail(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class P:
    """pointer: base object address (0 = NULL) and path into the object"""
    __slots__ = ("base", "path")

    def __init__(self, base, path=()):
        self.base, self.path = base, path

    def __repr__(self):
        return "P(%s,%s)" % (self.base, self.path)

    @property
    def idx(self):
        if not self.path:
            return 0
        if len(self.path) == 1 and not isinstance(self.path[0], str):
            return self.path[0]
        raise Limit("pointer into a subobject used as an array pointer")


NULL = P(0)


class FuncRef:
    def __init__(self, name):
        self.name = name


class StructVal:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = dict(f)

    def __getitem__(self, k):
        return self.f[k]


class ArrVal:
    """n elements of type et; get(i) the contents; defd(i) whether initialised"""
    __slots__ = ("n", "et", "get", "defd", "slen", "raw", "agg")

    def __init__(self, n, et, get, defd=None, slen=None):
        self.n, self.et, self.get, self.defd = n, et, get, defd
        self.slen = slen      # index of the first NUL, when known
        self.raw = False
        self.agg = None       # agg(k): count of a probed value in [0, k)


class Mem:
    __slots__ = ("base", "ty", "val", "heap", "frozen", "name", "ro")

    def __init__(self, base, ty, val, heap=True, name="", ro=False):
        self.base, self.ty, self.val, self.heap = base, ty, val, heap
        self.frozen, self.name, self.ro = 0, name, ro


class Raw:
    """freshly allocated, untyped block"""
    __slots__ = ("base", "size", "heap", "frozen", "zero", "cnt", "ro")

    def __init__(self, base, size, zero=False, cnt=None):
        self.base, self.size, self.heap, self.frozen = base, size, True, 0
        self.zero, self.cnt, self.ro = zero, cnt, False


class Pred:
    __slots__ = ("name", "ins", "outs", "frozen")

    def __init__(self, name, ins, outs):
        self.name, self.ins, self.outs = name, tuple(ins), tuple(outs)
        self.frozen = 0

    def __repr__(self):
        return "%s(%s;%s)" % (self.name, self.ins, self.outs)


class Var:
    __slots__ = ("name", "ty", "v", "mem")

    def __init__(self, name, ty, v=UNINIT):
        self.name, self.ty, self.v, self.mem = name, ty, v, None


class Frame:
    def __init__(self, fname, unit, fn):
        self.fname, self.unit, self.fn = fname, unit, fn
        self.env = {}
        self.names = {}
        self.boxed = addr_taken(fn)


_addr_cache = {}


def addr_taken(fn):
    key = id(fn)
    if key in _addr_cache:
        return _addr_cache[key][1]
    s = set()

    def go(n):
        if not isinstance(n, dict):
            return
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
            x = inner(n)[0]
            while x.get("kind") in ("ParenExpr",):
                x = inner(x)[0]
            if x.get("kind") == "DeclRefExpr":
                s.add(x["referencedDecl"]["id"])
        for x in inner(n):
            go(x)
    go(fn)
    _addr_cache[key] = (fn, s)
    return s


def assigned_in(n):
    """decl ids assigned, or whose address is taken, inside a statement"""
    s, a = set(), set()

    def strip(x):
        while x.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            x = inner(x)[0]
        return x

    def go(n):
        if not isinstance(n, dict):
            return
        k = n.get("kind")
        if (k == "BinaryOperator" and n.get("opcode") == "=") or k == "CompoundAssignOperator" \
           or (k == "UnaryOperator" and n.get("opcode") in ("++", "--")):
            x = strip(inner(n)[0])
            if x.get("kind") == "DeclRefExpr":
                s.add(x["referencedDecl"]["id"])
        if k == "UnaryOperator" and n.get("opcode") == "&":
            x = strip(inner(n)[0])
            if x.get("kind") == "DeclRefExpr":
                a.add(x["referencedDecl"]["id"])
        for x in inner(n):
            go(x)
    go(n)
    return s, a


def isz(v):
    return isinstance(v, z3.ExprRef)


def same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    return a == b


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    if a is True:
        return b
    if a is False:
        return True
    if isinstance(b, bool):
        return True if b else Not(a)
    return z3.Implies(a, b)


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if not isz(a) and not isz(b):
        if isinstance(a, bool) or isinstance(b, bool):
            return z3.If(c, z3.BoolVal(bool(a)), z3.BoolVal(bool(b)))
        return z3.If(c, z3.IntVal(a), z3.IntVal(b))
    return z3.If(c, a, b)


# -------------------------------------------------------------- arithmetic

class IntArith:
    """mathematical integers plus exact wrap-around / overflow obligations"""
    bv = False

    def __init__(self, ex):
        self.ex = ex

    def fresh(self, name, ty):
        v = z3.Int(self.ex.nm(name))
        if ty is not None and ty.isint:
            self.ex.assume(And(v >= ty.lo(), v <= ty.hi()))
        return v

    def fix(self, v, ty, wide=False):
        """bring a mathematical result into type ty"""
        ex = self.ex
        if not isz(v):
            if ty.lo() <= v <= ty.hi():
                return v
            if ty.s:
                ex.prove(False, "signed overflow", kind="overflow")
            return v & ty.hi() if not ty.s else v
        inr = And(v >= ty.lo(), v <= ty.hi())
        if ty.s:
            ex.prove(inr, "no signed overflow", kind="overflow")
            return v
        if ex.entails(inr, quick=True):
            return v
        if wide:
            return v % (1 << ty.w)
        m = 1 << ty.w
        r = ex.freshint("wrap")
        ex.assume(r == z3.If(v < 0, v + m, z3.If(v >= m, v - m, v)))
        return r

    def add(self, a, b, ty):
        if ty.s is False and ty.w == 64:
            # x + 2^64 - k is x - k: constants from (size_t) -1 and the like
            if isinstance(b, int) and b > (1 << 63):
                return self.fix(a - ((1 << 64) - b), ty)
        return self.fix(a + b, ty)

    def sub(self, a, b, ty):
        return self.fix(a - b, ty)

    def mul(self, a, b, ty):
        return self.fix(a * b, ty, wide=True)

    def neg(self, a, ty):
        return self.fix(-a, ty)

    def divmod(self, a, b, ty):
        """C division: truncation towards zero"""
        ex = self.ex
        ex.prove(b != 0 if isz(b) else bool(b != 0), "division by zero", kind="arith")
        if not isz(a) and not isz(b):
            q, r = abs(a) // abs(b), abs(a) % abs(b)
            return (q if (a < 0) == (b < 0) else -q), (r if a >= 0 else -r)
        if not isz(a):
            a = z3.IntVal(a)
        if isz(b):
            if ty.s:
                ex.prove(Not(And(b == -1, a == ty.lo())), "no division overflow", kind="overflow")
                if not ex.entails(And(a >= 0, b > 0)):
                    raise Limit("signed division by a symbolic value")
            q, r = UDIV(a, b), UMOD(a, b)
            ex.assume_once(And(a == q * b + r, r >= 0, r < b, q >= 0))
            ex.assume_once(div_facts(a, b, q))
            return q, r
        if b < 0:
            raise Limit("division by a negative constant")
        if ty.s and not ex.branch(a >= 0):
            q, r = self.quot(z3.simplify(-a), b)
            return -q, -r
        return self.quot(a, b)

    def quot(self, a, b):
        """quotient and remainder of a >= 0 by a positive constant"""
        ex = self.ex
        c = ex.__dict__.setdefault("_quot", {})
        k = (a.get_id(), b)
        if k not in c:
            q, r = ex.freshint("q"), ex.freshint("r")
            ex.assume(And(a == q * b + r, r >= 0, r < b, q >= 0))
            c[k] = (q, r, a)
        return c[k][:2]

    def div(self, a, b, ty):
        return self.divmod(a, b, ty)[0]

    def mod(self, a, b, ty):
        return self.divmod(a, b, ty)[1]

    def shl(self, a, n, ty):
        ex = self.ex
        n = ex.concretize(n, 0, ty.w - 1, "shift amount")
        if ty.s:
            if isz(a):
                ex.prove(a >= 0, "no shift of a negative value", kind="overflow")
        return self.fix(a * (1 << n), ty, wide=True)

    def shr(self, a, n, ty):
        n = self.ex.concretize(n, 0, ty.w - 1, "shift amount")
        if not isz(a):
            return a >> n
        return a / (1 << n)          # floor: arithmetic shift for negatives

    def band(self, a, b, ty):
        if not isz(a) and not isz(b):
            return a & b
        if not isz(a):
            a, b = b, a
        if not isz(b):
            if b < 0:
                b &= (1 << ty.w) - 1
                if ty.s:
                    raise Limit("signed negative mask")
            if b == 0:
                return 0
            if b == (1 << ty.w) - 1:
                return a
            # contiguous masks 2^j(2^k - 1), or few pieces
            r, pos, parts = b, 0, []
            while r:
                while not r & 1:
                    r >>= 1
                    pos += 1
                k = 0
                while r & 1:
                    r >>= 1
                    k += 1
                parts.append((pos, k))
                pos += k
            if len(parts) > 3:
                raise Limit("scattered mask")
            out = 0
            for pos, k in parts:
                piece = (a / (1 << pos)) if pos else a
                piece = piece % (1 << k)      # two's complement: floor div/mod
                out = out + piece * (1 << pos) if pos else out + piece
            return out
        raise Limit("bitwise and of symbolic values")

    def bor(self, a, b, ty):
        if not isz(a) and not isz(b):
            return a | b
        if isz(a) and not isz(b):
            a, b = b, a
        if not isz(a) and a == 0:
            return b
        ex = self.ex
        # disjoint operands: one is a multiple of 2^k, the other below 2^k
        for x, y in ((a, b), (b, a)):
            for k in (8, 6, 16, 12, 24, 18, 4, 2, 1, 3, 5, 7):
                m = 1 << k
                xm = (x % m == 0) if isz(x) else bool(x % m == 0)
                if xm is False:
                    continue
                yr = And(y >= 0, y < m) if isz(y) else bool(0 <= y < m)
                if yr is False:
                    continue
                if ex.entails(And(xm, yr), quick=True):
                    return x + y
        if not isz(a):
            # constant: x | c = x - (x & c) + c
            return b - self.band(b, a, ty) + a
        raise Limit("bitwise or of symbolic values")

    def bxor(self, a, b, ty):
        if not isz(a) and not isz(b):
            return a ^ b
        raise Limit("xor of symbolic values")

    def bnot(self, a, ty):
        return -1 - a if ty.s else (1 << ty.w) - 1 - a

    def cmp(self, op, a, b, ty):
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()

    def cast(self, v, frm, to):
        if not isz(v):
            v &= (1 << to.w) - 1
            if to.s and v >> (to.w - 1):
                v -= 1 << to.w
            return v
        if to.lo() <= frm.lo() and frm.hi() <= to.hi():
            return v
        if self.ex.entails(And(v >= to.lo(), v <= to.hi()), quick=True):
            return v
        m = 1 << to.w
        h = 1 << (to.w - 1)
        r = self.ex.freshint("cast")
        if to.s:
            if frm.w == to.w:
                self.ex.assume(r == z3.If(v >= h, v - m, v))
            else:
                self.ex.assume(r == (v + h) % m - h)
        else:
            if frm.w <= to.w:
                self.ex.assume(r == z3.If(v < 0, v + m, v))
            else:
                self.ex.assume(r == v % m)
        return r

    def idx(self, v, ty):
        """integer of C type ty as a pointer index"""
        return v

    def idxlit(self, n):
        return n

    def idxge0(self, i):
        return i >= 0

    def idxlt(self, i, n):
        return i < n

    def idxle(self, i, n):
        return i <= n


class BVArith:
    """bit-vectors: machine semantics directly"""
    bv = True

    def __init__(self, ex):
        self.ex = ex

    def fresh(self, name, ty):
        w = ty.w if ty is not None and ty.isint else 64
        v = z3.BitVec(self.ex.nm(name), w)
        if ty is not None and ty.k == "bool":
            self.ex.assume(z3.ULE(v, 1))
        return v

    def lift(self, v, ty):
        if isz(v):
            return v
        return z3.BitVecVal(v, ty.w)

    def add(self, a, b, ty):
        a, b = self.lift(a, ty), self.lift(b, ty)
        if ty.s:
            self.ex.prove(And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), "no signed overflow", kind="overflow")
        return a + b

    def sub(self, a, b, ty):
        a, b = self.lift(a, ty), self.lift(b, ty)
        if ty.s:
            self.ex.prove(And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), "no signed overflow", kind="overflow")
        return a - b

    def mul(self, a, b, ty):
        a, b = self.lift(a, ty), self.lift(b, ty)
        if ty.s:
            self.ex.prove(And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), "no signed overflow", kind="overflow")
        return a * b

    def neg(self, a, ty):
        a = self.lift(a, ty)
        if ty.s:
            self.ex.prove(a != z3.BitVecVal(ty.lo(), ty.w), "no signed overflow", kind="overflow")
        return -a

    def div(self, a, b, ty):
        a, b = self.lift(a, ty), self.lift(b, ty)
        self.ex.prove(b != 0, "division by zero", kind="arith")
        return a / b if ty.s else z3.UDiv(a, b)

    def mod(self, a, b, ty):
        a, b = self.lift(a, ty), self.lift(b, ty)
        self.ex.prove(b != 0, "division by zero", kind="arith")
        return z3.SRem(a, b) if ty.s else z3.URem(a, b)

    def _sh(self, n, ty):
        if not isz(n):
            n = z3.BitVecVal(n, ty.w)
        if n.size() < ty.w:
            n = z3.ZeroExt(ty.w - n.size(), n)
        elif n.size() > ty.w:
            n = z3.Extract(ty.w - 1, 0, n)
        self.ex.prove(z3.ULT(n, ty.w), "shift amount in range", kind="overflow")
        return n

    def shl(self, a, n, ty):
        return self.lift(a, ty) << self._sh(n, ty)

    def shr(self, a, n, ty):
        a = self.lift(a, ty)
        n = self._sh(n, ty)
        return a >> n if ty.s else z3.LShR(a, n)

    def band(self, a, b, ty):
        return self.lift(a, ty) & self.lift(b, ty)

    def bor(self, a, b, ty):
        return self.lift(a, ty) | self.lift(b, ty)

    def bxor(self, a, b, ty):
        return self.lift(a, ty) ^ self.lift(b, ty)

    def bnot(self, a, ty):
        return ~self.lift(a, ty)

    def cmp(self, op, a, b, ty):
        if not isz(a) and not isz(b):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        a, b = self.lift(a, ty), self.lift(b, ty)
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        if ty.s:
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        return {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[op](a, b)

    def cast(self, v, frm, to):
        if not isz(v):
            v &= (1 << to.w) - 1
            if to.s and v >> (to.w - 1):
                v -= 1 << to.w
            return v
        w = v.size()
        if w == to.w:
            return v
        if w > to.w:
            return z3.Extract(to.w - 1, 0, v)
        return z3.SignExt(to.w - w, v) if frm.s else z3.ZeroExt(to.w - w, v)

    def idx(self, v, ty):
        v = self.lift(v, ty)
        return self.cast(v, ty, I64)

    def idxlit(self, n):
        return z3.BitVecVal(n, 64)

    def idxge0(self, i):
        return i >= 0

    def idxlt(self, i, n):
        if not isz(i):
            i = z3.BitVecVal(i, 64)
        return z3.ULT(i, n)

    def idxle(self, i, n):
        if not isz(i):
            i = z3.BitVecVal(i, 64)
        return z3.ULE(i, n)


# ------------------------------------------------------------------ engine

class Ex:
    """one path of one function's verification"""

    def __init__(self, ver, prefix):
        self.ver = ver
        self.prefix = prefix          # decisions to replay
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", ver.timeout)
        self.counter = {}
        self.chunks = []
        self.frames = []
        self.A = (BVArith if ver.mode == "bv" else IntArith)(self)
        self.pc = []
        self.lazy = []                # (arity, fn, set of done tuples)
        self.terms = []               # index terms
        self.kterms = {}              # index terms of a kind of their own
        self.live = len(prefix) == 0  # obligations are fresh
        self.chain = []
        self.depth = 0
        self.freeze = 0
        self.errno = None
        self.globals_mem = {}
        self.line = 0
        self.ghost = {}
        self.notes = []
        self.nobl = 0
        self.model_terms = []
        self.inline_stack = []
        self.loopstack = []

    # -- names and terms
    def nm(self, s):
        k = self.counter.get(s, 0)
        self.counter[s] = k + 1
        return "%s!%d" % (s, k)

    def freshint(self, s):
        return z3.Int(self.nm(s))

    def fresh(self, s, ty):
        if ty.k == "ptr":
            return P(self.freshbase(s))
        if ty.isint:
            return self.A.fresh(s, ty)
        if ty.k == "struct":
            return StructVal({f: self.fresh(s + "." + f, ft) for f, ft in self.unit.fields(ty)})
        if ty.k == "arr":
            if ty.n is None:
                raise Limit("fresh VLA")
            return self.arr_fresh(s, ty.to, ty.n)
        raise Limit("fresh %r" % ty)

    def freshbase(self, s):
        v = z3.BitVec(self.nm(s), 64) if self.A.bv else z3.Int(self.nm(s))
        if not self.A.bv:
            self.assume(v >= 0)
        return v

    def arr_uf(self, name, et):
        """an uninterpreted contents function for elements of type et"""
        if et.k == "arr" and et.n is not None and et.to.isint and not self.A.bv:
            f2 = z3.Function(self.nm(name), z3.IntSort(), z3.IntSort(), z3.IntSort())

            def cell(i, j):
                v = f2(i if isz(i) else z3.IntVal(i), j if isz(j) else z3.IntVal(j))
                self.assume_range(v, et.to)
                return v
            return lambda i: ArrVal(et.n, et.to, lambda j: cell(i, j))
        if self.A.bv:
            dom = z3.BitVecSort(64)
            rng = z3.BitVecSort(et.w if et.isint else 64)
        else:
            dom = rng = z3.IntSort()
        f = z3.Function(self.nm(name), dom, rng)

        def get(i):
            v = f(i if isz(i) else (z3.BitVecVal(i, 64) if self.A.bv else z3.IntVal(i)))
            if et.isint and not self.A.bv:
                self.assume_range(v, et)
            if et.k == "ptr":
                if not self.A.bv:
                    self.assume_once(v >= 0)
                return P(v)
            return v
        return get

    def arr_fresh(self, name, et, n, slen=None):
        return ArrVal(n, et, self.arr_uf(name, et), None, slen)

    def assume_range(self, v, ty):
        self.assume_once(And(v >= ty.lo(), v <= ty.hi()))

    def assume_once(self, e):
        if not hasattr(self, "_once"):
            self._once = set()
        k = e.get_id() if isz(e) else e
        if k in self._once:
            return
        self._once.add(k)
        self._keep = getattr(self, "_keep", [])
        self._keep.append(e)
        self.assume(e)

    # -- logic
    def assume(self, e):
        if e is True:
            return
        if e is False:
            raise Infeasible()
        self.solver.add(e)
        self.pc.append(e)

    def index_term(self, t, kind=None):
        """universally quantified facts of this kind are looked at for t"""
        if not isz(t):
            if self.A.bv:
                t = z3.BitVecVal(t, 64)
            else:
                t = z3.IntVal(t)
        terms = self.terms if kind is None else self.kterms.setdefault(kind, [])
        for u in terms:
            if u.eq(t):
                return
        terms.append(t)

    def add_lazy(self, fn, arity=1, kind=None):
        self.lazy.append((arity, fn, set(), kind))

    def instantiate(self):
        for _ in range(3):
            count = lambda: len(self.terms) + sum(len(x) for x in self.kterms.values())
            n0 = count()
            for arity, fn, done, kind in list(self.lazy):
                terms = self.terms if kind is None else self.kterms.setdefault(kind, [])
                for tup in itertools.product(range(len(terms)), repeat=arity):
                    if tup in done:
                        continue
                    done.add(tup)
                    e = fn(*[terms[i] for i in tup])
                    if e is not True and e is not None:
                        self.assume(e)
            if count() == n0:
                break

    def check(self, *es):
        self.ver.nchecks += 1
        t = time.time()
        r = self.solver.check(*es)
        dt = time.time() - t
        self.ver.solver_time += dt
        if PROF and dt > PROF:
            print("  [slow %.1fs %s] line %s terms %d pc %d: %s" % (dt, r, getattr(self, "line", "?"), len(self.terms), len(self.pc), str(es)[:150].replace("\n", " ")), flush=True)
        return r

    def feasible(self, e):
        # an undecided branch is explored: that is always sound
        if self.ver.light and isz(e):
            return self.retry(z3.Not(e), self.ver.light, 2000) != z3.unsat
        self.solver.set("timeout", min(self.ver.timeout, 3000))
        r = self.check(e)
        self.solver.set("timeout", self.ver.timeout)
        return r != z3.unsat

    def entails(self, e, quick=False):
        if isinstance(e, bool):
            return e
        if quick:
            self.solver.set("timeout", 1500)
        else:
            self.instantiate()
        r = self.check(z3.Not(e))
        if quick:
            self.solver.set("timeout", self.ver.timeout)
        return r == z3.unsat

    def branch(self, e, label=""):
        """explore both outcomes of e; returns this path's outcome"""
        if isinstance(e, bool):
            return e
        if not isz(e):
            return bool(e)
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
            if len(self.trace) == len(self.prefix):
                self.live = True
            self.assume(e if d in (1, 3) else z3.Not(e))
            return d in (1, 3)
        if time.time() > self.ver.deadline:
            raise Limit("out of time")
        self.instantiate()
        t = self.feasible(e)
        f = self.feasible(z3.Not(e))
        if not t and not f:
            raise Infeasible()
        if t and f:
            self.ver.work.append(self.trace + [0])
            self.trace.append(1)
            self.assume(e)
            return True
        self.trace.append(3 if t else 2)
        self.assume(e if t else z3.Not(e))
        return t

    def choose(self, n, label=""):
        """explore n alternatives (nondeterminism)"""
        for k in range(n - 1):
            b = z3.Bool(self.nm("choice"))
            if self.branch(b):
                return k
        return n - 1

    def concretize(self, v, lo, hi, what):
        """case split v over the integers lo..hi (an obligation)"""
        if not isz(v):
            self.prove(lo <= v <= hi, what + " in range", kind="arith")
            return v
        self.prove(And(v >= lo, v <= hi), what + " in range", kind="arith")
        for k in range(lo, hi):
            if self.branch(v == k):
                return k
        return hi

    def prove(self, e, label, kind="post"):
        if e is True:
            if self.live:
                self.ver.obligation(self, label, kind, "proved", 0.0, "")
            return
        if self.live:
            t = time.time()
            if e is False:
                self.instantiate()
                r = self.check()
                if r == z3.unsat:
                    raise Infeasible()
                self.ver.obligation(self, label, kind, "failed" if r == z3.sat else "unknown", time.time() - t, self.describe())
                raise PathFail()
            self.instantiate()
            r = z3.unknown
            if self.ver.light and isz(e):
                # leaving facts out is sound; most goals need only the light ones
                r = self.retry(e, self.ver.light, 2000)
            if r != z3.unsat:
                r = self.check(z3.Not(e))
            if r == z3.unknown:
                r = self.retry(e)
            dt = time.time() - t
            if r == z3.unsat:
                self.ver.obligation(self, label, kind, "proved", dt, "")
            else:
                # a path that is not really feasible proves anything
                if self.check() == z3.unsat:
                    raise Infeasible()
                self.ver.obligation(self, label, kind, "failed" if r == z3.sat else "unknown", dt,
                                    "cannot show: %s\n%s" % (str(e)[:1500], self.describe(z3.Not(e))))
        elif e is False:
            raise PathFail()
        self.assume(e)

    def retry(self, e, only=None, limit=None):
        s = z3.Solver()
        s.set("timeout", limit or self.ver.timeout * 2)
        s.set("random_seed", 7)
        for x in self.pc:
            if only is None or not isz(x) or only(x):
                s.add(x)
        s.add(z3.Not(e))
        t = time.time()
        r = s.check()
        self.ver.solver_time += time.time() - t
        return r

    def describe(self, extra=None):
        out = ["line %s, path %s" % (self.line, "".join(str(d) for d in self.trace))]
        try:
            r = self.check(extra) if extra is not None else self.check()
            if r == z3.sat:
                m = self.solver.model()
                for name, v in self.model_terms[:30]:
                    if isinstance(v, P):
                        v = v.base
                    if isz(v):
                        out.append("  %s = %s" % (name, m.eval(v, True)))
        except z3.Z3Exception:
            pass
        out.append("  heap: " + "; ".join(self.chunk_text(c) for c in self.chunks)[:800])
        return "\n".join(out)

    def chunk_text(self, c):
        if isinstance(c, Pred):
            return repr(c)
        if isinstance(c, Raw):
            return "raw(%s,%s)" % (c.base, c.size)
        return "%s@%s" % (c.ty, c.base)

    # -- heap
    def add_chunk(self, c):
        self.chunks.append(c)
        if isinstance(c, Pred):
            roots = self.ver.preds[c.name].roots(self, c)
        else:
            if isinstance(c.base, z3.ExprRef) or isz(c.base):
                self.assume(c.base != 0)
            roots = [(c.base, True)]
        for o in self.chunks[:-1]:
            if isinstance(o, Pred):
                other = self.ver.preds[o.name].roots(self, o)
            else:
                other = [(o.base, True)]
            for b, nz in roots:
                for b2, nz2 in other:
                    if isz(b) and isz(b2) and not b.eq(b2):
                        self.assume(Implies(And(nz, nz2), b != b2))
                    elif isz(b) and isz(b2):
                        self.assume(Not(And(nz, nz2)))
        return c

    def remove(self, c):
        self.chunks = [x for x in self.chunks if x is not c]

    def new_mem(self, ty, val, heap=True, name="m", base=None, ro=False):
        if base is None:
            base = self.freshbase(name)
        c = Mem(base, ty, val, heap, name, ro)
        self.add_chunk(c)
        return c

    def find(self, base, why="memory access", want=None, soft=False):
        """the Mem/Raw chunk at address base, opening predicates on demand"""
        for rounds in range(8):
            for c in self.chunks:
                if not isinstance(c, Pred) and same(c.base, base):
                    return c
            claimed = False
            for c in self.chunks:
                if isinstance(c, Pred) and self.ver.preds[c.name].claims(self, c, base):
                    claimed = True
                    break
            if claimed:
                continue
            if not isz(base):
                if soft:
                    return None
                if base == 0:
                    self.prove(False, why + ": null pointer", kind="memory")
                self.prove(False, why + ": invalid pointer", kind="memory")
            if soft and not self.feasible(base != 0):
                return None
            if rounds == 0 and not soft:
                self.prove(base != 0, why + ": pointer not null", kind="memory")
            self.instantiate()
            if self.check() != z3.sat:
                raise Limit("solver gave up looking for a chunk")
            m = self.solver.model()
            bv = m.eval(base, True)
            hit = None
            for c in self.chunks:
                if isinstance(c, Pred):
                    for b, nz in self.ver.preds[c.name].roots(self, c):
                        if isz(b) and m.eval(b, True).eq(bv) and (nz is True or z3.is_true(m.eval(nz, True))):
                            hit = (c, And(b == base, nz))
                            break
                else:
                    if m.eval(c.base, True).eq(bv):
                        hit = (c, c.base == base)
                if hit:
                    break
            if hit is None:
                # other owners, for this model, may exist inside predicates
                opened = False
                for c in self.chunks:
                    if isinstance(c, Pred) and self.ver.preds[c.name].open_inside(self, c, base):
                        opened = True
                        break
                if opened:
                    continue
                if soft:
                    return None
                self.prove(False, why + ": address is not owned here", kind="memory")
            c, cond = hit
            if soft:
                if not self.entails(cond):
                    return None
            elif not self.branch(cond):
                continue
            if isinstance(c, Pred):
                self.ver.preds[c.name].open(self, c, base)
                continue
            return c
        if soft:
            return None
        raise Limit("too many unfoldings")

    def typed(self, c, elt):
        """turn a raw block into typed memory on first typed access"""
        if isinstance(c, Mem):
            return c
        if elt is None or elt.k in ("void", "func"):
            elt = U8
        sz = self.unit.sizeof(elt)
        if elt.k == "struct":
            if c.zero:
                raise Limit("zeroed struct")
            self.prove(self.A.cmp(">=", c.size, sz, U64), "the allocated block is large enough for the structure", kind="memory")
            val = StructVal({f: self.uninit(ft) for f, ft in self.unit.fields(elt)})
            m = Mem(c.base, elt, val, c.heap)
        else:
            if c.cnt is not None and c.cnt[1] == sz:
                n = c.cnt[0]
            elif sz == 1:
                n = c.size
            else:
                n = self.A.div(c.size, sz, U64)
            zero = c.zero
            getz = None
            if zero:
                if elt.k == "ptr":
                    getz = lambda i: P(0)
                elif self.A.bv:
                    getz = lambda i: z3.BitVecVal(0, elt.w)
                else:
                    getz = lambda i: 0
                val = ArrVal(n, elt, getz, None)
            else:
                val = ArrVal(n, elt, self.arr_uf("junk", elt), lambda i: False)
            if self.ver.agg:
                self.ver.agg.attach(self, val)
            m = Mem(c.base, T("arr", to=elt, n=None), val, c.heap)
        m.frozen = c.frozen
        self.chunks = [m if x is c else x for x in self.chunks]
        return m

    def uninit(self, ty):
        if ty.k == "struct":
            return StructVal({f: self.uninit(ft) for f, ft in self.unit.fields(ty)})
        if ty.k == "arr" and ty.n is not None:
            if ty.to.k == "arr" and ty.to.to.isint:
                junk = self.arr_uf("junk", ty.to)
                return ArrVal(ty.n, ty.to, lambda i: ArrVal(ty.to.n, ty.to.to, junk(i).get, lambda j: False))
            if ty.to.k in ("arr", "struct"):
                raise Limit("uninitialised nested array")
            return ArrVal(ty.n, ty.to, self.arr_uf("junk", ty.to), lambda i: False)
        return UNINIT

    # path resolution within a value tree
    def rd(self, val, path, ty):
        for k, p in enumerate(path):
            if isinstance(p, str):
                if isinstance(val, ArrVal):
                    raise Limit("field of array")
                ty = self.unit.field_type(ty, p)
                val = val.f[p]
            else:
                if not isinstance(val, ArrVal):
                    if same(p, 0):
                        continue        # &x + 0
                    self.prove(False, "index outside an object", kind="memory")
                self.bounds(val, p)
                if val.defd is not None and k == len(path) - 1:
                    self.prove(val.defd(p), "initialised before use", kind="memory")
                et = val.et
                val = val.get(p)
                ty = et
        return val, ty

    def bounds(self, arr, i):
        self.index_term(i)
        n = arr.n
        if not isz(i) and not isz(n):
            self.prove(0 <= i < n, "index within bounds", kind="memory")
        elif self.A.bv:
            n = n if isz(n) else z3.BitVecVal(n, 64)
            self.prove(self.A.idxlt(i, n), "index within bounds", kind="memory")
        else:
            self.prove(And(i >= 0, i < n), "index within bounds", kind="memory")

    def wr(self, val, path, ty, v):
        if not path:
            return self.punned(v, self.storing, ty)
        p = path[0]
        if isinstance(p, str):
            f = dict(val.f)
            f[p] = self.wr(val.f[p], path[1:], self.unit.field_type(ty, p), v)
            return StructVal(f)
        if not isinstance(val, ArrVal):
            if same(p, 0):
                return self.wr(val, path[1:], ty, v)
            self.prove(False, "index outside an object", kind="memory")
        self.bounds(val, p)
        nv = self.punned(v, self.storing, val.et) if len(path) == 1 else self.wr(val.get(p), path[1:], val.et, v)
        return self.arr_store(val, p, nv)

    storing = None

    def punned(self, v, frm, to):
        """a value accessed through the corresponding signed or unsigned type"""
        if frm is None or not (frm.isint and to.isint) or frm.k == "bool" or to.k == "bool":
            if frm is not None and (frm.k == "int" or to.k == "int") and frm.isint != to.isint:
                raise Limit("punned access (%r as %r)" % (to, frm))
            return v
        if frm.w != to.w:
            raise Limit("access with another width (%r as %r)" % (to, frm))
        if frm.s != to.s and not isinstance(v, P) and v is not UNINIT:
            return self.A.cast(v, frm, to)
        return v

    def arr_store(self, val, p, nv):
        old, odef = val.get, val.defd
        et = val.et
        if self.A.bv and et.isint and not isz(nv):
            nv = z3.BitVecVal(nv, et.w)
        if isinstance(nv, z3.BoolRef):
            nv = self.num(nv, et)

        def get(i):
            e = self.idxeq(i, p)
            if e is True:
                return nv
            if e is False:
                return old(i)
            return self.ite_val(e, nv, old(i))
        defd = None
        if odef is not None:
            defd = lambda i: Or(self.idxeq(i, p), odef(i))
        r = ArrVal(val.n, et, get, defd)
        if val.agg is not None and self.ver.agg:
            self.ver.agg.store(self, val, p, nv, r)
        return r

    def ite_val(self, c, a, b):
        if isinstance(a, P) or isinstance(b, P):
            if (a.path or b.path):
                raise Limit("interior pointer in array")
            return P(Ite(c, a.base, b.base))
        if isinstance(a, StructVal):
            return StructVal({k: self.ite_val(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, ArrVal):
            df = lambda x, i: True if x.defd is None else x.defd(i)
            defd = None
            if a.defd is not None or b.defd is not None:
                defd = lambda i: And(Implies(c, df(a, i)), Or(c, df(b, i)))
            return ArrVal(a.n, a.et, lambda i: self.ite_val(c, a.get(i), b.get(i)), defd)
        if a is UNINIT or b is UNINIT:
            raise Limit("uninit merge")
        return Ite(c, a, b)

    def idxeq(self, i, p):
        if not isz(i) and not isz(p):
            return i == p
        if same(i, p):
            return True
        if self.A.bv:
            if not isz(i):
                i = z3.BitVecVal(i, 64)
            if not isz(p):
                p = z3.BitVecVal(p, 64)
        return i == p

    def load(self, p, ty):
        if not isinstance(p, P):
            raise Limit("dereference of a non-pointer")
        c = self.find(p.base, "read")
        elt = ty
        if isinstance(c, Raw):
            c = self.typed(c, elt)
        path = p.path
        if isinstance(c.val, ArrVal) and not path:
            path = (0,)
        v, vt = self.rd(c.val, path, c.ty)
        if isinstance(v, ArrVal) and ty.k != "arr":
            raise Limit("array read as scalar")
        if v is UNINIT:
            self.prove(False, "initialised before use", kind="memory")
        if vt.k == "int" and ty.k == "int" and vt.w == ty.w and vt.s != ty.s:
            return self.punned(v, vt, ty)
        self.compat(vt, ty)
        return v

    def compat(self, have, want):
        if have.k == want.k:
            if have.k == "int" and have.w != want.w:
                raise Limit("access with another width (%r as %r)" % (have, want))
            if have.k == "int" and have.s != want.s:
                raise Limit("sign-punned access")
            return
        if have.k == "bool" and want.k == "int" or have.k == "int" and want.k == "bool":
            raise Limit("punned access")
        if have.isint != want.isint:
            raise Limit("punned access (%r as %r)" % (have, want))

    def store(self, p, ty, v):
        c = self.find(p.base, "write")
        if isinstance(c, Raw):
            c = self.typed(c, ty)
        if c.ro:
            self.prove(False, "write to memory the contract does not let it change", kind="frame")
        self.touch(c)
        path = p.path
        if isinstance(c.val, ArrVal) and not path:
            path = (0,)
        if isinstance(v, z3.BoolRef) and ty.k != "bool":
            v = self.num(v, ty)
        if isinstance(v, P) and v.path and v.path != (0,):
            raise Limit("interior pointer stored in memory")
        if isinstance(v, FuncRef):
            v = P(self.fnterm(v.name))
        self.storing = ty
        c.val = self.wr(c.val, path, c.ty, v)
        self.storing = None

    def touch(self, c):
        """memory outside the footprint of the enclosing loops' invariants is
        changed: fine on a path that leaves those loops, not at a back edge"""
        if c.frozen > 0:
            for sp in self.loopstack[-c.frozen:]:
                sp.broke = "line %s changes memory outside the invariant's footprint (%s)" % (self.line, self.chunk_text(c))

    def fnterm(self, name):
        t = z3.BitVec("fn:" + name, 64) if self.A.bv else z3.Int("fn:" + name)
        self.assume_once(t != 0)
        return t

    # -- values
    def num(self, v, ty):
        if isinstance(v, z3.BoolRef):
            if self.A.bv:
                return z3.If(v, z3.BitVecVal(1, ty.w), z3.BitVecVal(0, ty.w))
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, bool):
            return int(v)
        return v

    def truth(self, v, ty):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, P):
            return self.nonnull(v)
        if isinstance(v, FuncRef):
            return True
        if not isz(v):
            return v != 0
        return v != 0

    def nonnull(self, p):
        if p.path and p.path != (0,):
            return True
        if not isz(p.base):
            return p.base != 0
        return p.base != 0

    def ptr_eq(self, a, b):
        if isinstance(a, FuncRef):
            a = P(self.fnterm(a.name))
        if isinstance(b, FuncRef):
            b = P(self.fnterm(b.name))
        if not isz(a.base) and not isz(b.base):
            be = a.base == b.base
        elif same(a.base, b.base):
            be = True
        else:
            be = a.base == b.base
        pa, pb = a.path or (0,), b.path or (0,)
        if len(pa) != len(pb):
            if isinstance(pa[0], str) or isinstance(pb[0], str):
                return False
            raise Limit("pointer comparison")
        cs = [be]
        for x, y in zip(pa, pb):
            if isinstance(x, str) or isinstance(y, str):
                cs.append(x == y)
            else:
                cs.append(self.idxeq(x, y))
        return And(*cs)

    # -- frames
    @property
    def frame(self):
        return self.frames[-1]

    @property
    def unit(self):
        return self.frames[-1].unit if self.frames else self.ver.unit

    # -- expressions
    def ev(self, n):
        """rvalue"""
        k = n["kind"]
        f = getattr(self, "ev_" + k, None)
        if f is None:
            raise Limit("expression " + k)
        return f(n)

    def ev_ParenExpr(self, n):
        return self.ev(inner(n)[0])

    def ev_ConstantExpr(self, n):
        return self.ev(inner(n)[0])

    def ev_IntegerLiteral(self, n):
        return int(n["value"])

    def ev_CharacterLiteral(self, n):
        v = int(n["value"])
        return v

    def ev_StringLiteral(self, n):
        return self.lval(n)

    def ev_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            if d["id"] in self.unit.enums:
                return self.unit.enums[d["id"]]
            return self.unit.enums["name:" + d["name"]]
        if d["kind"] == "FunctionDecl":
            return FuncRef(d["name"])
        return self.read_lv(self.lv(n), self.unit.ty(n))

    def ev_ImplicitCastExpr(self, n):
        return self.cast(n)

    def ev_CStyleCastExpr(self, n):
        return self.cast(n)

    def cast(self, n):
        ck = n.get("castKind")
        x = inner(n)[0]
        if ck == "LValueToRValue":
            return self.read_lv(self.lv(x), self.unit.ty(x))
        if ck == "ArrayToPointerDecay":
            return self.lv_addr(self.lv(x), decay=True)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(x)
        if ck in ("NoOp",):
            return self.ev(x)
        if ck == "NullToPointer":
            self.ev(x)
            return NULL
        if ck == "ToVoid":
            self.ev(x)
            return None
        v = self.ev(x)
        to = self.unit.ty(n)
        frm = self.unit.ty(x)
        if ck == "BitCast":
            if isinstance(v, P) and to.k == "ptr" and not v.path:
                for c in self.chunks:
                    if isinstance(c, Raw) and same(c.base, v.base) and to.to.k not in ("void", "func"):
                        self.typed(c, to.to)
            return v
        if ck == "IntegralCast":
            if isinstance(v, P):
                return v
            v = self.num(v, frm)
            return self.A.cast(v, frm, to)
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            t = self.truth(v, frm)
            return t
        if ck == "IntegralToPointer":
            if isinstance(v, P):
                return v
            v = self.num(v, frm)
            if not isz(v):
                return NULL if v == 0 else P(v)
            return P(v)
        if ck == "PointerToIntegral":
            return self.ver.ptr_to_int(self, v, to)
        if ck == "BooleanToSignedIntegral":
            return self.num(v, to)
        raise Limit("cast " + str(ck))

    def ev_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") != "sizeof":
            raise Limit("trait")
        if "argType" in n:
            return self.unit.sizeof(self.unit.ty(n["argType"]))
        x = inner(n)[0]
        while x["kind"] == "ParenExpr":
            x = inner(x)[0]
        t = self.unit.ty(x)
        if t.k == "arr" and t.n is None:
            raise Limit("sizeof VLA")
        return self.unit.sizeof(t)

    def ev_MemberExpr(self, n):
        return self.read_lv(self.lv(n), self.unit.ty(n))

    def ev_ArraySubscriptExpr(self, n):
        return self.read_lv(self.lv(n), self.unit.ty(n))

    def ev_UnaryOperator(self, n):
        op = n["opcode"]
        x = inner(n)[0]
        ty = self.unit.ty(n)
        if op == "&":
            y = x
            while y["kind"] == "ParenExpr":
                y = inner(y)[0]
            if y["kind"] == "DeclRefExpr" and y["referencedDecl"]["kind"] == "FunctionDecl":
                return FuncRef(y["referencedDecl"]["name"])
            return self.lv_addr(self.lv(x))
        if op == "*":
            t = self.unit.ty(n)
            if t.k == "func":
                return self.ev(x)
            return self.read_lv(self.lv(n), ty)
        if op == "!":
            v = self.ev(x)
            return Not(self.truth(v, self.unit.ty(x)))
        if op == "-":
            return self.A.neg(self.num(self.ev(x), ty), ty)
        if op == "+":
            return self.num(self.ev(x), ty)
        if op == "~":
            return self.A.bnot(self.num(self.ev(x), ty), ty)
        if op in ("++", "--"):
            lv = self.lv(x)
            t = self.unit.ty(x)
            old = self.read_lv(lv, t)
            new = self.incr(old, t, 1 if op == "++" else -1)
            self.write_lv(lv, t, new)
            return old if n.get("isPostfix") else new
        if op == "__extension__":
            return self.ev(x)
        raise Limit("unary " + op)

    def incr(self, old, t, d):
        if t.k == "ptr":
            return self.ptr_add(old, d, I32)
        old = self.num(old, t)
        if t.w < 32:
            r = self.A.add(self.A.cast(old, t, I32), d, I32)
            return self.A.cast(r, I32, t)
        return self.A.add(old, 1, t) if d > 0 else self.A.sub(old, 1, t)

    def ptr_add(self, p, i, ity):
        if not isinstance(p, P):
            raise Limit("arithmetic on non-pointer")
        i = self.num(i, ity)
        if self.A.bv:
            i = self.A.idx(i, ity)
        path = p.path
        if path and isinstance(path[-1], str):
            raise Limit("arithmetic on a field pointer")
        last = path[-1] if path else 0
        if self.A.bv and not isz(last):
            last = z3.BitVecVal(last, 64)
        if not isz(p.base) and p.base == 0:
            if same(i, 0):
                return p
            self.prove(False, "arithmetic on a null pointer", kind="memory")
        new = last + i if not (isinstance(last, int) and last == 0) else i
        return P(p.base, path[:-1] + (new,))

    def ev_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = inner(n)
        ty = self.unit.ty(n)
        if op == "=":
            t = self.unit.ty(a)
            if t.k == "struct":
                lv = self.lv(a)
                v = self.ev(b)
                self.write_lv(lv, t, v)
                return v
            v = self.ev(b)
            lv = self.lv(a)
            self.write_lv(lv, t, v)
            return v
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op == "&&":
            if not self.branch(self.truth(self.ev(a), self.unit.ty(a))):
                return 0
            return self.truth(self.ev(b), self.unit.ty(b))
        if op == "||":
            if self.branch(self.truth(self.ev(a), self.unit.ty(a))):
                return 1
            return self.truth(self.ev(b), self.unit.ty(b))
        ta, tb = self.unit.ty(a), self.unit.ty(b)
        va = self.ev(a)
        vb = self.ev(b)
        return self.binop(op, va, vb, ta, tb, ty)

    def binop(self, op, va, vb, ta, tb, ty):
        A = self.A
        if isinstance(va, FuncRef):
            va = P(self.fnterm(va.name))
        if isinstance(vb, FuncRef):
            vb = P(self.fnterm(vb.name))
        pa, pb = isinstance(va, P), isinstance(vb, P)
        if ta.k == "ptr" and not pa or tb.k == "ptr" and not pb:
            raise Limit("pointer value")
        if pa and pb:
            if op == "==":
                return self.ptr_eq(va, vb)
            if op == "!=":
                return Not(self.ptr_eq(va, vb))
            if not same(va.base, vb.base):
                # x < y on pointers into one object
                if not self.entails(va.base == vb.base):
                    self.prove(False, "pointers of different objects compared or subtracted", kind="memory")
            ia, ib = va.path, vb.path
            if len(ia) > 1 or len(ib) > 1:
                if len(ia) != len(ib) or not all(same(x, y) for x, y in zip(ia[:-1], ib[:-1])):
                    raise Limit("subobject pointers compared")
                ia, ib = ia[-1], ib[-1]
            else:
                ia, ib = va.idx, vb.idx
            if op == "-":
                if A.bv:
                    ia = ia if isz(ia) else z3.BitVecVal(ia, 64)
                    return ia - ib
                return ia - ib
            if op in ("<", "<=", ">", ">="):
                return A.cmp(op, ia, ib, I64)
            raise Limit("pointer op " + op)
        if pa and ta.k == "ptr":
            if op == "+":
                return self.ptr_add(va, vb, tb)
            if op == "-":
                vb = self.num(vb, tb)
                if A.bv:
                    vb = A.idx(vb, tb)
                    return self.ptr_add(va, -vb, I64)
                return self.ptr_add(va, -vb, I64)
            raise Limit("pointer op " + op)
        if pb and tb.k == "ptr":
            if op == "+":
                return self.ptr_add(vb, va, ta)
            raise Limit("pointer op " + op)
        if pa or pb:
            # integers that are really pointers (boxed)
            if op in ("==", "!="):
                va = va if pa else P(va)
                vb = vb if pb else P(vb)
                e = self.ptr_eq(va, vb)
                return e if op == "==" else Not(e)
            raise Limit("arithmetic on a boxed pointer")
        va, vb = self.num(va, ta), self.num(vb, tb)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return A.cmp(op, va, vb, ta)
        f = {"+": A.add, "-": A.sub, "*": A.mul, "/": A.div, "%": A.mod,
             "<<": A.shl, ">>": A.shr, "&": A.band, "|": A.bor, "^": A.bxor}.get(op)
        if f is None:
            raise Limit("operator " + op)
        return f(va, vb, ty)

    def ev_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = inner(n)
        ta, tb = self.unit.ty(a), self.unit.ty(b)
        vb = self.ev(b)
        lv = self.lv(a)
        old = self.read_lv(lv, ta)
        if ta.k == "ptr":
            new = self.binop(op, old, vb, ta, tb, ta)
        else:
            ct = self.unit.ty(n["computeLHSType"]) if "computeLHSType" in n else ta
            cr = self.unit.ty(n["computeResultType"]) if "computeResultType" in n else ct
            o2 = self.A.cast(self.num(old, ta), ta, ct)
            new = self.binop(op, o2, vb, ct, tb, cr)
            new = self.num(new, cr)
            if ta.k == "bool":
                new = self.truth(new, cr)
            else:
                new = self.A.cast(new, cr, ta)
        self.write_lv(lv, ta, new)
        return new

    def ev_ConditionalOperator(self, n):
        c, a, b = inner(n)
        if self.branch(self.truth(self.ev(c), self.unit.ty(c))):
            return self.ev(a)
        return self.ev(b)

    def ev_StmtExpr(self, n):
        body = inner(n)[0]
        stm = inner(body)
        v = None
        for i, s in enumerate(stm):
            if i == len(stm) - 1 and s["kind"] not in STMTS:
                v = self.ev(s)
            else:
                self.st(s)
        return v

    def ev_InitListExpr(self, n):
        return self.init_value(n, self.unit.ty(n))

    def ev_ImplicitValueInitExpr(self, n):
        return self.zero(self.unit.ty(n))

    def ev_PredefinedExpr(self, n):
        return NULL

    def zero(self, ty):
        if ty.k == "ptr":
            return NULL
        if ty.k == "struct":
            return StructVal({f: self.zero(ft) for f, ft in self.unit.fields(ty)})
        if ty.k == "arr":
            z = self.zero(ty.to)
            return ArrVal(ty.n, ty.to, lambda i: z)
        return 0

    def init_value(self, n, ty):
        if n["kind"] == "ParenExpr":
            return self.init_value(inner(n)[0], ty)
        if n["kind"] == "StringLiteral" and ty.k == "arr":
            bs = c_string(n["value"])
            vals = [b - 256 if b > 127 and ty.to.s else b for b in bs]
            cnt = ty.n if ty.n is not None else len(vals) + 1
            vals = (vals + [0] * (cnt + 1))[:cnt]
            return self.table_val(vals, ty.to)
        if n["kind"] != "InitListExpr":
            return self.ev(n)
        if ty.k == "struct":
            fs = self.unit.fields(ty)
            it = inner(n)
            r = {}
            for (f, ft), x in itertools.zip_longest(fs, it):
                r[f] = self.zero(ft) if x is None else self.init_value(x, ft)
            return StructVal(r)
        if ty.k == "arr":
            it = inner(n)
            filler = n.get("array_filler")
            if filler is not None and not it:
                it = [x for x in filler if x.get("kind") != "ImplicitValueInitExpr"]
            vals = [self.init_value(x, ty.to) for x in it]
            cnt = ty.n if ty.n is not None else len(vals)
            if len(vals) < cnt:
                vals += [self.zero(ty.to)] * (cnt - len(vals))
            if ty.to.isint:
                return self.table_val(vals, ty.to)
            return self.table_any(vals, ty.to)
        return self.ev(inner(n)[0])

    def table_val(self, vals, et):
        """constant-table contents; symbolic reads become piecewise terms"""
        if any(isz(v) for v in vals):
            return self.table_any(vals, et)
        vals = list(vals)
        pieces = []
        i = 0
        n = len(vals)
        while i < n:
            j = i
            while j + 1 < n and vals[j + 1] == vals[i]:
                j += 1
            k = i
            while k + 1 < n and vals[k + 1] - vals[k] == 1:
                k += 1
            if k > j:
                pieces.append((k, 1, vals[i] - i))
                i = k + 1
            else:
                pieces.append((j, 0, vals[i]))
                i = j + 1

        def get(ix):
            if not isz(ix):
                if 0 <= ix < n:
                    return vals[ix]
                return 0
            if z3.is_int_value(ix):
                return get(ix.as_long())
            if z3.is_bv_value(ix):
                return get(ix.as_long())
            if self.A.bv:
                w = et.w
                out = None
                for end, slope, c in reversed(pieces):
                    if slope:
                        t = (z3.Extract(w - 1, 0, ix) if w < 64 else ix) + c
                    else:
                        t = z3.BitVecVal(c, w)
                    out = t if out is None else z3.If(z3.ULE(ix, end), t, out)
                return out
            out = None
            for end, slope, c in reversed(pieces):
                t = ix + c if slope else z3.IntVal(c)
                out = t if out is None else z3.If(ix <= end, t, out)
            return out
        return ArrVal(n, et, get)

    def table_any(self, vals, et):
        n = len(vals)
        if et.k == "struct":
            fs = self.unit.fields(et)
            cols = {}
            for f, ft in fs:
                col = [v.f[f] for v in vals]
                cols[f] = self.table_val(col, ft) if ft.isint else self.table_any(col, ft)
            return ArrVal(n, et, lambda i: StructVal({f: cols[f].get(i) for f in cols}))
        if et.k == "arr":
            m = et.n
            cols = [self.table_val([v.get(j) for v in vals], et.to) for j in range(m)]

            def get(i):
                def g2(j):
                    if not isz(j):
                        return cols[j].get(i)
                    out = cols[m - 1].get(i)
                    for q in range(m - 2, -1, -1):
                        out = self.ite_val(j == q, cols[q].get(i), out)
                    return out
                return ArrVal(m, et.to, g2)
            return ArrVal(n, et, get)

        def get(i):
            if not isz(i):
                return vals[i] if 0 <= i < n else self.zero(et)
            out = vals[-1]
            for q in range(n - 2, -1, -1):
                out = self.ite_val(i == q, vals[q], out)
            return out
        return ArrVal(n, et, get)

    # -- lvalues: ("var", Var) or ("mem", P, elemty)
    def lv(self, n):
        k = n["kind"]
        if k == "ParenExpr":
            return self.lv(inner(n)[0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            v = self.lookup(d, n)
            if isinstance(v, Var):
                if v.mem is not None:
                    return ("mem", P(v.mem))
                return ("var", v)
            return ("mem", v)
        if k == "MemberExpr":
            x = inner(n)[0]
            if n.get("isArrow"):
                p = self.ev(x)
            else:
                l = self.lv(x)
                if l[0] == "var":
                    raise Limit("struct variable")
                p = l[1]
            if not isinstance(p, P):
                raise Limit("member of non-pointer")
            path = p.path
            if len(path) == 1 and same(path[0], 0):
                path = ()
            return ("mem", P(p.base, path + (n["name"],)))
        if k == "ArraySubscriptExpr":
            a, b = inner(n)
            va = self.ev(a)
            vb = self.ev(b)
            if not isinstance(va, P):
                va, vb = vb, va
                a, b = b, a
            return ("mem", self.ptr_add(va, vb, self.unit.ty(b)))
        if k == "UnaryOperator" and n["opcode"] == "*":
            return ("mem", self.ev(inner(n)[0]))
        if k == "StringLiteral":
            return ("mem", self.lval(n))
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") in ("NoOp", "BitCast"):
            return self.lv(inner(n)[0])
        if k == "CompoundLiteralExpr":
            raise Limit("compound literal")
        raise Limit("lvalue " + k)

    def lval(self, n):
        key = ("str", n["value"])
        if key not in self.globals_mem:
            bs = c_string(n["value"])
            vals = [b - 256 if b > 127 else b for b in bs] + [0]
            a = self.table_val(vals, I8)
            a.slen = vals.index(0)
            c = self.new_mem(T("arr", to=I8, n=len(vals)), a, heap=False, name="lit", ro=True)
            self.globals_mem[key] = c.base
        return P(self.globals_mem[key])

    def lookup(self, d, n=None):
        fid = d["id"]
        for fr in (self.frame,):
            if fid in fr.env:
                return fr.env[fid]
        name = d["name"]
        g = self.unit.gbyname.get(name)
        if g is not None and d["kind"] == "VarDecl":
            return self.global_ptr(name, g)
        raise Limit("variable " + name)

    def global_ptr(self, name, g):
        h = self.ver.global_hook
        if h is not None:
            r = h(self, name, g)
            if r is not None:
                return r
        key = ("glob", name)
        if key not in self.globals_mem:
            ty = self.unit.ty(g)
            ini = [x for x in inner(g) if x.get("kind") not in ("FullComment", "VisibilityAttr", "UnusedAttr")]
            q = g["type"]["qualType"]
            const = is_const(q)
            if "init" not in g and not const:
                raise Limit("global variable " + name)
            if not const and name not in self.ver.const_globals:
                raise Limit("mutable global " + name)
            if "init" not in g:
                raise Limit("extern table " + name)
            if ty.k == "arr" and ty.n is None:
                ty = self.unit.ty(ini[-1])
            ck = (self.unit.path, name, self.ver.mode)
            val = self.init_value(ini[-1], ty)
            c = self.new_mem(ty, val, heap=False, name="g_" + name, ro=True)
            self.globals_mem[key] = c.base
        return P(self.globals_mem[key])

    def read_lv(self, lv, ty):
        if lv[0] == "var":
            v = lv[1].v
            if v is UNINIT:
                self.prove(False, "variable %s initialised before use" % lv[1].name, kind="memory")
            return v
        return self.load(lv[1], ty)

    def write_lv(self, lv, ty, v):
        if ty.k == "bool" and not isinstance(v, (bool, z3.BoolRef)):
            v = self.truth(v, ty)
        if lv[0] == "var":
            if ty.isint and ty.k != "bool":
                v = self.num(v, ty)
            if isinstance(v, z3.BitVecRef) is False and self.A.bv and ty.k == "int" and not isz(v):
                v = z3.BitVecVal(v, ty.w)
            lv[1].v = v
        else:
            if ty.k == "bool":
                v = self.num(v, ty)
            self.store(lv[1], ty, v)

    def lv_addr(self, lv, decay=False):
        if lv[0] == "var":
            raise Limit("address of a register variable")
        p = lv[1]
        if decay:
            return P(p.base, p.path + (0,)) if p.path else P(p.base)
        return p

    # -- calls
    def ev_CallExpr(self, n):
        xs = inner(n)
        f = self.ev(xs[0])
        args = []
        for a in xs[1:]:
            args.append(self.ev(a))
        atys = [self.unit.ty(a) for a in xs[1:]]
        rty = self.unit.ty(n)
        self.line = n.get("_line", self.line)
        if isinstance(f, FuncRef):
            self.chain.append(n["id"])
            try:
                return self.call(f.name, args, atys, rty)
            finally:
                self.chain.pop()
        return self.ver.indirect(self, f, args, rty)

    def call(self, name, args, atys, rty):
        args = [self.num(a, t) if t.isint and not isinstance(a, P) else a for a, t in zip(args, atys)]
        b = self.ver.builtins.get(name)
        if b is not None:
            return b(self, args, rty)
        c = self.ver.contracts.get(name)
        if c is not None and name not in self.ver.inline:
            return self.call_contract(c, name, args, rty)
        u, fn = self.ver.find_func(name, self.unit)
        if fn is None:
            raise Limit("call of %s, which has neither body nor contract" % name)
        return self.inline(name, u, fn, args)

    def call_contract(self, c, name, args, rty):
        self.ver.used_contracts.add(name)
        m = M(self, "prove", "call of %s: precondition" % name)
        m.call = True
        if c.decreases is not None and name in self.ver.recursive_group:
            pass
        g = c.spec(m, *args)
        next(g)
        m.mode = "assume"
        m.rty = rty
        m.retset = False
        m.ret = None
        rv = None
        if rty.k != "void":
            rv = RetHole(m, rty)
        m.rethole = rv
        try:
            g.send(rv)
        except StopIteration:
            pass
        if rv is None:
            return None
        return rv.get()

    def inline(self, name, unit, fn, args):
        if self.inline_stack.count(name) >= 1:
            raise Limit("recursive function %s has no contract" % name)
        if len(self.inline_stack) > 12:
            raise Limit("inlining too deep")
        self.ver.inlined.add(name)
        self.inline_stack.append(name)
        fr = Frame(name, unit, fn)
        annotate_once(fn)
        self.frames.append(fr)
        self.bind_params(fn, args)
        body = [x for x in inner(fn) if x["kind"] == "CompoundStmt"][0]
        rv = None
        sv = self.loopstack
        try:
            self.st(body)
        except ReturnEx as r:
            rv = r.v
        self.drop_stack(fr)
        self.frames.pop()
        self.inline_stack.pop()
        return rv

    def drop_stack(self, fr):
        for v in fr.env.values():
            if isinstance(v, Var) and v.mem is not None:
                for c in list(self.chunks):
                    if not isinstance(c, Pred) and same(c.base, v.mem):
                        self.remove(c)

    def bind_params(self, fn, args):
        ps = [x for x in inner(fn) if x["kind"] == "ParmVarDecl"]
        if len(ps) != len(args):
            raise Limit("variadic or mismatched call")
        for p, a in zip(ps, args):
            t = self.unit.ty(p)
            if t.k == "arr":
                t = T("ptr", to=t.to)
            self.declare(p, t, a)

    def declare(self, d, ty, v=UNINIT):
        var = Var(d.get("name", "?"), ty, v)
        if ty.isint and ty.k != "bool" and v is not UNINIT:
            var.v = self.num(v, ty)
            if self.A.bv and not isz(var.v):
                var.v = z3.BitVecVal(var.v, ty.w)
        if d["id"] in self.frame.boxed or ty.k in ("struct", "arr"):
            if v is UNINIT:
                val = self.uninit(ty)
            else:
                val = self.num(v, ty) if ty.k == "bool" else var.v
            c = self.new_mem(ty, val, heap=False, name="&" + var.name)
            var.mem = c.base
        self.frame.env[d["id"]] = var
        self.frame.names[var.name] = var
        return var

    # -- statements
    def st(self, n):
        if "_line" in n:
            self.line = n["_line"]
            self.ver.seen.add(self.line)
        k = n["kind"]
        f = getattr(self, "st_" + k, None)
        if f is not None:
            return f(n)
        self.ev(n)

    def st_CompoundStmt(self, n):
        for x in inner(n):
            self.st(x)

    def st_NullStmt(self, n):
        pass

    def st_AttributedStmt(self, n):
        self.st(inner(n)[-1])

    def st_DeclStmt(self, n):
        for d in inner(n):
            if d["kind"] == "VarDecl":
                if d.get("storageClass") == "static":
                    if is_const(d["type"]["qualType"]):
                        ty = self.unit.ty(d)
                        ini = inner(d)[-1]
                        if ty.k == "arr" and ty.n is None:
                            ty = self.unit.ty(ini)
                        val = self.init_value(ini, ty)
                        var = Var(d["name"], ty)
                        c = self.new_mem(ty, val, heap=False, name="s_" + d["name"], ro=True)
                        var.mem = c.base
                        self.frame.env[d["id"]] = var
                        self.frame.names[var.name] = var
                        continue
                    raise Limit("static local variable")
                if d.get("storageClass") == "extern":
                    raise Limit("extern local variable")
                ty = self.unit.ty(d)
                ini = [x for x in inner(d)] if "init" in d else []
                if ty.k == "arr" and ty.n is None:
                    q = d["type"]["qualType"]
                    size = [x for x in inner(d)]
                    if ini and ini[-1]["kind"] in ("InitListExpr", "StringLiteral"):
                        ty = self.unit.ty(ini[-1])
                    else:
                        self.vla(d, ty)
                        continue
                if ini:
                    if ini[-1]["kind"] == "InitListExpr" or ty.k == "arr":
                        v = self.init_value(ini[-1], ty)
                    else:
                        v = self.ev(ini[-1])
                    if ty.k == "bool" and not isinstance(v, (bool, z3.BoolRef)):
                        v = self.truth(v, ty)
                    # a redeclaration in a loop replaces the old storage
                    self.declare(d, ty, v)
                else:
                    self.declare(d, ty)

    def vla(self, d, ty):
        h = self.ver.vla_size
        n = h(self, d) if h else None
        if n is None:
            n = self.vla_expr(d["type"]["qualType"])
        self.prove(And(n >= 1, n < (1 << 62)), "the size of the array %s is positive" % d["name"], kind="memory")
        var = Var(d["name"], ty)
        c = self.new_mem(ty, ArrVal(n, ty.to, self.arr_uf("junk", ty.to), lambda i: False),
                         heap=False, name="&" + d["name"])
        var.mem = c.base
        self.frame.env[d["id"]] = var
        self.frame.names[var.name] = var

    def vla_expr(self, q):
        """the number of elements in char[end - input]: the syntax tree has it
        as text only"""
        import re
        text = q[q.index("[") + 1:q.rindex("]")]
        toks = re.findall(r"[A-Za-z_]\w*|\d+|\S", text)
        pos = [0]

        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else None

        def take():
            pos[0] += 1
            return toks[pos[0] - 1]

        def atom():
            t = take() if peek() is not None else ""
            if t == "(":
                v = add()
                if peek() != ")":
                    raise Limit("array size " + text)
                take()
                return v
            if t.isdigit():
                return z3.IntVal(int(t))
            v = self.frame.names.get(t)
            if v is None:
                for e in self.unit.enums:
                    if e == "name:" + t:
                        return z3.IntVal(self.unit.enums[e])
                raise Limit("array size " + text)
            if v.ty.k == "ptr" or v.ty.isint:
                x = v.v
                if v.mem is not None:
                    x = self.find(v.mem).val
                if x is UNINIT or not (isinstance(x, P) or isz(x) or isinstance(x, int)):
                    raise Limit("array size " + text)
                return x if isinstance(x, P) or isz(x) else z3.IntVal(x)
            raise Limit("array size " + text)

        def mul():
            v = atom()
            while peek() == "*":
                take()
                w = atom()
                if isinstance(v, P) or isinstance(w, P):
                    raise Limit("array size " + text)
                v = v * w
            return v

        def add():
            v = mul()
            while peek() in ("+", "-"):
                op, w = take(), mul()
                if isinstance(v, P) and isinstance(w, P):
                    if op != "-" or len(v.path) > 1 or len(w.path) > 1 or not (same(v.base, w.base) or self.entails(v.base == w.base)):
                        raise Limit("array size " + text)
                    v = self._z(v.idx) - self._z(w.idx)
                elif isinstance(v, P):
                    v = P(v.base, (self._z(v.idx) + (w if op == "+" else -w),))
                elif isinstance(w, P):
                    raise Limit("array size " + text)
                else:
                    v = v + w if op == "+" else v - w
            return v
        v = add()
        if peek() is not None or isinstance(v, P):
            raise Limit("array size " + text)
        return v

    @staticmethod
    def _z(i):
        return i if isz(i) else z3.IntVal(i)

    def st_IfStmt(self, n):
        xs = inner(n)
        if n.get("hasInit") or n.get("hasVar"):
            raise Limit("if with declaration")
        c = self.branch(self.truth(self.ev(xs[0]), self.unit.ty(xs[0])))
        if c:
            self.st(xs[1])
        elif len(xs) > 2:
            self.st(xs[2])

    def st_ReturnStmt(self, n):
        xs = inner(n)
        v = self.ev(xs[0]) if xs else None
        raise ReturnEx(v)

    def st_BreakStmt(self, n):
        raise BreakEx()

    def st_ContinueStmt(self, n):
        raise ContinueEx()

    def st_SwitchStmt(self, n):
        xs = inner(n)
        ty = self.unit.ty(xs[0])
        v = self.num(self.ev(xs[0]), ty)
        body = xs[-1]
        # flatten labels
        items = []      # (label|None, stmt)

        def flat(s):
            if s["kind"] == "CaseStmt":
                ys = inner(s)
                items.append((("case", const_value(ys[0]), ys[0]), None))
                flat(ys[-1])
            elif s["kind"] == "DefaultStmt":
                items.append((("default", None, None), None))
                flat(inner(s)[-1])
            else:
                items.append((None, s))
        for s in inner(body):
            flat(s)
        start = None
        for i, (lab, s) in enumerate(items):
            if lab and lab[0] == "case":
                cv = lab[1]
                try:
                    cv = self.ev(lab[2])
                except Limit:
                    pass
                if self.branch(self.A.cmp("==", v, cv, ty)):
                    start = i
                    break
        if start is None:
            for i, (lab, s) in enumerate(items):
                if lab and lab[0] == "default":
                    start = i
        if start is None:
            return
        try:
            for lab, s in items[start:]:
                if s is not None:
                    self.st(s)
        except BreakEx:
            pass

    # -- loops
    def st_WhileStmt(self, n):
        xs = inner(n)
        self.loop(n, None, xs[0], None, xs[-1], False)

    def st_ForStmt(self, n):
        xs = n.get("inner", [])
        init, var, cond, inc, body = xs[0], xs[1], xs[2], xs[3], xs[4]
        if init.get("kind"):
            self.st(init)
        self.loop(n, None, cond if cond.get("kind") else None,
                  inc if inc.get("kind") else None, body, False)

    def st_DoStmt(self, n):
        xs = inner(n)
        self.loop(n, None, xs[1], None, xs[0], True)

    def cond(self, c):
        if c is None:
            return True
        return self.branch(self.truth(self.ev(c), self.unit.ty(c)))

    def loop(self, n, _, cond, inc, body, post):
        no = self.ver.loop_number(self, n)
        spec = self.ver.loop_spec(self, no, n)
        if spec is None:
            return self.unroll(n, cond, inc, body, post)
        sp = LoopCtx(self, spec, n, no)
        # entry
        for w in (spec.entry or []):
            w(self, sp)
        sp.mode = "prove"
        sp.label = "loop %d invariant on entry" % no
        before = list(self.chunks)
        sp.run()
        frame = list(self.chunks)
        sp.freeze_frame(frame)
        self.loopstack.append(sp)
        sp.havoc()
        sp.mode = "assume"
        sp.run()
        measure0 = sp.measure
        try:
            if post:
                try:
                    self.st(body)
                except ContinueEx:
                    pass
                go = self.cond(cond)
            else:
                go = self.cond(cond)
                if go:
                    try:
                        self.st(body)
                    except ContinueEx:
                        pass
                    if inc is not None:
                        self.ev(inc)
        except BreakEx:
            go = False
        except ReturnEx:
            sp.unfreeze()
            self.loopstack.pop()
            raise
        if not go:
            sp.unfreeze()
            self.loopstack.pop()
            return
        # back edge
        sp.mode = "prove"
        sp.label = "loop %d invariant preserved" % no
        for w in (spec.back or []):
            w(self, sp)
        sp.run()
        if measure0 is not None:
            m1 = sp.measure
            self.prove(And(m1 < measure0, m1 >= 0) if not self.A.bv else And(z3.ULT(m1, measure0)),
                       "loop %d makes progress" % no, kind="termination")
        if sp.broke:
            raise Limit("loop %d: %s" % (no, sp.broke))
        # nothing may be left over
        for c in self.chunks:
            if c not in frame and not self.is_stack(c) and not (not isinstance(c, Pred) and c.ro):
                if c.frozen:
                    continue
                if isinstance(c, Pred) and self.ver.preds[c.name].empty(self, c):
                    continue
                self.prove(False, "loop %d leaves memory unaccounted for (leak): %s" % (no, self.chunk_text(c)), kind="memory")
        raise PathDone()

    def is_stack(self, c):
        return not isinstance(c, Pred) and not c.heap

    def unroll(self, n, cond, inc, body, post):
        limit = self.ver.unroll
        first = post
        t0 = time.time()
        for it in range(limit + 1):
            if it > 6 and time.time() - t0 > 10:
                raise Limit("loop at line %s has no invariant and %d rounds took too long" % (n.get("_line"), it))
            if not first:
                if not self.cond(cond):
                    return
            first = False
            if it == limit:
                raise Limit("loop at line %s has no invariant and does not end within %d rounds" % (n.get("_line"), limit))
            try:
                self.st(body)
            except ContinueEx:
                pass
            except BreakEx:
                return
            if inc is not None:
                self.ev(inc)


STMTS = ("CompoundStmt", "DeclStmt", "IfStmt", "WhileStmt", "ForStmt", "DoStmt",
         "SwitchStmt", "ReturnStmt", "BreakStmt", "ContinueStmt", "NullStmt")


def is_const(q):
    q = re.sub(r"\[[^\]]*\]", "", q)
    if "*" in q:
        return q.rstrip().endswith("const")
    return "const" in q.split()


def c_string(lit):
    """bytes of a C string literal as clang prints it"""
    s = lit[lit.index('"') + 1:lit.rindex('"')]
    out = []
    i = 0
    while i < len(s):
        ch = s[i]
        if ch != "\\":
            out += list(ch.encode("utf-8"))
            i += 1
            continue
        e = s[i + 1]
        simple = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, '"': 34, "'": 39,
                  "a": 7, "b": 8, "f": 12, "v": 11, "?": 63}
        if e == "x":
            j = i + 2
            while j < len(s) and s[j] in "0123456789abcdefABCDEF":
                j += 1
            out.append(int(s[i + 2:j], 16) & 255)
            i = j
        elif e in "01234567":
            j = i + 1
            while j < len(s) and j < i + 4 and s[j] in "01234567":
                j += 1
            out.append(int(s[i + 1:j], 8) & 255)
            i = j
        else:
            out.append(simple[e])
            i += 2
    return out


_ann = {}


def annotate_once(fn):
    if id(fn) not in _ann:
        annotate_lines(fn)
        _ann[id(fn)] = fn


class RetHole:
    """return value of a contracted call, fixed by the postcondition"""

    def __init__(self, m, ty):
        self.m, self.ty = m, ty
        self.v = None

    def get(self):
        if self.v is None:
            self.v = self.m.ex.fresh("ret", self.ty)
        return self.v


class M:
    """contract language: one text, read as assumption or as obligation"""

    def __init__(self, ex, mode, label):
        self.ex, self.mode, self.label = ex, mode, label
        self.call = False
        self.measure = None

    # -- values
    @property
    def assuming(self):
        return self.mode == "assume"

    def val(self, r):
        return r.get() if isinstance(r, RetHole) else r

    def base(self, p):
        """the address term of a whole-object pointer"""
        p = self.val(p)
        if not isinstance(p, P):
            raise Limit("not a pointer")
        if p.path and not (len(p.path) == 1 and same(p.path[0], 0)):
            if self.mode == "prove":
                i = p.path[0] if len(p.path) == 1 else None
                if i is None or isinstance(i, str):
                    raise Limit("interior pointer")
                self.pure(i == 0, "pointer to the start of the object")
                return p.base
            raise Limit("interior pointer")
        return p.base if isz(p.base) else (z3.BitVecVal(p.base, 64) if self.ex.A.bv else z3.IntVal(p.base))

    def pure(self, e, label="condition"):
        if self.mode == "assume":
            self.ex.assume(e)
        else:
            self.ex.prove(e, self.label + ": " + label, kind="post")

    def split(self, e):
        return self.ex.branch(e)

    def fresh(self, name, sort=None):
        if sort is None:
            return z3.BitVec(self.ex.nm(name), 64) if self.ex.A.bv else z3.Int(self.ex.nm(name))
        return z3.Const(self.ex.nm(name), sort)

    def forall(self, fn, label="for all", arity=1, kind=None):
        if self.mode == "assume":
            self.ex.add_lazy(fn, arity, kind)
        else:
            ks = [self.fresh("k") for _ in range(arity)]
            for k in ks:
                self.ex.index_term(k, kind)
            e = fn(*ks)
            self.ex.prove(e, self.label + ": " + label, kind="post")

    # -- chunks
    def obj(self, p, sname, heap=True, **given):
        """ownership of a structure; returns its field values"""
        ex = self.ex
        base = self.base(p)
        ty = T("struct", name=sname)
        if sname in ex.unit.typedefs:
            t2 = ex.unit.parse(sname)
            if t2.k == "struct" and t2.name.startswith("id:"):
                ty = t2
        if self.mode == "assume":
            f = {}
            for name, ft in ex.unit.fields(ty):
                if name in given:
                    f[name] = given[name]
                else:
                    f[name] = ex.fresh(name, ft)
            c = Mem(base, ty, StructVal(f), heap)
            ex.add_chunk(c)
            return c.val
        c = ex.find(base, self.label + ": ownership of " + sname)
        if isinstance(c, Raw):
            c = ex.typed(c, ty)
        if c.ty.k != "struct" or c.ty.name != ty.name:
            raise Limit("structure mismatch %r %r" % (c.ty, ty))
        if heap and not c.heap:
            ex.prove(False, self.label + ": not a heap block", kind="memory")
        self._notfrozen(c)
        ex.remove(c)
        for k, v in given.items():
            self.eq(c.val.f[k], v, "field " + k)
        for k, v in c.val.f.items():
            if v is UNINIT and k not in self.ex.ver.may_uninit:
                ex.prove(False, self.label + ": field %s is set" % k, kind="post")
        return c.val

    def _notfrozen(self, c):
        self.ex.touch(c)

    def eq(self, a, b, label):
        a, b = self.val(a), self.val(b)
        if a is UNINIT or b is UNINIT:
            self.ex.prove(False, self.label + ": " + label + " is set", kind="post")
        if isinstance(a, (P, FuncRef)) or isinstance(b, (P, FuncRef)):
            if not isinstance(a, (P, FuncRef)):
                a = P(a)
            if not isinstance(b, (P, FuncRef)):
                b = P(b)
            e = self.ex.ptr_eq(a, b)
        elif isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            a, b = self.ex.truth(a, I32), self.ex.truth(b, I32)
            e = a == b
        else:
            e = a == b
        self.pure(e, label)

    def read(self, p, sname):
        """borrow a structure without giving it up: field values"""
        v = self.obj(p, sname)
        return v

    def arr(self, p, et, n=None, get=None, defd=None, heap=True, slen=None, exact=True):
        """ownership of an array of elements of type et.
        assume: creates it (n elements, contents get or fresh).
        prove: takes it; checks the size (and contents when get is given)."""
        ex = self.ex
        base = self.base(p)
        if self.mode == "assume":
            a = ArrVal(n, et, get or ex.arr_uf("arr", et), defd, slen)
            if ex.ver.agg and get is None:
                ex.ver.agg.attach(ex, a)
            c = Mem(base, T("arr", to=et, n=None), a, heap)
            ex.add_chunk(c)
            return a
        c = ex.find(base, self.label + ": ownership of an array")
        if isinstance(c, Raw):
            c = ex.typed(c, et)
        if not isinstance(c.val, ArrVal):
            raise Limit("array expected")
        self._notfrozen(c)
        if heap and not c.heap:
            ex.prove(False, self.label + ": not a heap block", kind="memory")
        ex.compat(c.val.et, et)
        ex.remove(c)
        if n is not None:
            if exact:
                self.pure(c.val.n == n, "array size")
            else:
                self.pure(c.val.n >= n, "array size")
        a = c.val
        if get is not None:
            def body(k):
                ex.index_term(k)
                lim = a.n if n is None else n
                rng = And(k >= 0, k < lim) if not ex.A.bv else ex.A.idxlt(k, lim)
                if defd is not None:
                    rng = And(rng, defd(k))
                x, y = a.get(k), get(k)
                if isinstance(x, P):
                    x, y = x.base, y.base
                return Implies(rng, x == y)
            self.forall(body, "array contents")
        if a.defd is not None:
            want = defd if defd is not None else (lambda k: True)

            def body2(k):
                lim = a.n if n is None else n
                rng = And(k >= 0, k < lim) if not ex.A.bv else ex.A.idxlt(k, lim)
                return Implies(And(rng, want(k)), a.defd(k))
            self.forall(body2, "array is initialised")
        return a

    def span(self, p, et, n, init=False):
        """ownership of n elements from p on, possibly inside a larger array.
        The object returned has the old contents (get) and back()."""
        return Span(self, p, et, n, init)

    def borrow(self, p, et, n=None):
        """read access to an array: contents seen from p on; the array stays"""
        ex = self.ex
        p = self.val(p)
        if self.mode == "assume":
            base = p.base
            a = ArrVal(n if n is not None else self.fresh("n"), et, ex.arr_uf("in", et))
            c = Mem(base, T("arr", to=et, n=None), a, heap=False, ro=True)
            ex.add_chunk(c)
            return a
        c = ex.find(p.base, self.label + ": read access")
        if isinstance(c, Raw):
            c = ex.typed(c, et)
        path = p.path or (0,)
        val, i = c.val, path[-1]
        if len(path) > 1:
            val, _ = ex.rd(c.val, path[:-1], c.ty)
        if not isinstance(val, ArrVal):
            raise Limit("array expected")
        ex.compat(val.et, et)
        A = ex.A
        i0 = i
        if same(i0, 0):
            a = ArrVal(val.n, et, val.get, val.defd, val.slen)
        else:
            a = ArrVal(val.n - i0, et, lambda k: val.get(i0 + k),
                       None if val.defd is None else (lambda k: val.defd(i0 + k)),
                       None if val.slen is None else val.slen - i0)
        if n is not None:
            self.pure(And(i0 >= 0, a.n >= n), "the array is large enough")
        return a

    def cstr(self, p):
        """a NUL-terminated string, readable; returns (length, contents)"""
        ex = self.ex
        p = self.val(p)
        if self.mode == "assume":
            n = z3.Int(ex.nm("len"))
            ex.assume(And(n >= 0, n < (1 << 62)))
            a = ArrVal(n + 1, I8, ex.arr_uf("str", I8), None, n)
            c = Mem(p.base, T("arr", to=I8, n=None), a, heap=False, ro=True)
            ex.add_chunk(c)
            ex.index_term(n)
            ex.assume(a.get(n) == 0)
            ex.add_lazy(lambda k: Implies(And(k >= 0, k < n), a.get(k) != 0))
            return n, a.get
        a = self.borrow(p, I8)
        if a.slen is None:
            h = ex.ver.strlen_hint
            s = h(ex, p, a) if h else None
            a.slen = s if s is not None else self.terminator(p, a)
        self.pure(a.slen >= 0 if isz(a.slen) else a.slen >= 0, "pointer within the string")
        return a.slen, a.get

    def terminator(self, p, a):
        """the first NUL of an array not known to be a string"""
        ex = self.ex
        if a.n is None or ex.A.bv:
            raise Limit("%s: no known terminator" % self.label)
        i0 = p.path[-1] if p.path else 0
        n = a.n if isz(a.n) else z3.IntVal(a.n)
        if ex.choose(2):
            # there is none: that must be impossible
            k = z3.simplify(n)
            if z3.is_int_value(k) and k.as_long() <= 16:
                ex.assume(And(*[a.get(z3.IntVal(t)) != 0 for t in range(k.as_long())]))
            else:
                ex.add_lazy(lambda t: Implies(And(t >= i0, t < i0 + n), a.get(t - i0) != 0))
                ex.index_term(i0 + n - 1)
            ex.prove(False, self.label + ": the string is terminated within its array", kind="memory")
            raise PathDone()
        l = ex.freshint("len")
        ex.index_term(i0 + l)
        ex.assume(And(l >= 0, l < n, a.get(l) == 0))
        k = z3.simplify(n)
        if z3.is_int_value(k) and k.as_long() <= 16:
            ex.assume(And(*[Implies(t < l, a.get(z3.IntVal(t)) != 0) for t in range(k.as_long())]))
        ex.add_lazy(lambda t: Implies(And(t >= i0, t < i0 + l), a.get(t - i0) != 0))
        if a.defd is not None:
            self.forall(lambda t: Implies(And(t >= 0, t <= l), a.defd(t)), "the string is initialised")
        return l

    def pred(self, name, *ins, outs=None, frozen_ok=False):
        """a predicate instance; returns its outputs"""
        ex = self.ex
        d = ex.ver.preds[name]
        ins = tuple(self.val(i) for i in ins)
        if self.mode == "assume":
            if outs is None:
                outs = d.fresh_outs(ex)
            ex.add_chunk(Pred(name, ins, outs))
            d.facts(ex, ins, outs)
            return outs
        got = d.consume(self, ins)
        if outs is not None:
            for i, (a, b) in enumerate(zip(got, outs)):
                self.pure(d.out_eq(ex, i, a, b), "%s: abstract value %d" % (name, i))
        return got

    # -- return values
    def ret_ptr(self, ret, base):
        """ret points into the object base; returns the index"""
        if isinstance(ret, RetHole):
            if ret.v is None:
                i = self.fresh("ri")
                ret.v = P(base, (i,))
                return i
        v = self.val(ret)
        if not isinstance(v, P):
            raise Limit("pointer result expected")
        if self.assuming and isinstance(ret, RetHole) and not v.path:
            raise Exception("the contract of %s fixes the result before it says where it points" % self.label)
        b = base
        self.pure(v.base == b if isz(v.base) or isz(b) else v.base == b, "result points into the right object")
        return v.idx

    def ret_null(self, ret):
        if isinstance(ret, RetHole) and ret.v is None:
            ret.v = NULL
            return
        v = self.val(ret)
        self.pure(Not(self.ex.nonnull(v)), "result is null")

    def ret_is(self, ret, val, label="result"):
        if isinstance(ret, RetHole) and ret.v is None and self.mode == "assume":
            ret.v = val
            return
        self.eq(ret, val, label)


class Span:
    def __init__(self, m, p, et, n, init):
        self.m, self.p, self.et, self.n = m, m.val(p), et, n
        ex = m.ex
        self.rest = None
        if m.assuming:
            # inside the function: a block of its own, nothing known about it
            a = m.arr(self.p, et, n=n, heap=False)
            self.get = a.get
            return
        c = ex.find(self.p.base, m.label + ": ownership of a buffer")
        if isinstance(c, Raw):
            c = ex.typed(c, et)
        if not isinstance(c.val, ArrVal) or len(self.p.path) > 1:
            raise Limit("buffer inside a structure")
        if c.ro:
            ex.prove(False, m.label + ": memory the contract does not let it change", kind="frame")
        m._notfrozen(c)
        ex.compat(c.val.et, et)
        i0 = self.p.path[0] if self.p.path else 0
        m.pure(And(i0 >= 0, i0 + n <= c.val.n), "the buffer is large enough")
        ex.touch(c)
        self.rest, self.i0, old = c, i0, c.val
        self.old = old
        self.get = (lambda i: old.get(i0 + i)) if not same(i0, 0) else old.get
        if init and old.defd is not None:
            m.forall(lambda k: Implies(And(k >= 0, k < n), old.defd(i0 + k)), "the buffer is initialised")

    def back(self, defd=None, new=None):
        """the contents afterwards: of fresh content in a caller, whatever the
        function left there in the function itself"""
        m, ex = self.m, self.m.ex
        if self.rest is None:
            a = m.arr(self.p, self.et, n=self.n, heap=False, defd=defd)
            return a
        c, i0, n, old = self.rest, self.i0, self.n, self.old
        get = new or ex.arr_uf("arr", self.et)
        inside = lambda i: And(i >= i0, i < i0 + n)
        sub = lambda i: i - i0 if not same(i0, 0) else i

        def dd(i):
            d = True if defd is None else defd(sub(i))
            o = True if old.defd is None else old.defd(i)
            return Or(And(inside(i), Or(d, o)), And(Not(inside(i)), o))
        c.val = ArrVal(old.n, old.et, lambda i: ex.ite_val(inside(i), get(sub(i)), old.get(i)),
                       None if old.defd is None else dd)
        return ArrVal(n, self.et, get, defd)


class LoopSpec:
    def __init__(self, inv, vars=None, entry=None, back=None):
        self.inv, self.vars = inv, vars or {}
        self.entry, self.back = entry, back


class IndexVar:
    """stands for a pointer variable: base + index"""
    mem = None

    def __init__(self, ex, base, idx):
        self.ex, self.base, self.idx, self.parts = ex, base, idx, (idx,)
        self.name, self.ty = "%s+%s" % (base.name, idx.name), base.ty
        self.b0 = base.v

    def off(self):
        return self.b0.path[0] if self.b0.path else 0

    @property
    def v(self):
        if self.idx.v is UNINIT:
            return UNINIT
        return P(self.b0.base, (self.off() + self.ex.num(self.idx.v, self.idx.ty),))

    @v.setter
    def v(self, p):
        if not isinstance(p, P) or not (same(p.base, self.b0.base) or self.ex.entails(p.base == self.b0.base)):
            raise Limit("%s set to another object" % self.name)
        self.idx.v = p.idx - self.off()


class RestVar:
    """stands for a count: what it was on entry less what another variable has
    gained (from nothing, or from where a pointer stood) since"""
    mem = None

    def __init__(self, ex, var, whole, part):
        self.ex, self.whole, self.part, self.parts = ex, whole, part, (part,)
        self.name, self.ty = "%s-%s" % (var.name, part.name), var.ty
        self.p0 = part.v

    @property
    def v(self):
        x = self.part.v
        if isinstance(x, P):
            d = x.idx - self.p0.idx
        else:
            d = self.ex.num(x, self.part.ty)
        return self.ex.num(self.whole, self.ty) - d

    @v.setter
    def v(self, x):
        if isinstance(self.part.v, P):
            raise Limit("%s cannot be set" % self.name)
        self.part.v = self.ex.num(self.whole, self.ty) - x


class LoopCtx(M):
    """M for loop invariants, with access to the local variables"""

    def __init__(self, ex, spec, n, no):
        super().__init__(ex, "prove", "loop")
        self.spec, self.node, self.no = spec, n, no
        s, a = assigned_in(n)
        self.fr = ex.frame
        self.mod = [self.fr.env[i] for i in s if i in self.fr.env and isinstance(self.fr.env[i], Var)]
        self.modaddr = [self.fr.env[i] for i in (s | a) if i in self.fr.env and isinstance(self.fr.env[i], Var)
                        and self.fr.env[i].mem is not None]
        self.gh = {}
        self.broke = None
        self.resolve()

    def resolve(self):
        """which variables the invariant speaks about.  A name the code no longer
        has, or no longer changes in the loop although the tree the invariant was
        written for did, is matched with other variables, one combination per
        attempt; a wrong match only leaves the invariant unprovable"""
        self.map = {}
        self.nmatch = 1
        names, cands = [], []
        if os.environ.get("SLV_FIXED"):
            with open(os.environ["SLV_FIXED"], "a") as f:
                f.write(repr((self.ex.ver.fname, self.no, [x for x in self.spec.vars if x in self.fr.names and
                                                           self.fr.names[x] not in self.mod and self.fr.names[x].mem is None])) + "\n")
        fixed = FIXED.get((self.ex.ver.fname, self.no), ())
        own = self.fr.names
        used = [own[name] for name in self.spec.vars if name in own]
        for name, kind in self.spec.vars.items():
            v = own.get(name)
            if v is not None and (v in self.mod or v.mem is not None or name in fixed):
                self.map[name] = v
                continue
            outer = self.find_var(name) if v is None else None
            mods = [w for w in self.mod if w not in used and self.kind_ok(w, kind)]
            rest = [w for w in self.visible() if w not in used and w not in self.mod and self.kind_ok(w, kind)]
            if name in fixed:
                cs = [outer] * (outer is not None) + rest + mods
            else:
                cs = [v] * (v is not None) + mods + self.derived(kind, v if v is not None else outer) + [outer] * (outer is not None)
                if not cs:
                    cs = rest
            names.append(name)
            cands.append(cs)
        if names:
            combos = itertools.product(*[range(len(c)) for c in cands])
            combos = sorted(itertools.islice(combos, 5000), key=sum)
            combos = [[c[i] for c, i in zip(cands, k)] for k in combos]
            combos = [c for c in combos if len(set(map(id, c))) == len(c)]
            if not combos:
                raise Limit("loop %d: no variable for %s" % (self.no, names))
            self.nmatch = len(combos)
            self.ex.ver.ncombos = max(self.ex.ver.ncombos, len(combos))
            combo = combos[self.ex.ver.combo % len(combos)]
            for name, v in zip(names, combo):
                self.map[name] = v

    def derived(self, kind, v):
        """a pointer that has become base and index; a count of what is left
        that has become a count of what is done, or the other way round"""
        r = []
        if self.ex.A.bv:
            return r
        ints = [w for w in self.mod if w.ty.isint and w.mem is None]
        ptrs = [w for w in self.mod if w.ty.k == "ptr" and w.mem is None]
        if kind == "ptr":
            bases = [v] if v is not None else [w for w in self.visible() if w not in self.mod and w.mem is None]
            for b in bases:
                if isinstance(b.v, P) and not isz(b.v.path) and b.ty.k == "ptr" and len(b.v.path) <= 1:
                    r += [IndexVar(self.ex, b, i) for i in ints]
        elif kind != "bool":
            if v is not None and v.mem is None and v.ty.isint and v.v is not UNINIT:
                r += [RestVar(self.ex, v, v.v, i) for i in ints if i.v is not UNINIT]
                r += [RestVar(self.ex, v, v.v, p) for p in ptrs if isinstance(p.v, P) and len(p.v.path) <= 1]
            elif v is None:
                r += [RestVar(self.ex, i, i.v, i) for i in ints if i.v is not UNINIT]
        return r

    def visible(self):
        return [v for v in self.fr.env.values() if isinstance(v, Var)]

    def find_var(self, name):
        # innermost frame first, then the inlining callers
        for fr in reversed(self.ex.frames):
            v = fr.names.get(name)
            if v is not None:
                return v
        return None

    def kind_ok(self, v, kind):
        if kind == "ptr":
            return v.ty.k == "ptr"
        if kind == "int":
            return v.ty.isint
        if kind.startswith("int:"):
            if not self.ex.A.bv:
                return v.ty.isint
            _, w, s = kind.split(":")
            return repr(v.ty) == ("i" if s == "True" else "u") + w
        return repr(v.ty) == kind

    def run(self):
        self.measure = None
        self.nbind = self.nmatch
        self.spec.inv(self)

    def havoc(self):
        ex = self.ex
        for v in self.mod:
            if v.mem is not None:
                continue
            if v.v is UNINIT and False:
                continue
            v.v = UNINIT if v.v is UNINIT else ex.fresh(v.name, v.ty)
        for v in self.modaddr:
            for c in ex.chunks:
                if not isinstance(c, Pred) and same(c.base, v.mem) and v.ty.k not in ("arr", "struct"):
                    c.val = ex.fresh(v.name, v.ty) if c.val is not UNINIT else UNINIT
                    c.frozen = 0
        ex.errno_havoc = True
        if ex.errno is not None:
            ex.errno = ex.freshint("errno")

    def freeze_frame(self, frame):
        self.frozen = []
        addr = [v.mem for v in self.modaddr]
        for c in frame:
            if not isinstance(c, Pred) and any(same(c.base, a) for a in addr) and c.ty.k not in ("arr", "struct"):
                continue
            c.frozen += 1
            self.frozen.append(c)

    def unfreeze(self):
        for c in self.ex.chunks:
            if c.frozen > 0:
                c.frozen -= 1

    # variables
    def var(self, name):
        v = self.map.get(name) or self.find_var(name)
        if v is None:
            raise Limit("loop %d: no variable %s" % (self.no, name))
        if v.mem is not None:
            for c in self.ex.chunks:
                if not isinstance(c, Pred) and same(c.base, v.mem):
                    return self.ex.num(c.val, v.ty)
        if v.v is UNINIT:
            raise Limit("loop %d: %s unset" % (self.no, name))
        return self.ex.num(v.v, v.ty) if not isinstance(v.v, P) else v.v

    def setvar(self, name, val):
        v = self.map.get(name) or self.find_var(name)
        v.v = val

    def changed(self, name):
        v = self.map.get(name) or self.find_var(name)
        return self.ismod(v)

    def ismod(self, v):
        return v in self.mod or any(w in self.mod for w in getattr(v, "parts", ()))

    def ptr(self, name, base):
        """the pointer variable points into object base; returns the index"""
        v = self.map.get(name) or self.find_var(name)
        if v is None:
            raise Limit("loop %d: no variable %s" % (self.no, name))
        if self.mode == "assume" and self.ismod(v):
            i = self.fresh(name + "_i")
            v.v = P(base, (i,))
            return i
        p = v.v
        if not isinstance(p, P):
            raise Limit("loop %d: %s is no pointer" % (self.no, name))
        self.pure(p.base == base if isz(p.base) or isz(base) else p.base == base, name + " points into its object")
        return p.idx if isz(p.idx) or self.ex.A.bv else z3.IntVal(p.idx)

    def ghostval(self, name, init, sort=None):
        """a ghost variable: init on entry, arbitrary in the loop, and the value
        given by step() at the back edge"""
        raise NotImplementedError

    def decreases(self, m):
        self.measure = m

    def alt(self, n):
        """which of n ways to state this part of the invariant; all are tried"""
        k = self.ex.ver.combo // self.nbind % n
        self.nbind *= n
        self.ex.ver.ncombos = max(self.ex.ver.ncombos, self.nbind)
        return k

    def once(self, key, fn):
        """a value fixed before the loop"""
        if key not in self.gh:
            self.gh[key] = fn()
        return self.gh[key]


class PredDef:
    def roots(self, ex, c):
        return []

    def open(self, ex, c, base):
        raise Limit("cannot open")

    def claims(self, ex, c, base):
        """open right away an address known syntactically to lie inside"""
        return False

    def open_inside(self, ex, c, base):
        return False

    def fresh_outs(self, ex):
        return ()

    def facts(self, ex, ins, outs):
        pass

    def empty(self, ex, c):
        return False

    def out_eq(self, ex, i, a, b):
        return a == b

    def match(self, m, name, ins):
        """an existing instance with provably equal inputs"""
        ex = m.ex
        cs = [c for c in ex.chunks if isinstance(c, Pred) and c.name == name and not c.frozen]
        for c in cs:
            if all(self._same(a, b) for a, b in zip(c.ins, ins)):
                return c
        for c in cs:
            e = And(*[self._eq(ex, a, b) for a, b in zip(c.ins, ins)])
            if ex.entails(e):
                return c
        return None

    def _same(self, a, b):
        if isinstance(a, P) and isinstance(b, P):
            return same(a.base, b.base) and a.path == b.path
        return same(a, b)

    def _eq(self, ex, a, b):
        if isinstance(a, P) or isinstance(b, P):
            return ex.ptr_eq(a, b)
        return a == b

    def consume(self, m, ins):
        c = self.match(m, self.name, ins)
        if c is not None:
            m.ex.remove(c)
            return c.outs
        return self.fold(m, ins)

    def fold(self, m, ins):
        m.ex.prove(False, m.label + ": needs %s%s" % (self.name, ins), kind="memory")


class Counter:
    """agg(k) of an array: how many of its first k elements equal a probe.
    Facts used: the recursive definition, and what a single store changes
    (that lemma is proved by induction in lemmas())."""

    def __init__(self, probe):
        self.probe = probe

    def is_(self, ex, v):
        b = v.base if isinstance(v, P) else v
        b = b if isz(b) else z3.IntVal(b)
        return z3.If(b == self.probe, z3.IntVal(1), z3.IntVal(0))

    def attach(self, ex, a, old=None):
        c = z3.Function(ex.nm("count"), z3.IntSort(), z3.IntSort())
        get = a.get

        def agg(k):
            k = k if isz(k) else z3.IntVal(k)
            ex.assume_once(c(z3.IntVal(0)) == 0)
            ex.assume_once(Implies(k >= 1, c(k) == c(k - 1) + self.is_(ex, get(k - 1))))
            if old is not None:
                oa, on = old
                for j in (k, k - 1):
                    ex.assume_once(Implies(And(j >= 0, j <= on), c(j) == oa(j)))
            return c(k)
        a.agg = agg

    def store(self, ex, val, p, nv, r):
        oa, og = val.agg, val.get

        def agg(k):
            d = self.is_(ex, nv) - self.is_(ex, og(p))
            return oa(k) + z3.If(And(p >= 0, p < k), d, z3.IntVal(0))
        r.agg = agg

    @staticmethod
    def lemmas():
        """the effect of a store on the count, by induction on k"""
        I = z3.IntSort()
        a, c, c2 = z3.Function("a", I, I), z3.Function("c", I, I), z3.Function("c2", I, I)
        p, v, x, k = z3.Ints("p v x k")
        one = lambda e: z3.If(e, z3.IntVal(1), z3.IntVal(0))
        a2 = lambda i: z3.If(i == p, v, a(i))
        claim = lambda k: c2(k) == c(k) + z3.If(z3.And(p >= 0, p < k), one(v == x) - one(a(p) == x), z3.IntVal(0))
        unf = lambda k: z3.And(c(k + 1) == c(k) + one(a(k) == x), c2(k + 1) == c2(k) + one(a2(k) == x))
        return [("count after a store (induction base)", z3.Implies(z3.And(c(0) == 0, c2(0) == 0), claim(z3.IntVal(0)))),
                ("count after a store (induction step)", z3.Implies(z3.And(k >= 0, unf(k), claim(k)), claim(k + 1)))]


class Contract:
    def __init__(self, name, spec, loops=None, decreases=None, alt=()):
        self.name, self.spec = name, spec
        self.alt = alt
        self.loops = loops or {}
        self.decreases = decreases


class Verifier:
    """verifies one function against its contract"""

    def __init__(self, units, contracts, preds, mode="int", timeout=10000, unroll=70,
                 builtins=None, indirect=None, inline=(), const_globals=(), may_uninit=(),
                 global_hook=None, strlen_hint=None, vla_size=None, ptr_to_int=None, maxpaths=4000,
                 setup=None, budget=400, agg=None, light=None):
        self.units = units
        for u in units:
            u.linked = units
        self.unit = units[0]
        self.contracts, self.preds = contracts, preds
        self.mode, self.timeout, self.unroll = mode, timeout, unroll
        self.builtins = builtins or {}
        self._indirect = indirect
        self.inline = set(inline)
        self.const_globals = set(const_globals)
        self.may_uninit = set(may_uninit)
        self.global_hook = global_hook
        self.strlen_hint = strlen_hint
        self.vla_size = vla_size
        self._p2i = ptr_to_int
        self.maxpaths = maxpaths
        self.setup = setup
        self.budget = budget
        self.deadline = float("inf")
        self.agg = agg
        self.light = light
        self.recursive_group = set()
        self.combo = 0
        self.seen = set()
        self.unreached = []

    def find_func(self, name, unit):
        if unit is not None and name in unit.funcs:
            return unit, unit.funcs[name]
        for u in self.units:
            if name in u.funcs:
                return u, u.funcs[name]
        return None, None

    def indirect(self, ex, f, args, rty):
        if self._indirect is None:
            raise Limit("indirect call")
        return self._indirect(ex, f, args, rty)

    def ptr_to_int(self, ex, v, to):
        if self._p2i:
            return self._p2i(ex, v, to)
        if isinstance(v, P) and not v.path:
            return v
        raise Limit("pointer converted to integer")

    def loop_spec(self, ex, no, n):
        if self.cur is None:
            return None
        loops = self.cur.loops
        nloops = len(self.loopindex)
        if self.cur.alt and nloops != len(loops):
            # the function has another number of loops than the invariants are for
            loops = next((a for a in self.cur.alt if len(a) == nloops), loops)
        return loops.get(no)

    def loop_number(self, ex, n):
        return self.loopindex.get((tuple(ex.chain), n["id"]), -1)

    def number_loops(self, fname, u, fn):
        """loops in textual order, inlined callees counted at the call"""
        self.loopindex = {}

        def go(n, chain, stack, unit):
            if not isinstance(n, dict):
                return
            if n.get("kind") in ("WhileStmt", "ForStmt", "DoStmt"):
                self.loopindex[(chain, n["id"])] = len(self.loopindex)
            for x in inner(n):
                go(x, chain, stack, unit)
            if n.get("kind") == "CallExpr":
                x = inner(n)[0]
                while x.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
                    x = inner(x)[0]
                if x.get("kind") == "DeclRefExpr":
                    nm = x["referencedDecl"]["name"]
                    if nm in stack or nm in self.builtins or (nm in self.contracts and nm not in self.inline):
                        return
                    u2, f2 = self.find_func(nm, unit)
                    if f2 is not None and len(stack) < 12:
                        go(f2, chain + (n["id"],), stack + [nm], u2)
        go(fn, (), [fname], u)

    def obligation(self, ex, label, kind, status, t, detail):
        self.nobl += 1
        self.obs.append(Ob("%s (line %s)" % (label, ex.line), self.fname, status,
                           "slv (z3 %s)" % z3.get_version_string(), t, detail))
        self.obs[-1].kind = kind
        if status != "proved":
            self.nfail += 1

    def verify(self, fname, contract=None):
        """returns a list of obligations"""
        best = None
        self.ncombos = 1
        self.combo = 0
        t0 = time.time()
        self.deadline = t0 + self.budget
        while True:
            obs = self.verify1(fname, contract)
            bad = [o for o in obs if o.status != "proved"]
            if best is None or len(bad) < len([o for o in best if o.status != "proved"]):
                best = obs
            if not bad or self.combo + 1 >= min(self.ncombos, 24) or time.time() - t0 > self.budget / 3:
                return best
            self.combo += 1

    def verify1(self, fname, contract):
        self.fname = fname
        self.cur = contract if contract is not None else self.contracts[fname]
        self.obs = []
        self.nobl = self.nfail = self.nchecks = 0
        self.solver_time = 0.0
        self.used_contracts, self.inlined = set(), set()
        u, fn = self.find_func(fname, None)
        if fn is None:
            return [Ob("function not found", fname, "limit", "slv", 0, "")]
        annotate_once(fn)
        self.number_loops(fname, u, fn)
        self.work = [[]]
        self.npaths = self.returned = 0
        self.seen = set()
        t0 = time.time()
        kids = {}
        try:
            while self.work or kids:
                if self.nfail > 12:
                    break
                if self.npaths > self.maxpaths or time.time() > self.deadline:
                    self.obs.append(Ob("path or time limit", fname, "unknown", "slv", 0, "%d paths" % self.npaths))
                    break
                if len(self.work) > 1 and TOKENS is not None and TOKENS.acquire(False):
                    pid, fd = self.fork_paths(fname, u, fn, [self.work.pop(0)])
                    kids[fd] = pid
                if kids:
                    for fd in select.select(list(kids), [], [], 0 if self.work else 1)[0]:
                        self.join_paths(fname, fd, kids)
                if self.work:
                    self.one_path(fname, u, fn, self.work.pop())
        finally:
            for fd, pid in kids.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                TOKENS.release()
        self.unreached = sorted(self.statement_lines(fn) - self.seen)
        if self.returned == 0 and not any(o.status != "proved" for o in self.obs):
            self.obs.append(Ob("reachability: no path returns", fname, "limit", "slv"))
        elif self.returned:
            self.obs.append(Ob("reachability: the precondition is satisfiable and a return is reached", fname, "proved", "slv (z3 %s)" % z3.get_version_string()))
        return self.obs

    def statement_lines(self, fn):
        """the lines statements of the function stand on"""
        out = set()

        def go(n):
            if not isinstance(n, dict):
                return
            k = n.get("kind", "")
            if k == "CompoundStmt":
                for x in inner(n):
                    if "_line" in x and x.get("kind") not in ("CompoundStmt", "NullStmt", "LabelStmt"):
                        out.add(x["_line"])
            for x in inner(n):
                go(x)
        go(fn)
        return out

    def verify_ghost(self, name, body):
        """a lemma about the predicates: body(ex, m) run on every path"""
        self.cur = None
        self.fname = name
        self.obs = []
        self.nobl = self.nfail = self.nchecks = 0
        self.solver_time = 0.0
        self.used_contracts, self.inlined = set(), set()
        self.work = [[]]
        self.npaths = self.returned = 0
        self.run_path = lambda ex, fname, u, fn: body(ex, M(ex, "prove", name))
        while self.work and self.npaths < self.maxpaths:
            self.one_path(name, None, None, self.work.pop())
        if self.work:
            self.obs.append(Ob("path limit", name, "unknown", "slv"))
        if not self.returned:
            self.obs.append(Ob("lemma is vacuous", name, "limit", "slv"))
        return self.obs

    def fork_paths(self, fname, u, fn, work):
        """explore some paths in another process for a while"""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        try:
            os.close(r)
            self.work, self.obs = work, []
            self.npaths = self.returned = self.nchecks = 0
            nfail0, self.solver_time = self.nfail, 0.0
            t = time.time()
            while self.work and time.time() - t < 4 and self.nfail <= 12:
                self.one_path(fname, u, fn, self.work.pop())
            with os.fdopen(w, "wb") as f:
                pickle.dump((self.work, self.obs, self.npaths, self.returned, self.nchecks, self.nfail - nfail0, self.nobl,
                             self.solver_time, self.used_contracts, self.inlined, self.ncombos, self.seen), f)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(0)

    def join_paths(self, fname, fd, kids):
        with os.fdopen(fd, "rb") as f:
            data = f.read()
        os.waitpid(kids.pop(fd), 0)
        TOKENS.release()
        try:
            work, obs, npaths, returned, nchecks, nfail, nobl, st, used, inl, ncombos, seen = pickle.loads(data)
        except Exception:
            self.obs.append(Ob("a path process died", fname, "limit", "slv"))
            return
        self.work += work
        self.obs += obs
        self.npaths += npaths
        self.returned += returned
        self.nchecks += nchecks
        self.nfail += nfail
        self.solver_time += st
        self.used_contracts |= used
        self.inlined |= inl
        self.ncombos = max(self.ncombos, ncombos)
        self.seen |= seen

    def one_path(self, fname, u, fn, prefix):
        self.npaths += 1
        ex = Ex(self, prefix)
        try:
            self.run_path(ex, fname, u, fn)
            self.returned += 1
        except (Infeasible,):
            pass
        except PathDone:
            pass
        except PathFail:
            pass
        except Limit as e:
            # a limit on an infeasible path does not count
            try:
                ex.instantiate()
                dead = ex.check() == z3.unsat
            except Exception:
                dead = False
            if not dead:
                self.nfail += 5 if "too long" in str(e) else 1
                self.obs.append(Ob("outside the verifier's reach at line %s: %s" % (ex.line, e), fname, "limit", "slv", 0, ex.describe()))
        except (BreakEx, ContinueEx):
            self.obs.append(Ob("stray break", fname, "limit", "slv"))
        except RecursionError:
            self.obs.append(Ob("recursion", fname, "limit", "slv"))
        except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, AssertionError) as e:
            self.obs.append(Ob("verifier gave up at line %s: %r" % (ex.line, e), fname, "limit", "slv", 0, traceback.format_exc()))

    def run_path(self, ex, fname, u, fn):
        fr = Frame(fname, u, fn)
        ex.frames.append(fr)
        ps = [x for x in inner(fn) if x["kind"] == "ParmVarDecl"]
        m = M(ex, "assume", "precondition")
        args = []
        for p in ps:
            t = u.ty(p)
            if t.k == "arr":
                t = T("ptr", to=t.to)
            v = ex.fresh(p.get("name", "arg"), t)
            if t.k == "bool":
                v = v != 0
            args.append(v)
            ex.model_terms.append((p.get("name", "arg"), v))
        if self.setup:
            self.setup(ex)
        g = self.cur.spec(m, *args)
        m.args = args
        next(g)
        args = m.args
        ex.argv = list(args)
        ex.bind_params(fn, args)
        ex.inline_stack.append(fname)
        body = [x for x in inner(fn) if x["kind"] == "CompoundStmt"][0]
        rv = None
        try:
            ex.st(body)
        except ReturnEx as r:
            rv = r.v
        rt = fn["type"]["qualType"].split("(")[0].strip()
        if isinstance(rv, (bool, z3.BoolRef)):
            rv = ex.num(rv, I32) if "bool" not in rt and "_Bool" not in rt else rv
        m.mode = "prove"
        m.label = "postcondition"
        try:
            g.send(rv)
        except StopIteration:
            pass
        # everything the contract does not hand back must be gone
        for c in list(ex.chunks):
            if ex.is_stack(c):
                continue
            if not isinstance(c, Pred) and c.ro:
                continue
            if isinstance(c, Pred) and self.preds[c.name].empty(ex, c):
                continue
            ex.prove(False, "postcondition: memory leaked: %s" % ex.chunk_text(c), kind="memory")
