"""Interval back end: decides contracts of functions of one or two code points.

The body is executed symbolically on *sets* of arguments (unions of intervals),
splitting a set where the code distinguishes its members, until every path
returns.  All operations are exact (values are constants, argument + constant,
or references to constant data), so the paths partition the whole domain and
the union of what they return is the function's graph: the contract is decided
for every argument.  Anything else raises Limit."""
import re
from bisect import bisect_left
from cfront import Limit, T, I32, inner, line_of

MAXSPLIT = 1300000


class Bad(Exception):
    """undefined behaviour on a path"""

    def __init__(self, what, dom):
        self.what, self.dom = what, dom


class Lin:
    """argument number v plus k"""
    __slots__ = ("v", "k")

    def __init__(self, v, k):
        self.v, self.k = v, k

    def __eq__(self, o):
        return isinstance(o, Lin) and (self.v, self.k) == (o.v, o.k)

    def __hash__(self):
        return hash((self.v, self.k))

    def __repr__(self):
        return "arg%d%+d" % (self.v, self.k)


class Ref:
    """address inside constant data: object and element path"""
    __slots__ = ("obj", "path", "ty")

    def __init__(self, obj, path, ty):
        self.obj, self.path, self.ty = obj, path, ty

    def __eq__(self, o):
        return isinstance(o, Ref) and self.obj is o.obj and self.path == o.path

    def __hash__(self):
        return hash((id(self.obj), self.path))


class Cell:
    """address of a local variable"""
    __slots__ = ("id", "ty")

    def __init__(self, id, ty):
        self.id, self.ty = id, ty


NULL = None


# sets of integers: sorted tuples of disjoint closed intervals

def below(s, x):
    """(members < x, members >= x)"""
    if not s or x <= s[0][0]:
        return (), s
    if x > s[-1][1]:
        return s, ()
    i = bisect_left(s, (x,))
    # s[i][0] >= x, s[i-1][0] < x
    a, b = s[i - 1]
    if b < x:
        return s[:i], s[i:]
    return s[:i - 1] + ((a, x - 1),), ((x, b),) + s[i:]


def size(s):
    return sum(b - a + 1 for a, b in s)


def union(ss):
    l = sorted(x for s in ss for x in s)
    r = []
    for a, b in l:
        if r and a <= r[-1][1] + 1:
            if b > r[-1][1]:
                r[-1] = (r[-1][0], b)
        else:
            r.append((a, b))
    return tuple(r)


def put(dom, v, s):
    return dom[:v] + (s,) + dom[v + 1:]


class Data:
    """constant data of a translation unit, as nested lists"""

    def __init__(self, val, ty, name):
        self.val, self.ty, self.name = val, ty, name


class Exec:
    def __init__(self, units):
        self.units = units
        for u in units:
            u.linked = units
        self.data = {}
        self.switches = {}
        self.types = {}
        self.calls = 0
        self.inlined = set()
        self.ops = 0

    # ---------------------------------------------------------------- types
    def ty(self, u, n):
        q = n["type"]
        q = q.get("desugaredQualType") or q["qualType"]
        t = self.types.get((u, q))
        if t is None:
            t = self.types[(u, q)] = u.parse(q)
        return t

    # ----------------------------------------------------------------- data
    def init_value(self, u, n, ty):
        k = n["kind"]
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr", "ConstantExpr"):
            if ty.k in ("arr", "struct"):
                return self.init_value(u, inner(n)[0], ty)
        if k == "InitListExpr":
            t = ty if ty.k in ("arr", "struct") else self.ty(u, n)
            its = inner(n)
            if t.k == "arr":
                if "array_filler" in n:
                    its = [x for x in n["array_filler"] if x.get("kind") != "ImplicitValueInitExpr"]
                r = [self.init_value(u, x, t.to) for x in its]
                if t.n is not None:
                    if len(r) > t.n:
                        raise Limit("initialiser")
                    r += [self.zero(u, t.to) for _ in range(t.n - len(r))] if len(r) < t.n else []
                return r
            if t.k == "struct":
                fs = u.fields(t)
                r = {}
                for (f, ft), x in zip(fs, its):
                    r[f] = self.init_value(u, x, ft)
                for f, ft in fs[len(its):]:
                    r[f] = self.zero(u, ft)
                return r
            return self.init_value(u, its[0], ty)
        if k == "ImplicitValueInitExpr":
            return self.zero(u, ty)
        if k == "StringLiteral" and ty.k == "arr":
            s = string_bytes(n)
            if ty.n is None:
                return list(s) + [0]
            return (list(s) + [0] * ty.n)[:ty.n]
        r = self.eval(u, n, {}, ((),))
        if len(r) != 1:
            raise Limit("initialiser")
        return r[0][1]

    def zero(self, u, t):
        if t.k == "arr":
            return [self.zero(u, t.to) for _ in range(t.n)]
        if t.k == "struct":
            return {f: self.zero(u, ft) for f, ft in u.fields(t)}
        return NULL if t.k == "ptr" else 0

    def global_data(self, u, name):
        for x in [u] + [y for y in self.units if y is not u]:
            n = x.gbyname.get(name)
            if n is not None and "init" in n:
                key = (x, name)
                if key not in self.data:
                    q = n["type"]["qualType"]
                    t = self.ty(x, n)
                    const = re.search(r"\bconst\b", q) is not None
                    e = t
                    if not const or (t.k == "ptr" and not q.rstrip().endswith("const")):
                        if not (t.k == "arr" and const) and not n.get("storageClass") == "static":
                            raise Limit("global variable %s is not constant" % name)
                    if not const and not self.never_written(x, n["id"]):
                        raise Limit("global variable %s is not constant" % name)
                    self.data[key] = Data(self.init_value(x, [y for y in inner(n) if "kind" in y][-1], t), t, name)
                return self.data[key]
        raise Limit("global " + name)

    def never_written(self, u, did):
        found = []

        def go(n, read):
            if not isinstance(n, dict):
                return
            if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["id"] == did and not read:
                found.append(n)
            r = n.get("kind") == "ImplicitCastExpr" and n.get("castKind") == "LValueToRValue" or \
                n.get("kind") in ("ArraySubscriptExpr", "MemberExpr", "ParenExpr") and read or \
                n.get("kind") == "ImplicitCastExpr" and n.get("castKind") == "ArrayToPointerDecay" and read
            for x in n.get("inner", []):
                go(x, r)
        for f in u.funcs.values():
            go(f, False)
        return not found

    def lookup(self, ref):
        v = ref.obj.val
        for p in ref.path:
            if isinstance(v, list):
                if not 0 <= p < len(v):
                    raise Bad("index %d outside %s" % (p, ref.obj.name), None)
            v = v[p]
        return v

    # ---------------------------------------------------------- expressions
    # eval: list of (domain, value)
    def eval(self, u, n, env, dom):
        self.ops += 1
        k = n["kind"]
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Limit("expression " + k)
        return f(u, n, env, dom)

    def e_ParenExpr(self, u, n, env, dom):
        return self.eval(u, inner(n)[0], env, dom)

    def e_IntegerLiteral(self, u, n, env, dom):
        return [(dom, int(n["value"]))]

    def e_CharacterLiteral(self, u, n, env, dom):
        return [(dom, n["value"])]

    def e_ConstantExpr(self, u, n, env, dom):
        return self.eval(u, inner(n)[0], env, dom)

    def e_StringLiteral(self, u, n, env, dom):
        key = ("str", id(n))
        if key not in self.data:
            self.data[key] = Data(list(string_bytes(n)) + [0], self.ty(u, n), "string")
        return [(dom, Ref(self.data[key], (), self.data[key].ty))]

    def e_DeclRefExpr(self, u, n, env, dom):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            v = u.enums.get(d["id"], u.enums.get("name:" + d["name"]))
            if v is None:
                raise Limit("enumerator")
            return [(dom, v)]
        if d["id"] in env:
            return [(dom, Cell(d["id"], self.ty(u, n)))]
        if d["kind"] == "FunctionDecl":
            return [(dom, ("fn", d["name"]))]
        if ("static", d["id"]) in self.data:
            x = self.data[("static", d["id"])]
            return [(dom, Ref(x, (), x.ty))]
        x = self.global_data(u, d["name"])
        return [(dom, Ref(x, (), x.ty))]

    def load(self, loc, env):
        if isinstance(loc, Cell):
            return env[loc.id]
        if isinstance(loc, Ref):
            return self.lookup(loc)
        raise Limit("load")

    def e_ImplicitCastExpr(self, u, n, env, dom):
        ck = n["castKind"]
        r = self.eval(u, inner(n)[0], env, dom)
        if ck in ("NoOp", "FunctionToPointerDecay", "BitCast", "BuiltinFnToFnPtr", "ToVoid"):
            return r
        if ck == "LValueToRValue":
            out = []
            for d, v in r:
                if isinstance(v, Ref) and v.path and isinstance(v.path[-1], Lin):
                    out += self.index_load(v, d)
                else:
                    try:
                        x = self.load(v, env)
                    except Bad as b:
                        raise Bad(b.what, d)
                    if isinstance(x, (list, dict)):
                        raise Limit("aggregate value")
                    out.append((d, x))
            return out
        if ck == "ArrayToPointerDecay":
            return [(d, Ref(v.obj, v.path + (0,), v.ty)) for d, v in r]
        if ck == "NullToPointer":
            return [(d, NULL) for d, v in r]
        if ck in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean"):
            t = self.ty(u, n)
            out = []
            for d, v in r:
                out += self.convert(v, t, d)
            return out
        raise Limit("cast " + ck)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def index_load(self, ref, d):
        p = ref.path[-1]
        base = self.lookup(Ref(ref.obj, ref.path[:-1], None))
        out = []
        for a, b in self.elements(d[p.v]):
            for x in range(a, b + 1):
                i = x + p.k
                dd = put(d, p.v, ((x, x),))
                if not 0 <= i < len(base):
                    raise Bad("index %d outside %s" % (i, ref.obj.name), dd)
                out.append((dd, base[i]))
        return out

    def elements(self, s):
        if size(s) > MAXSPLIT:
            raise Limit("too many cases")
        return s

    def convert(self, v, t, d):
        if t.k == "bool":
            if isinstance(v, (Ref, tuple)):
                return [(d, 1)]
            if v is NULL:
                return [(d, 0)]
            return self.compare("!=", v, 0, d)
        if isinstance(v, int):
            return [(d, wrap(v, t))]
        if isinstance(v, Lin):
            s = d[v.v]
            if not s or (s[0][0] + v.k >= t.lo() and s[-1][1] + v.k <= t.hi()):
                return [(d, v)]
            out = []
            for a, b in self.elements(s):
                for x in range(a, b + 1):
                    out.append((put(d, v.v, ((x, x),)), wrap(x + v.k, t)))
            return out
        raise Limit("conversion")

    def compare(self, op, a, b, d):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if a.v != b.v:
                raise Limit("comparison of two arguments")
            a, b = a.k, b.k
        if isinstance(b, Lin):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if isinstance(a, Lin):
            if not isinstance(b, int):
                raise Limit("comparison")
            s, x = d[a.v], b - a.k
            if op in ("<", ">="):
                lo, hi = below(s, x)
                yes, no = (lo, hi) if op == "<" else (hi, lo)
            elif op in ("<=", ">"):
                lo, hi = below(s, x + 1)
                yes, no = (lo, hi) if op == "<=" else (hi, lo)
            else:
                lo, r = below(s, x)
                mid, hi = below(r, x + 1)
                yes, no = mid, lo + hi
                if op == "!=":
                    yes, no = no, yes
            out = []
            if yes:
                out.append((put(d, a.v, yes), 1))
            if no:
                out.append((put(d, a.v, no), 0))
            return out
        if op in ("==", "!="):
            if isinstance(a, (Ref, type(None))) or isinstance(b, (Ref, type(None))):
                if isinstance(a, int) or isinstance(b, int):
                    raise Limit("pointer comparison")
                if isinstance(a, Ref) and isinstance(b, Ref) and a != b:
                    if a.obj is not b.obj:
                        raise Limit("pointer comparison")
                return [(d, int((a == b) == (op == "==")))]
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.obj is not b.obj or a.path[:-1] != b.path[:-1]:
                raise Limit("pointer comparison")
            a, b = a.path[-1], b.path[-1]
        if not (isinstance(a, int) and isinstance(b, int)):
            raise Limit("comparison")
        return [(d, int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]))]

    def arith(self, op, a, b, t, d):
        """results in the unbounded integers where possible, checked against t"""
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(b, Ref) and op == "+":
                a, b = b, a
            if isinstance(a, Ref) and isinstance(b, Ref) and op == "-":
                if a.obj is not b.obj or a.path[:-1] != b.path[:-1]:
                    raise Limit("pointer difference")
                return [(d, a.path[-1] - b.path[-1])]
            if not isinstance(a, Ref) or op not in "+-" or not a.path:
                raise Limit("pointer arithmetic")
            i = a.path[-1]
            if isinstance(b, Lin) and op == "+" and isinstance(i, int):
                return [(d, Ref(a.obj, a.path[:-1] + (Lin(b.v, b.k + i),), a.ty))]
            if not isinstance(b, int) or not isinstance(i, int):
                raise Limit("pointer arithmetic")
            i = i + b if op == "+" else i - b
            n = self.lookup(Ref(a.obj, a.path[:-1], None))
            if not 0 <= i <= len(n):
                raise Bad("pointer outside " + a.obj.name, d)
            return [(d, Ref(a.obj, a.path[:-1] + (i,), a.ty))]
        if isinstance(a, int) and isinstance(b, int):
            return [(d, self.const(op, a, b, t, d))]
        if op in ("+", "-") and (isinstance(a, Lin) and isinstance(b, int) or
                                 op == "+" and isinstance(a, int) and isinstance(b, Lin)):
            if isinstance(a, int):
                a, b = b, a
            r = Lin(a.v, a.k + b if op == "+" else a.k - b)
            s = d[a.v]
            if s and (s[0][0] + r.k < t.lo() or s[-1][1] + r.k > t.hi()):
                if t.s:
                    raise Bad("signed overflow", d)
                return self.convert(r, t, d)
            return [(d, r)]
        if op == "-" and isinstance(a, Lin) and isinstance(b, Lin) and a.v == b.v:
            return [(d, a.k - b.k)]
        if isinstance(a, Lin) and isinstance(b, int):
            s = d[a.v]
            low = s[0][0] + a.k if s else 0
            m = None
            if low >= 0:
                if op == "/" and b > 0:
                    m = b
                elif op == ">>" and 0 <= b < t.w:
                    m = 1 << b
                elif op == "%" and b > 0:
                    m = b
                elif op == "&" and b >= 0 and b & (b + 1) == 0:
                    m = b + 1
            if m is not None:
                out = []
                for x, y in s:
                    q = (x + a.k) // m
                    while x <= y:
                        e = min(y, (q + 1) * m - 1 - a.k)
                        dd = put(d, a.v, ((x, e),))
                        out.append((dd, q if op in ("/", ">>") else Lin(a.v, a.k - q * m)))
                        x, q = e + 1, q + 1
                return out
        vs = {x.v for x in (a, b) if isinstance(x, Lin)}
        if len(vs) != 1:
            raise Limit("operator %s on two arguments" % op)
        v = vs.pop()
        out = []
        for x, y in self.elements(d[v]):
            for c in range(x, y + 1):
                dd = put(d, v, ((c, c),))
                out.append((dd, self.const(op, a.k + c if isinstance(a, Lin) else a, b.k + c if isinstance(b, Lin) else b, t, dd)))
        return out

    def const(self, op, a, b, t, d):
        if op in ("/", "%"):
            if b == 0:
                raise Bad("division by zero", d)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            r = q if op == "/" else a - b * q
        elif op in ("<<", ">>"):
            if not 0 <= b < t.w:
                raise Bad("shift by %d" % b, d)
            if op == "<<":
                r = a << b
                if t.s and a < 0:
                    raise Bad("shift of a negative value", d)
            else:
                r = a >> b
        elif op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "&":
            r = a & b
        elif op == "|":
            r = a | b
        elif op == "^":
            r = a ^ b
        else:
            raise Limit("operator " + op)
        if t.s and not t.lo() <= r <= t.hi():
            raise Bad("signed overflow", d)
        return wrap(r, t)

    def e_BinaryOperator(self, u, n, env, dom):
        op = n["opcode"]
        l, r = inner(n)
        out = []
        if op in ("&&", "||"):
            for d, v in self.truth(u, l, env, dom):
                if v == (op == "||"):
                    out.append((d, int(v)))
                else:
                    out += [(dd, int(w)) for dd, w in self.truth(u, r, env, d)]
            return out
        if op == ",":
            for d, v in self.eval(u, l, env, dom):
                out += self.eval(u, r, env, d)
            return out
        if op == "=":
            return self.assign(u, l, r, env, dom, lambda d, old, v: [(d, v)])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            for d, a in self.eval(u, l, env, dom):
                for dd, b in self.eval(u, r, env, d):
                    out += self.compare(op, a, b, dd)
            return out
        t = self.ty(u, n)
        for d, a in self.eval(u, l, env, dom):
            for dd, b in self.eval(u, r, env, d):
                out += self.arith(op, a, b, t, dd)
        return out

    def e_UnaryOperator(self, u, n, env, dom):
        op = n["opcode"]
        x = inner(n)[0]
        if op == "!":
            return [(d, int(not v)) for d, v in self.truth(u, x, env, dom)]
        if op == "&":
            return self.eval(u, x, env, dom)
        if op == "*":
            return [(d, self.deref(v, d)) for d, v in self.eval(u, x, env, dom)]
        if op in ("-", "~"):
            t = self.ty(u, n)
            out = []
            for d, v in self.eval(u, x, env, dom):
                if isinstance(v, Lin):
                    for dd, w in self.convert_each(v, d):
                        out.append((dd, self.const("-", 0, w, t, dd) if op == "-" else wrap(~w, t)))
                else:
                    out.append((d, self.const("-", 0, v, t, d) if op == "-" else wrap(~v, t)))
            return out
        if op == "+":
            return self.eval(u, x, env, dom)
        if op in ("++", "--"):
            raise Limit("increment inside an expression") if not n.get("_stmt") else None
        raise Limit("operator " + op)

    def convert_each(self, v, d):
        for a, b in self.elements(d[v.v]):
            for x in range(a, b + 1):
                yield put(d, v.v, ((x, x),)), x + v.k

    def deref(self, v, d):
        if v is NULL:
            raise Bad("null dereference", d)
        if isinstance(v, (Ref, Cell)):
            return v
        raise Limit("dereference")

    def e_ArraySubscriptExpr(self, u, n, env, dom):
        a, b = inner(n)
        out = []
        for d, p in self.eval(u, a, env, dom):
            for dd, i in self.eval(u, b, env, d):
                if isinstance(i, Ref):
                    p, i = i, p
                if p is NULL:
                    raise Bad("null dereference", dd)
                if isinstance(p, Ref) and p.path and isinstance(p.path[-1], int):
                    if isinstance(i, Lin):
                        out.append((dd, Ref(p.obj, p.path[:-1] + (Lin(i.v, i.k + p.path[-1]),), p.ty)))
                        continue
                    if isinstance(i, int):
                        out.append((dd, Ref(p.obj, p.path[:-1] + (p.path[-1] + i,), p.ty)))
                        continue
                raise Limit("subscript")
        return out

    def e_MemberExpr(self, u, n, env, dom):
        out = []
        for d, v in self.eval(u, inner(n)[0], env, dom):
            if n.get("isArrow"):
                v = self.deref(v, d)
            if not isinstance(v, Ref):
                raise Limit("member")
            if v.path and isinstance(v.path[-1], Lin):
                p = v.path[-1]
                for a, b in self.elements(d[p.v]):
                    for x in range(a, b + 1):
                        out.append((put(d, p.v, ((x, x),)), Ref(v.obj, v.path[:-1] + (x + p.k, n["name"]), None)))
            else:
                out.append((d, Ref(v.obj, v.path + (n["name"],), None)))
        return out

    def e_ConditionalOperator(self, u, n, env, dom):
        c, a, b = inner(n)
        out = []
        for d, v in self.truth(u, c, env, dom):
            out += self.eval(u, a if v else b, env, d)
        return out

    def e_UnaryExprOrTypeTraitExpr(self, u, n, env, dom):
        if n.get("name") != "sizeof":
            raise Limit("trait")
        if "argType" in n:
            t = self.ty(u, {"type": n["argType"]})
        else:
            x = inner(n)[0]
            t = self.ty(u, x)
        return [(dom, u.sizeof(t))]

    def truth(self, u, n, env, dom):
        out = []
        for d, v in self.eval(u, n, env, dom):
            if v is NULL:
                out.append((d, False))
            elif isinstance(v, (Ref, tuple)):
                out.append((d, True))
            elif isinstance(v, int):
                out.append((d, v != 0))
            elif isinstance(v, Lin):
                out += [(dd, bool(w)) for dd, w in self.compare("!=", v, 0, d)]
            else:
                raise Limit("condition")
        # members of the domain that agree are treated together
        if len(out) > 2 and len(dom) == 1:
            y = union([d[0] for d, v in out if v])
            z = union([d[0] for d, v in out if not v])
            return [((s,), v) for s, v in ((y, True), (z, False)) if s]
        return out

    def e_CallExpr(self, u, n, env, dom):
        parts = inner(n)
        out = []
        todo = [(dom, ())]
        f = self.eval(u, parts[0], env, dom)
        if len(f) != 1 or not isinstance(f[0][1], tuple):
            raise Limit("indirect call")
        name = f[0][1][1]
        if name == "__builtin_expect":
            return self.eval(u, parts[1], env, dom)
        if name in ("abort", "__assert_fail", "__builtin_unreachable"):
            raise Bad("reaches " + name, dom)
        for a in parts[1:]:
            todo = [(dd, vs + (v,)) for d, vs in todo for dd, v in self.eval(u, a, env, d)]
        for d, vs in todo:
            out += [(dd, v) for dd, v in self.call(name, vs, d, u)]
        return out

    def find(self, name, u=None):
        if u is not None and name in u.funcs:
            return u, u.funcs[name]
        for x in self.units:
            if name in x.funcs:
                return x, x.funcs[name]
        raise Limit("function " + name)

    depth = 0

    def call(self, name, vals, dom, u=None):
        u, fn = self.find(name, u)
        self.inlined.add(name)
        ps = [x for x in inner(fn) if x["kind"] == "ParmVarDecl"]
        if len(ps) != len(vals) or fn.get("variadic"):
            raise Limit("call of " + name)
        body = [x for x in inner(fn) if x["kind"] == "CompoundStmt"][0]
        env = {p["id"]: v for p, v in zip(ps, vals)}
        self.depth += 1
        if self.depth > 40:
            raise Limit("recursion")
        out = []
        for kind, d, e, v in self.stmt(u, body, env, dom):
            if kind == "ret":
                out.append((d, v))
            elif kind == "next":
                out.append((d, ("void", name)))
            else:
                raise Limit("jump")
        self.depth -= 1
        return out

    # ------------------------------------------------------------ statements
    # stmt: list of (kind, domain, env, value)
    def stmt(self, u, n, env, dom):
        k = n["kind"]
        f = getattr(self, "s_" + k, None)
        if f is None:
            if k.endswith("Expr") or k.endswith("Operator") or k.endswith("Literal"):
                return self.effect(u, n, env, dom)
            raise Limit("statement " + k)
        return f(u, n, env, dom)

    def effect(self, u, n, env, dom):
        while n["kind"] == "ParenExpr" or n["kind"] in ("CStyleCastExpr", "ImplicitCastExpr") and n["castKind"] == "ToVoid":
            n = inner(n)[0]
        k = n["kind"]
        op = n.get("opcode")
        if k == "BinaryOperator" and op == ",":
            return self.seq(u, inner(n), env, dom)
        if k == "ConditionalOperator":
            c, a, b = inner(n)
            out = []
            for d, v in self.truth(u, c, env, dom):
                out += self.effect(u, a if v else b, env, d)
            return out
        if k == "BinaryOperator" and op == "=" or k == "CompoundAssignOperator" or \
           k == "UnaryOperator" and op in ("++", "--"):
            l = inner(n)[0]
            out = []
            for d, loc in self.eval(u, l, env, dom):
                if not isinstance(loc, Cell):
                    raise Limit("store")
                if k == "UnaryOperator":
                    t = self.ty(u, n)
                    res = self.arith("+" if op == "++" else "-", env[loc.id], 1, t if t.k != "ptr" else I32, d)
                    res = [y for d2, v in res for y in (self.convert(v, t, d2) if t.isint else [(d2, v)])]
                else:
                    res = []
                    for dd, v in self.eval(u, inner(n)[1], env, d):
                        if k == "CompoundAssignOperator":
                            ct = self.ty(u, {"type": n["computeResultType"]})
                            lt = self.ty(u, {"type": n["computeLHSType"]})
                            old = env[loc.id]
                            for d1, o in (self.convert(old, lt, dd) if lt.isint else [(dd, old)]):
                                for d2, w in self.arith(op[:-1], o, v, ct, d1):
                                    t = self.ty(u, n)
                                    res += self.convert(w, t, d2) if t.isint else [(d2, w)]
                        else:
                            res.append((dd, v))
                for dd, v in res:
                    e = dict(env)
                    e[loc.id] = v
                    out.append(("next", dd, e, None))
            return out
        return [("next", d, env, None) for d, v in self.eval(u, n, env, dom)]

    def seq(self, u, items, env, dom):
        cur = [(dom, env)]
        out = []
        for s in items:
            if not cur:
                break
            nxt = []
            for d, e in cur:
                for o in self.stmt(u, s, e, d):
                    if o[0] == "next":
                        nxt.append((o[1], o[2]))
                    else:
                        out.append(o)
            cur = self.merge(nxt)
        return out + [("next", d, e, None) for d, e in cur]

    def merge(self, l):
        if len(l) < 2 or len(l[0][0]) != 1:
            return l
        groups = {}
        for d, e in l:
            try:
                key = tuple(sorted((k, v) if not isinstance(v, (Ref, Lin, tuple)) else (k, ("h", hash(v), repr(v)))
                                   for k, v in e.items()))
                hash(key)
            except TypeError:
                key = id(e)
            groups.setdefault(key, []).append((d, e))
        return [((union([d[0] for d, e in g]),), g[0][1]) for g in groups.values()]

    def s_CompoundStmt(self, u, n, env, dom):
        return self.seq(u, inner(n), env, dom)

    def s_NullStmt(self, u, n, env, dom):
        return [("next", dom, env, None)]

    def s_DeclStmt(self, u, n, env, dom):
        cur = [(dom, env)]
        for v in inner(n):
            if v["kind"] != "VarDecl":
                continue
            nxt = []
            t = self.ty(u, v)
            init = [x for x in inner(v) if "kind" in x]
            if v.get("storageClass") == "static" or t.k in ("arr", "struct"):
                if not init or not (v.get("storageClass") == "static" and re.search(r"\bconst\b", v["type"]["qualType"])
                                    or self.never_written(u, v["id"])):
                    raise Limit("local data")
                if ("static", v["id"]) not in self.data:
                    self.data[("static", v["id"])] = Data(self.init_value(u, init[-1], t), t, v["name"])
                continue
            for d, e in cur:
                if init:
                    for dd, x in self.eval(u, init[-1], e, d):
                        e2 = dict(e)
                        e2[v["id"]] = x
                        nxt.append((dd, e2))
                else:
                    e2 = dict(e)
                    e2[v["id"]] = ("uninitialised", v["name"])
                    nxt.append((d, e2))
            cur = nxt
        return [("next", d, e, None) for d, e in cur]

    def s_ReturnStmt(self, u, n, env, dom):
        x = inner(n)
        if not x:
            return [("ret", dom, env, ("void",))]
        return [("ret", d, env, v) for d, v in self.eval(u, x[0], env, dom)]

    def s_IfStmt(self, u, n, env, dom):
        x = inner(n)
        if n.get("hasInit") or n.get("hasVar"):
            raise Limit("if with declaration")
        out = []
        for d, v in self.truth(u, x[0], env, dom):
            if v:
                out += self.stmt(u, x[1], env, d)
            elif len(x) > 2:
                out += self.stmt(u, x[2], env, d)
            else:
                out.append(("next", d, env, None))
        return out

    def loop(self, u, cond, step, body, env, dom, first=True):
        cur = [(dom, env)]
        out = []
        rounds = 0
        seen = set()
        while cur:
            rounds += 1
            for d, e in cur:
                key = (d, tuple(sorted((k, repr(v)) for k, v in e.items())))
                if key in seen:
                    # the same arguments in the same state: it goes on for ever
                    raise Bad("a loop that does not end", d)
                seen.add(key)
            if rounds > 200000:
                raise Limit("loop")
            nxt = []
            for d, e in cur:
                for dd, v in (self.truth(u, cond, e, d) if cond and first else [(d, True)]):
                    if not v:
                        out.append(("next", dd, e, None))
                        continue
                    for o in self.stmt(u, body, e, dd):
                        if o[0] in ("next", "continue"):
                            if step:
                                nxt += [(p[1], p[2]) for p in self.effect(u, step, o[2], o[1])]
                            else:
                                nxt.append((o[1], o[2]))
                        elif o[0] == "break":
                            out.append(("next", o[1], o[2], None))
                        else:
                            out.append(o)
            first = True
            cur = self.merge(nxt)
        return out

    def s_WhileStmt(self, u, n, env, dom):
        x = inner(n)
        return self.loop(u, x[-2], None, x[-1], env, dom)

    def s_DoStmt(self, u, n, env, dom):
        x = inner(n)
        return self.loop(u, x[1], None, x[0], env, dom, False)

    def s_ForStmt(self, u, n, env, dom):
        x = inner(n)
        init, _, cond, step, body = x
        out = []
        start = [("next", dom, env, None)] if "kind" not in init else self.stmt(u, init, env, dom)
        for o in start:
            out += self.loop(u, cond if "kind" in cond else None, step if "kind" in step else None, body, o[2], o[1])
        return out

    def s_BreakStmt(self, u, n, env, dom):
        return [("break", dom, env, None)]

    def s_ContinueStmt(self, u, n, env, dom):
        return [("continue", dom, env, None)]

    def s_SwitchStmt(self, u, n, env, dom):
        x = inner(n)
        key = id(n)
        if key not in self.switches:
            body = x[-1]
            if body["kind"] != "CompoundStmt":
                raise Limit("switch")
            flat, labels, default = [], [], None
            for s in inner(body):
                while s["kind"] in ("CaseStmt", "DefaultStmt"):
                    y = inner(s)
                    if s["kind"] == "DefaultStmt":
                        default = len(flat)
                    else:
                        a = self.constant(u, y[0])
                        b = self.constant(u, y[1]) if len(y) > 2 or s.get("isGNURange") else a
                        labels.append((a, b, len(flat)))
                    s = y[-1]
                flat.append(s)
            labels.sort()
            self.switches[key] = flat, labels, default
        flat, labels, default = self.switches[key]
        out = []
        for d, v in self.eval(u, x[-2], env, dom):
            if isinstance(v, int):
                go = [(d, next((t for a, b, t in labels if a <= v <= b), default))]
            elif isinstance(v, Lin):
                go = []
                rest = []
                s = d[v.v]
                groups = {}
                for a, b, t in labels:
                    if not s:
                        break
                    lo, s = below(s, a - v.k)
                    if lo:
                        rest.append(lo)
                    mid, s = below(s, b + 1 - v.k)
                    if mid:
                        groups.setdefault(t, []).append(mid)
                if s:
                    rest.append(s)
                for t, l in groups.items():
                    go.append((put(d, v.v, tuple(y for z in l for y in z)), t))
                if rest:
                    go.append((put(d, v.v, tuple(y for z in rest for y in z)), default))
            else:
                raise Limit("switch")
            for dd, t in go:
                if t is None:
                    out.append(("next", dd, env, None))
                    continue
                # run from the label on
                for o in self.run_from(u, flat, t, env, dd):
                    out.append(("next", o[1], o[2], None) if o[0] == "break" else o)
        return out

    def run_from(self, u, flat, t, env, dom):
        cur = [(dom, env)]
        out = []
        while cur and t < len(flat):
            nxt = []
            for d, e in cur:
                for o in self.stmt(u, flat[t], e, d):
                    if o[0] == "next":
                        nxt.append((o[1], o[2]))
                    else:
                        out.append(o)
            cur = nxt
            t += 1
        return out + [("next", d, e, None) for d, e in cur]

    def constant(self, u, n):
        r = self.eval(u, n, {}, ((),))
        if len(r) != 1 or not isinstance(r[0][1], int):
            raise Limit("case label")
        return r[0][1]

    def assign(self, *a):
        raise Limit("assignment inside an expression")

    # ------------------------------------------------------------------ top
    def graph(self, name, doms, u=None):
        """the function as a list of (domain, value); values are int, Lin,
        NULL, bytes-like lists (a zero-terminated array)"""
        return self.call(name, tuple(Lin(i, 0) for i in range(len(doms))), tuple(doms), u)

    def terminated(self, ref):
        """the elements before the terminating zero"""
        a = self.lookup(Ref(ref.obj, ref.path[:-1], None))
        i = ref.path[-1]
        r = []
        while True:
            if i >= len(a):
                raise Bad("no terminator in " + ref.obj.name, None)
            if a[i] == 0:
                return tuple(r)
            r.append(a[i])
            i += 1


def wrap(v, t):
    if t.k == "bool":
        return int(v != 0)
    if t.lo() <= v <= t.hi():
        return v
    v &= (1 << t.w) - 1
    if t.s and v >> (t.w - 1):
        v -= 1 << t.w
    return v


def string_bytes(n):
    s = n["value"]
    pre = re.match(r'^(u8|L|u|U)?"', s)
    if not pre or pre.group(1) in ("L", "u", "U"):
        raise Limit("string literal")
    s = s[pre.end():-1]
    out = bytearray()
    i = 0
    esc = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, '"': 34, "'": 39, "a": 7, "b": 8, "f": 12, "v": 11, "?": 63}
    while i < len(s):
        c = s[i]
        if c != "\\":
            out += c.encode("utf-8")
            i += 1
            continue
        m = re.match(r"\\([0-7]{1,3})", s[i:])
        if m:
            out.append(int(m.group(1), 8) & 255)
            i += m.end()
            continue
        m = re.match(r"\\x([0-9a-fA-F]+)", s[i:])
        if m:
            out.append(int(m.group(1), 16) & 255)
            i += m.end()
            continue
        m = re.match(r"\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})", s[i:])
        if m:
            out += chr(int(m.group(1) or m.group(2), 16)).encode("utf-8")
            i += m.end()
            continue
        if s[i + 1] not in esc:
            raise Limit("escape")
        out.append(esc[s[i + 1]])
        i += 2
    return [x - 256 if x > 127 else x for x in out]
