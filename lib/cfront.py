"""C front end: clang's JSON AST of the current source, with parsed types."""
import json, os, re, subprocess
from common import REPO, run, ToolError


class Limit(Exception):
    """The code uses something outside the verifier's reach."""


# ------------------------------------------------------------------ types

class T:
    __slots__ = ("k", "w", "s", "to", "n", "name")

    def __init__(self, k, w=0, s=False, to=None, n=None, name=None):
        self.k, self.w, self.s, self.to, self.n, self.name = k, w, s, to, n, name

    def __repr__(self):
        if self.k == "int":
            return ("i" if self.s else "u") + str(self.w)
        if self.k == "ptr":
            return repr(self.to) + "*"
        if self.k == "arr":
            return "%r[%s]" % (self.to, self.n)
        return self.k + (":" + self.name if self.name else "")

    @property
    def isint(self):
        return self.k in ("int", "bool")

    def lo(self):
        if self.k == "bool":
            return 0
        return -(1 << (self.w - 1)) if self.s else 0

    def hi(self):
        if self.k == "bool":
            return 1
        return (1 << (self.w - 1)) - 1 if self.s else (1 << self.w) - 1


VOID = T("void")
BOOL = T("bool", 8, False)
I8, U8 = T("int", 8, True), T("int", 8, False)
I16, U16 = T("int", 16, True), T("int", 16, False)
I32, U32 = T("int", 32, True), T("int", 32, False)
I64, U64 = T("int", 64, True), T("int", 64, False)
FUNC = T("func")
VOIDP = T("ptr", to=VOID)

BASE = {
    "void": VOID, "_Bool": BOOL, "bool": BOOL, "char": I8, "signed char": I8,
    "unsigned char": U8, "short": I16, "unsigned short": U16, "int": I32,
    "unsigned int": U32, "unsigned": U32, "long": I64, "unsigned long": U64,
    "long long": I64, "unsigned long long": U64, "size_t": U64,
    "ssize_t": I64, "int8_t": I8, "uint8_t": U8, "uint16_t": U16,
    "int16_t": I16, "uint32_t": U32, "int32_t": I32, "uint64_t": U64,
    "int64_t": I64, "intptr_t": I64, "uintptr_t": U64, "double": T("float", 64),
    "__int128": T("int", 128, True), "unsigned __int128": T("int", 128, False),
    "ptrdiff_t": I64, "time_t": I64,
}


class Unit:
    """One translation unit."""

    def __init__(self, path, extra=()):
        self.path = path
        cmd = ["clang", "-std=gnu11", "-fsyntax-only", "-w", "-I%s/include" % REPO,
               "-I%s/src" % REPO] + list(extra) + ["-Xclang", "-ast-dump=json", path]
        rc, o, e = run(cmd, timeout=100)
        if rc != 0:
            raise ToolError("clang: " + e[-1500:])
        self.ast = json.loads(o)
        self.funcs = {}
        self.protos = {}
        self.records = {}      # name -> [(field, T)]
        self.recid = {}
        self.typedefs = {}
        self.enums = {}
        self.globals = {}      # declid -> node
        self.gbyname = {}
        self.decls = {}
        self._index(self.ast)
        self.byline = {}

    def _index(self, root):
        pending = []

        def rec(n, top):
            k = n.get("kind")
            if k == "RecordDecl" and n.get("completeDefinition"):
                pending.append(n)
                for x in n.get("inner", []):
                    if x.get("kind") == "RecordDecl":
                        rec(x, False)
            elif k == "TypedefDecl":
                self.typedefs[n["name"]] = n
            elif k == "EnumDecl":
                v = -1
                for c in n.get("inner", []):
                    if c.get("kind") == "EnumConstantDecl":
                        cv = const_value(c)
                        v = cv if cv is not None else v + 1
                        self.enums[c["id"]] = v
                        self.enums["name:" + c["name"]] = v
            elif k == "FunctionDecl":
                self.protos[n["name"]] = n
                body = [x for x in n.get("inner", []) if x.get("kind") == "CompoundStmt"]
                if body:
                    self.funcs[n["name"]] = n
                    walk_enums(body[0])
            elif k == "VarDecl" and top:
                old = self.gbyname.get(n["name"])
                if old is None or "init" in n or "init" not in old:
                    self.gbyname[n["name"]] = n
                self.globals[n["id"]] = n["name"]

        def walk_enums(n):
            if not isinstance(n, dict):
                return
            if n.get("kind") in ("EnumDecl", "RecordDecl", "TypedefDecl"):
                rec(n, False)
            for x in n.get("inner", []):
                walk_enums(x)

        for n in root.get("inner", []):
            rec(n, True)
        self.pending = pending
        for n in pending:
            self.recid[n["id"]] = n
            if n.get("name"):
                self.recid["struct " + n["name"]] = n
        for n in pending:
            loc = n.get("loc", {})
            if not n.get("name"):
                self.recid[("anon", loc.get("line"), loc.get("col"))] = n
        self.anon = [n for n in pending if not n.get("name")]

    # -- types
    def ty(self, node_or_type):
        t = node_or_type
        if "kind" in t:
            t = t["type"]
        if isinstance(t, dict):
            q = t.get("desugaredQualType") or t["qualType"]
        else:
            q = t
        return self.parse(q)

    def parse(self, q):
        q = re.sub(r"\b(const|volatile|restrict|__restrict)\b", " ", q)
        q = re.sub(r"\s+", " ", q).strip()
        q = q.replace("( *)", "(*)")
        if "(*" in q or re.search(r"\)\s*$", q) and "(unnamed" not in q and "(anonymous" not in q:
            # function type, pointer to function (arrays of those unused)
            if "(*)" in q or "(*" in q:
                depth = q.count("*)")
                return T("ptr", to=FUNC)
            return FUNC
        m = re.match(r"^(.*?)((?:\[[^\]]*\])+)$", q)
        if m:
            base = self.parse(m.group(1))
            dims = re.findall(r"\[([^\]]*)\]", m.group(2))
            for d in reversed(dims):
                base = T("arr", to=base, n=int(d) if d.isdigit() else None)
            return base
        if q.endswith("*"):
            return T("ptr", to=self.parse(q[:-1]))
        if q in BASE:
            return BASE[q]
        if q.startswith("enum ") or q in ():
            return U32
        if q.startswith("struct ") or q.startswith("union "):
            return T("struct", name=q)
        if q in self.typedefs:
            td = self.typedefs[q]
            inner = td["type"].get("desugaredQualType") or td["type"]["qualType"]
            if inner == q:
                # anonymous struct or enum typedef
                return self._owned(td, q)
            r = self.parse(inner)
            return r
        if q.startswith("(unnamed") or "(unnamed" in q or "(anonymous" in q:
            return T("struct", name=q)
        if "va_list" in q:
            return T("struct", name="__va_list_tag")
        raise Limit("type " + q)

    def _owned(self, td, q):
        def find(n):
            if n.get("kind") == "EnumType":
                return U32
            if n.get("kind") == "RecordType":
                return T("struct", name="id:" + n["decl"]["id"])
            for x in n.get("inner", []):
                r = find(x)
                if r:
                    return r
            return None
        r = find(td)
        if r is None:
            raise Limit("type " + q)
        return r

    def fields(self, t):
        name = t.name
        if name not in self.records:
            n = None
            if name.startswith("id:"):
                n = self.recid.get(name[3:])
            elif name in self.recid:
                n = self.recid[name]
            elif "(unnamed" in name or "(anonymous" in name:
                m = re.search(r":(\d+):(\d+)\)", name)
                for r in self.anon:
                    loc = r.get("loc", {})
                    if "expansionLoc" in loc:
                        loc = loc["expansionLoc"]
                    if loc.get("col") == int(m.group(2)) and (loc.get("line") in (None, int(m.group(1)))):
                        n = r
            else:
                td = self.typedefs.get(name.replace("struct ", ""))
                if td is not None:
                    t2 = self._owned(td, name)
                    return self.fields(t2)
            if n is None:
                for u in getattr(self, "linked", ()):
                    if u is not self and u.recid.get(name) is not None:
                        return u.fields(t)
                raise Limit("struct " + name)
            self.records[name] = [(f["name"], self.ty(f)) for f in n.get("inner", [])
                                  if f.get("kind") == "FieldDecl"]
        return self.records[name]

    def field_type(self, t, f):
        for n, ft in self.fields(t):
            if n == f:
                return ft
        raise Limit("field " + f)

    def align(self, t):
        if t.k in ("int", "bool", "float"):
            return t.w // 8
        if t.k in ("ptr", "func"):
            return 8
        if t.k == "arr":
            return self.align(t.to)
        if t.k == "struct":
            return max([self.align(ft) for _, ft in self.fields(t)] or [1])
        if t.k == "void":
            return 1
        raise Limit("align")

    def sizeof(self, t):
        if t.k in ("int", "bool", "float"):
            return t.w // 8
        if t.k == "ptr":
            return 8
        if t.k == "arr":
            if t.n is None:
                raise Limit("sizeof VLA")
            return t.n * self.sizeof(t.to)
        if t.k == "struct":
            o = 0
            for _, ft in self.fields(t):
                a = self.align(ft)
                o = (o + a - 1) // a * a + self.sizeof(ft)
            a = self.align(t)
            return (o + a - 1) // a * a
        if t.k in ("void", "func"):
            return 1
        raise Limit("sizeof")


def const_value(n):
    if "value" in n and n.get("kind") in ("ConstantExpr", "IntegerLiteral", "CharacterLiteral"):
        try:
            return int(n["value"])
        except ValueError:
            return None
    for x in n.get("inner", []):
        v = const_value(x)
        if v is not None:
            return v
    return None


def inner(n):
    return n.get("inner", [])


def line_of(n):
    b = n.get("range", {}).get("begin", {})
    if "expansionLoc" in b:
        b = b["expansionLoc"]
    return b.get("line")


def annotate_lines(func):
    """clang omits repeated line numbers; fill them in."""
    cur = [0]

    def go(n):
        if not isinstance(n, dict):
            return
        for key in ("loc",):
            l = n.get(key, {})
            if "expansionLoc" in l:
                l = l["expansionLoc"]
            if "line" in l:
                cur[0] = l["line"]
        r = n.get("range", {})
        b = r.get("begin", {})
        if "expansionLoc" in b:
            b = b["expansionLoc"]
        if "line" in b:
            cur[0] = b["line"]
        n["_line"] = cur[0]
        e = r.get("end", {})
        if "expansionLoc" in e:
            e = e["expansionLoc"]
        if "line" in e:
            cur[0] = e["line"]
        for x in n.get("inner", []):
            go(x)
    go(func)


def src(name):
    import os
    from common import REPO
    return os.path.join(REPO, "src", name)
