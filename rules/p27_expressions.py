"""Expressions over fielded buffers are compiled, evaluated and printed consistently and safely."""
import re
from sa.lib import *
from sa.linear import Induction, const, lin, lsub

EXPLAIN = ("The compiler, the evaluator and the printer of expressions.  What the compiler writes for each kind of token is compared "
           "with what the evaluator and the printer read for the same operation code; the value computed for each operator and each "
           "pair of operand kinds is compared with the operator's meaning; divisors, converted values, the room of the compiled form "
           "and the grouping of operators are followed on every path.")

C0, C1 = ("c", 0), ("c", 1)
ARITH = {"*": "*", "/": "/", "+": "+", "-": "-", "%": "%", "^": "^"}
TRUTH = ("<", ">", "<=", ">=", "==", "!=", "&&", "||")
LEVELS = [["*", "/", "%"], ["+", "-"], ["<", ">", "<=", ">=", "==", "!="], ["%%", "!%"], ["^"], ["&&"], ["||"]]
FUNCTORS = {"multiplies": "*", "divides": "/", "plus": "+", "minus": "-", "modulus": "%", "less": "<", "greater": ">", "less_equal": "<=",
            "greater_equal": ">=", "equal_to": "==", "not_equal_to": "!=", "logical_and": "&&", "logical_or": "||", "bit_xor": "^",
            "negate": "neg", "logical_not": "!"}
TYPES = {0: "l", 1: "l", 3: "d", 4: "d", 2: "s", 5: "s", 6: "s"}     # FLD_SHORT ... FLD_CARRAY -> kind of the value
LONGMIN = ("c", -(1 << 63))


def texts(i):
    """The strings of an initialised array."""
    while i is not None and not isinstance(i.get("a"), list):
        i = i.get("e")
    res = []
    for x in (i or {}).get("a", []):
        while x is not None and x["k"] != "str":
            x = x.get("e")
        res.append(x["v"] if x is not None else None)
    return res


def textof(prog, n):
    """A string literal or an element of a constant table of them."""
    for x in walk(n):
        if x["k"] == "str":
            return x["v"]
        if x["k"] == "idx":
            b = [y for y in walk(x["e"]) if y["k"] == "ref"]
            i = x["i"].get("cv")
            g = prog.globals.get(b[0].get("d")) if b else None
            if g and isinstance(i, int):
                t = texts(g.get("init"))
                return t[i] if 0 <= i < len(t) else None
    return None


def operators(prog, fns):
    """Table of operators: text -> (binding strength, operation code, line)."""
    res = {}
    for f in fns:
        for n in walk(f["b"]):
            if n["k"] in ("ctor", "ilist") and "pair" in ((n.get("t") or {}).get("s") or "") and not (n.get("t") or {}).get("k") == "arr":
                a = n.get("args") or n.get("a") or []
                if len(a) == 2:
                    t = textof(prog, a[0])
                    il = [x for x in walk(a[1]) if x["k"] == "ilist" and len(x["a"]) == 2]
                    if t is not None and il and all(isinstance(x.get("cv"), int) for x in il[0]["a"]):
                        r = prog.records.get((il[0].get("t") or {}).get("r") or il[0].get("rec")) or {}
                        fs = [x["t"].get("z") for x in r.get("fields", [])]
                        v = [x["cv"] for x in il[0]["a"]]
                        if fs == [1, 4]:
                            v.reverse()
                        res[t] = (v[0], v[1], n.get("l"), f)
    return res


class Text:
    """std::string and the C library's text functions."""

    def text(self, eng, st, v):
        """What text a pointer leads to."""
        if v[0] == "addr":
            loc = v[1]
            if loc[0] == "idx" and loc[2] == C0:
                loc = loc[1]
            t = st.env.get(("fld", loc, "$text"))
            if t is not None:
                return t
        return v

    def strings(self, eng, st, call):
        n = call.name.split("<")[0]
        m = call.name.split("::")[-1]
        if n.startswith(("std::basic_string", "std::__cxx11::basic_string")) and "view" not in n and call.obj is not None:
            if m == "basic_string" or m == "operator=" or m == "assign":
                v = ("s", "")
                if call.args:
                    v = call.args[0]
                    if v[0] == "addr" and (call.argn[0].get("t") or {}).get("k") != "ptr":
                        v = eng.lookup(st, v[1])
                    else:
                        v = self.text(eng, st, v)
                eng.assign(st, call.obj, v, call.node)
                return [("ret", st, addr(call.obj))]
            if m in ("c_str", "data"):
                v = eng.lookup(st, call.obj)
                return [("ret", st, v)]
        if n in ("strtod", "atof", "std::stod", "std::strtod", "std::atof"):
            return [("ret", st, ("num", "d", self.text(eng, st, self.deref1(eng, st, call))))]
        if n in ("strtol", "atol", "atoll", "strtoll", "std::stol", "std::stoll", "std::strtol", "std::atol", "std::strtoll"):
            return [("ret", st, ("num", "l", self.text(eng, st, self.deref1(eng, st, call))))]
        if n in ("sprintf", "snprintf"):
            a = call.args
            i = 2 if n == "sprintf" else 3
            if len(a) > i and a[0][0] == "addr":
                loc = a[0][1]
                if loc[0] == "idx" and loc[2] == C0:
                    loc = loc[1]
                st.env[("fld", loc, "$text")] = ("txt", a[i])
                eng.logmod(("fld", loc, "$text"))
            elif len(a) > i:
                st.env[("fld", ("deref", a[0]), "$text")] = ("txt", a[i])
            return [("ret", st, eng.fresh(st, "printed", call.line))]
        if n == "std::to_string" and len(call.args) == 1:
            return [("ret", st, ("txt", call.args[0]))]
        if n in ("strcpy", "std::strcpy") and len(call.args) == 2 and call.args[0][0] in ("addr", "sym", "op"):
            loc = call.args[0][1] if call.args[0][0] == "addr" else ("deref", call.args[0])
            if loc[0] == "idx" and loc[2] == C0:
                loc = loc[1]
            st.env[("fld", loc, "$text")] = self.text(eng, st, call.args[1])
            eng.logmod(("fld", loc, "$text"))
            return [("ret", st, call.args[0])]
        if n == "strcmp" and len(call.args) == 2:
            return [("ret", st, ("cmp", self.text(eng, st, call.args[0]), self.text(eng, st, call.args[1])))]
        if m == "compare" and n.startswith(("std::basic_string", "std::__cxx11::basic_string")) and len(call.args) == 1:
            return [("ret", st, ("cmp", eng.lookup(st, call.obj), self.text(eng, st, self.deref1(eng, st, call))))]
        return None

    def deref1(self, eng, st, call):
        v = call.args[0]
        if v[0] == "addr" and (call.argn[0].get("t") or {}).get("k") != "ptr":
            return eng.lookup(st, v[1])
        return v


class Tree(Text, Induction, FuxRule):
    """One visit of a compiled expression that begins with a given operation code.
    ts = (what was read: (kind, offset, bytes), sub-expressions, comparisons with patterns)"""
    bytes = True
    narrow = True
    limit = 256
    unroll = 3
    depth = 8

    def __init__(self, rep, model, fn, start, op, kinds, nextop=None, ftype=None):
        super().__init__(rep)
        self.m = model
        self.fn = fn
        self.start = start
        self.op = op
        self.kinds = kinds
        self.nextop = nextop
        self.ftype = ftype
        self.roles = model.roles

    def opaque(self, fn):
        return fn["file"] != self.m.file and not fn["n"].split("<")[0].endswith("exception_boundary")

    def may_throw(self, call):
        return None

    # ---- the compiled form
    def off(self, v):
        f = lin(v)
        if f.get(self.start) != 1:
            return None
        f = dict(f)
        del f[self.start]
        return f

    def load(self, eng, st, loc, node):
        if loc[0] in ("deref", "idx"):
            o = self.off(loc[1] if loc[0] == "deref" else addr(loc))
            if o is None:
                return
            c = const(o)
            z = ((node or {}).get("t") or {}).get("z", 1)
            if c == 0 and z == 1 and self.op is not None:
                st.env[loc] = ("c", self.op)
            elif c == 1 and z == 1 and self.nextop is not None:
                st.env[loc] = ("c", self.nextop)
            elif c == 1 and z == 1 and self.op is not None:
                st.env[loc] = ("sym", "nextop")
            else:
                self.read(st, o, z)
                if c is not None:
                    st.env[loc] = ("sym", "pay:%d:%d" % (c, z))

    def read(self, st, o, z):
        c = const(o)
        if c is None or self.op is None:
            return
        st.ts = (st.ts[0] | {("data", c, z)},) + st.ts[1:]

    def copy(self, eng, st, src, n, dst, call):
        o = self.off(src)
        if o is None:
            return False
        if n[0] != "c" or const(o) is None or dst[0] != "addr":
            return False
        self.read(st, o, n[1])
        loc = dst[1]
        if loc[0] == "idx" and loc[2] == C0:
            loc = loc[1]
        z = self.sizeof(call)
        v = ("sym", "pay:%d:%d" % (const(o), n[1]))
        eng.assign(st, loc, v, call.node)
        self.rep.instance("read", "%s op %s at %d" % (self.fn["n"], self.op, const(o)))
        return True

    def sizeof(self, call):
        return None

    def call(self, eng, st, call):
        n = call.name.split("<")[0]
        if call.fn is self.fn and eng.stack:
            return self.sub(eng, st, call)
        if n in ("std::copy_n", "memcpy", "std::memcpy", "memmove", "std::memmove") and len(call.args) == 3:
            s, k, d = call.args if n == "std::copy_n" else (call.args[1], call.args[2], call.args[0])
            if self.copy(eng, st, s, k, d, call):
                return [("ret", st, call.args[0])]
        if n in ("strlen", "std::strlen") and len(call.args) == 1:
            o = self.off(call.args[0])
            if o is not None and const(o) is not None:
                st.ts = (st.ts[0] | {("text", const(o), 0)},) + st.ts[1:]
                return [("ret", st, ("sym", "textlen:%d" % const(o)))]
        if n == "Fldtype32" and self.ftype is not None:
            return [("ret", st, ("c", self.ftype))]
        if n == "CFfind32" and len(call.args) == 5:
            return [("ret", st, ("find",) + tuple(call.args[:3]) + (call.args[4],))]
        if n == "Ffind32" and len(call.args) == 4:
            return [("ret", st, ("find",) + tuple(call.args[:3]) + (("c", self.ftype),))]
        if n == "Foccur32" and len(call.args) == 2:
            return [("ret", st, ("occurs", call.args[0], call.args[1]))]
        if n == "regcomp" and len(call.args) >= 2:
            s2 = st.copy()
            st.ts = st.ts[:2] + (st.ts[2] | {("open",), ("pattern", self.text(eng, st, call.args[1]))},)
            return [("ret", st, C0), ("ret", s2, ("c", 1))]
        if n == "regexec" and len(call.args) >= 2:
            st.ts = st.ts[:2] + (st.ts[2] | {("subject", self.text(eng, st, call.args[1]))},)
            r = ("sym", "regexec@%s" % call.line)
            if len(call.args) > 3 and call.args[3][0] == "addr":
                eng.havoc(st, call.args[3][1], call.line)
            return [("ret", st, r)]
        if n == "regfree":
            st.ts = st.ts[:2] + (st.ts[2] - {("open",)},)
            return [("ret", st, C0)]
        m = re.match(r"std::(\w+)<([\w ]*)>::operator\(\)$", call.name)
        if m and m.group(1) in FUNCTORS:
            a = [eng.lookup(st, x[1]) if x[0] == "addr" else x for x in call.args]
            o = FUNCTORS[m.group(1)]
            return [("ret", st, ("op", o, a[0], a[1]) if len(a) == 2 else ("op", o, C0, a[0]))]
        if n in ("fprintf", "std::fprintf") and len(call.args) >= 2:
            st.ts = st.ts[:2] + (st.ts[2] | {("print", len(st.ts[1])) + tuple(call.args[1:])},)
            return [("ret", st, eng.fresh(st, "printed", call.line))]
        if n in ("fputs", "std::fputs") and call.args:
            st.ts = st.ts[:2] + (st.ts[2] | {("print", len(st.ts[1]), ("s", "%s"), call.args[0])},)
            return [("ret", st, eng.fresh(st, "printed", call.line))]
        r = self.strings(eng, st, call)
        if r is not None:
            return r
        return super().call(eng, st, call)

    def iter_begin(self, eng, st, loop):
        st.ts = st.ts[:2] + (frozenset(),)

    def sub(self, eng, st, call):
        """A sub-expression is visited."""
        k = len(st.ts[1])
        at = [a for a, p in zip(call.args, self.fn["p"]) if ischars(p["t"])]
        st.ts = (st.ts[0], st.ts[1] + (at[0] if at else None,), st.ts[2])
        end = ("sym", "end@%d" % k)
        if not self.roles:
            return [("ret", st, end)]
        kind = self.kinds[k] if k < len(self.kinds) else "l"
        loc = ("var", "sub#%d" % k)
        self.operand(st, loc, kind, k, end)
        return [("ret", st, ("recv", loc))]

    def operand(self, st, loc, kind, k, end):
        ro = self.roles
        for r, f in ro["fields"].items():
            v = ("sym", "unset:%s@%d" % (r, k))
            if r == "pos":
                v = end
            elif r == "tag":
                v = self.m.tags.get(kind, v)
            elif r == "lit":
                v = ("c", int(kind == "S"))
            elif r == {"l": "l", "d": "d"}.get(kind, "s"):
                v = val(kind, k)
            st.env[("fld", loc, f)] = v


def val(kind, k):
    return ("sym", "%s@%d" % (kind, k))


def ischars(t):
    return t["k"] == "ptr" and (t.get("p") or {}).get("k") == "int" and t["p"].get("z") == 1 and not t["p"].get("c")


def isstring(t):
    return t["k"] == "ptr" and (t.get("p") or {}).get("k") == "int" and t["p"].get("z") == 1 or "basic_string" in t["s"]


def roles(prog, rec):
    """What the fields of a value are for, by their types."""
    r = prog.records.get(rec)
    if not r:
        return None
    res = {}
    for f in r["fields"]:
        t = f["t"]
        role = None
        if ischars(t):
            role = "pos"
        elif isstring(t):
            role = "s"
        elif t["k"] == "bool" or t["s"] == "bool":
            role = "lit"
        elif t["s"] == "long" or t["s"] == "int64_t":
            role = "l"
        elif t["s"] == "double":
            role = "d"
        elif t["k"] in ("enum", "int"):
            role = "tag"
        if role is None or role in res:
            return None
        res[role] = f["n"]
    if not {"pos", "s", "l", "d", "tag"} <= set(res):
        return None
    return {"rec": rec, "fields": res}


def integer(kind, k):
    v = val(kind, k)
    return v if kind == "l" else ("cast", "f2i", v) if kind == "d" else ("num", "l", v)


def floating(kind, k):
    v = val(kind, k)
    return ("num", "d", v) if kind in "sS" else v


def txt(kind, k):
    v = val(kind, k)
    return ("txt", v) if kind in "ld" else v


class Unknown(Exception):
    pass


def worth(t, env):
    """The value of a term when its leaves are worth what env says."""
    if t in env:
        return env[t]
    if t[0] == "c":
        return t[1]
    if t[0] == "f":
        return float(t[1])
    if t[0] == "conv":
        return worth(t[3], env)
    if t[0] == "!":
        return int(not worth(t[1], env))
    if t[0] in ("==", "<"):
        a, b = worth(t[1], env), worth(t[2], env)
        return int(a == b if t[0] == "==" else a < b)
    if t[0] == "cast" and t[1] == "f2i":
        return int(worth(t[2], env))
    if t[0] == "op":
        o = t[1]
        a, b = worth(t[2], env), worth(t[3], env)
        try:
            if o in ("/", "%"):
                if not b:
                    raise Unknown(o)
                if isinstance(a, float) or isinstance(b, float) or env.get("float"):
                    return a / b
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if o == "/" else a - q * b
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: int(a < b), ">": lambda: int(a > b),
                    "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b),
                    "&&": lambda: int(bool(a) and bool(b)), "||": lambda: int(bool(a) or bool(b)), "!": lambda: int(not b),
                    "neg": lambda: -b, "~": lambda: ~int(a), "&": lambda: int(a) & int(b), "|": lambda: int(a) | int(b), "^": lambda: int(a) ^ int(b)}[o]()
        except (KeyError, TypeError):
            raise Unknown(o)
    raise Unknown(t)


def possible(st, env):
    """Can the path be taken with these values?"""
    for f, r in st.facts.items():
        try:
            if bool(worth(f, env)) != bool(r):
                return False
        except Unknown:
            pass
    return True


class Model:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.cg = callgraph(prog)
        self.roles = None
        self.tags = {}
        self.header = None

    def fn(self, n):
        for f in self.prog.functions.values():
            if f["n"] == n and f.get("b"):
                return f
        return None

    def reach(self, f):
        seen, work = [], [f["u"]]
        while work:
            u = work.pop()
            if u in seen:
                continue
            seen.append(u)
            work += [v for v in self.cg.get(u, ()) if v in self.prog.functions]
        return [self.prog.functions[u] for u in seen if self.prog.functions[u].get("b")]

    def recursive(self, f):
        """Functions of a cycle that are called from outside of it."""
        fs = [g for g in self.reach(f) if g["file"] == f["file"]]
        r = {g["u"]: {h["u"] for v in self.cg.get(g["u"], ()) if v in self.prog.functions for h in self.reach(self.prog.functions[v])}
             for g in fs}
        cyc = {u for u in r if u in r[u]}
        return [g for g in fs if g["u"] in cyc and any(g["u"] in self.cg.get(h["u"], ()) and h["u"] not in cyc for h in fs)], cyc

    def isbinop(self, rec):
        r = self.prog.records.get(rec) if rec else None
        return bool(r) and sorted(f["t"].get("z", 0) for f in r["fields"]) == [1, 4] and all(f["t"]["k"] in ("int", "enum") for f in r["fields"])

    def bad(self, fn, rule, msg, st=None, line=None, key=None):
        self.rep.violation(fn["file"], line or fn["l"], fn["n"], rule, msg, "%s|%s|%s" % (rule, fn["n"], key or msg),
                           st.trace() if st is not None else [])


class Skip(Exception):
    pass


class Evaluation:
    """What is computed for each operation code, compared with what the compiler writes and what the operator means."""

    def __init__(self, m, root):
        self.m, self.root = m, root
        ps = [p for p in root["p"] if ischars(p["t"])]
        self.start = ("sym", "p:" + ps[0]["n"])
        self.tags = m.tags

    def run(self, op, kinds, nextop=None, ftype=None):
        rule = Tree(self.m.rep, self.m, self.root, self.start, op, kinds, nextop, ftype)
        eng, outs, _ = run_root(self.m.prog, rule, self.root, State(ts=(frozenset(), (), frozenset())), rep=self.m.rep)
        res = []
        self.eng = eng
        for k, st, v in outs:
            if k == "ret":
                if not v or v[0] != "recv":
                    raise Skip("value")
                d = {l[2]: x for l, x in st.env.items() if l[0] == "fld" and l[1] == v[1]}
                v = {r: d.get(f) for r, f in self.m.roles["fields"].items()}
            res.append((k, st, v))
        return res

    def kind(self, v):
        for k in "lds":
            if v["tag"] is not None and v["tag"] == self.tags.get(k):
                return k
        return None

    def value(self, v):
        k = self.kind(v)
        return (k, v.get(k)) if k else (None, None)

    def line(self, st):
        return st.trace()

    def bad(self, rule, msg, st, key):
        self.m.bad(self.root, rule, msg, st, None, key)

    # ---- constants, texts and fields
    def tagsof(self, layout):
        """The tag of each kind of value, from the constants of the three kinds."""
        for op, (what, pay) in layout.items():
            if what in ("long", "double", "string"):
                outs = [v for k, st, v in self.run(op, "") if k == "ret"]
                t = {v["tag"] for v in outs}
                if len(t) != 1 or None in t:
                    raise Skip("tag")
                self.tags[what[0]] = t.pop()
        self.tags["S"] = self.tags.get("s")
        if len({self.tags.get(k) for k in "lds"}) != 3 or None in self.tags.values():
            raise Skip("tags")

    def leaves(self, layout, fields):
        rep = self.m.rep
        for op, (what, pay) in sorted(layout.items()):
            if what in ("any", "unary"):
                continue
            for ft in (sorted(TYPES) if what == "field" else (None,)):
                rep.instance("leaf", "%s %s" % (what, "" if ft is None else ft))
                outs = self.run(op, "", ftype=ft)
                rets = [(st, v) for k, st, v in outs if k == "ret"]
                if not rets:
                    self.bad("layout", "%s is compiled but not evaluated" % what, outs[0][1] if outs else None, "none:%s" % what)
                for st, v in rets:
                    self.layout(what, pay, st, v["pos"], self.root, self.start)
                    k, x = self.value(v)
                    if any(isinstance(y, tuple) and y[:1] == ("sym",) and str(y[1]).startswith("unset:") for y in subterms(x or C0)):
                        self.bad("value", "a part of a value is used that was never set", st, "unset:%s" % what)
                    if what == "long" and x != ("sym", "pay:1:8") or what == "double" and x != ("sym", "pay:1:8"):
                        self.bad("value", "the value of a %s constant is not the one that was compiled" % what, st, "const:%s" % what)
                    if what == "string" and (lin(x) if x else None) != lin(mk_add(self.start, C1)):
                        self.bad("value", "the value of a text constant is not the one that was compiled", st, "const:%s" % what)
                    if what == "string" and v.get("lit") in (C0,):
                        self.bad("value", "a text constant is not marked as such", st, "lit")
                    if what == "field":
                        self.field(st, v, k, x, ft, ("sym", "pay:1:4"), ("sym", "pay:5:4"))

    def field(self, st, v, k, x, ft, fid, oc):
        want = TYPES[ft]
        if want == "s" and v.get("lit") not in (C0, None):
            self.bad("value", "the text of a field counts as a constant", st, "lit")
        if k != want:
            self.bad("value", "a field of type %d is evaluated as the wrong kind of value" % ft, st, "kind:%d" % ft)
            return
        finds = [f for f in subterms(x) if f[:1] == ("find",)]
        nul = any(f[:1] == ("==",) and f[1][:1] == ("find",) and f[2] == C0 and r for f, r in st.facts.items())
        if not finds:
            if not nul:
                self.bad("value", "the value of a field does not come from the buffer", st, "source:%d" % ft)
            elif x not in (C0, ("s", ""), ("f", 0), ("f", 0.0)):
                self.bad("value", "a missing field does not count as zero or as empty text", st, "missing:%d" % ft)
            return
        for f in finds:
            if nul:
                self.bad("value", "a missing field is read", st, "missing:%d" % ft)
            elif f[2] != fid or oc is not None and f[3] != oc:
                self.bad("value", "another field or occurrence is looked up than the one compiled", st, "which:%d" % ft)
            elif f[4][0] == "c" and TYPES.get(f[4][1]) != want or f[4][0] == "c" and f[4][1] in (0, 3, 2, 6) and f[4][1] != ft:
                self.bad("value", "a field of type %d is converted to another type than it is evaluated as" % ft, st, "conv:%d" % ft)
            elif want == "s" and self.pointer and f[4] != ("c", ft):
                self.bad("borrowed", "the text of a converted field is not kept: converting another field replaces it", st, "borrowed")

    @property
    def pointer(self):
        r = self.m.prog.records[self.m.roles["rec"]]
        return any(f["n"] == self.m.roles["fields"]["s"] and f["t"]["k"] == "ptr" for f in r["fields"])

    def layout(self, what, pay, st, pos, fn, start):
        """What is read is what was written, and the next part begins where it ends."""
        off = 1
        want = set()
        end = lin(start)
        for z, kind in pay:
            if z == "text":
                want.add(("text", off, 0))
                end = lsub(end, lin(("sym", "textlen:%d" % off)), -1)
                off += 1
            else:
                want.add(("data", off, z))
                off += z
        end = lsub(end, {None: -off}, 1)
        got = {x for x in st.ts[0] if x[0] in ("data", "text")}
        if any(x[0] == "data" and x not in want for x in got) and not any(x[0] == "text" for x in want):
            self.m.bad(fn, "layout", "%s: other bytes are read than the compiler wrote" % what, st, None, "bytes:%s" % what)
        elif pos is not None and lin(pos) != end:
            self.m.bad(fn, "layout", "%s: what follows does not begin where the compiler put it" % what, st, None, "end:%s" % what)

    # ---- operators
    def env(self, kinds, a, b):
        e = {}
        for k, (kind, x) in enumerate(zip(kinds, (a, b))):
            v = val(kind, k)
            if kind == "l":
                e[v] = int(x)
            elif kind == "d":
                e[v] = float(x)
            else:
                e[("num", "l", v)] = int(x)
                e[("num", "d", v)] = float(x)
        return e

    def compare(self, what, key, outs, env, want, kind=None):
        """Every path possible with these operands gives the wanted value."""
        n = 0
        for k, st, v in outs:
            known = True
            try:
                ok = all(bool(worth(f, env)) == bool(r) for f, r in st.facts.items())
            except Unknown:
                known, ok = False, possible(st, env)
            if not ok:
                continue
            if k == "throw":
                if known and (st.facts or len(outs) == 1):
                    self.bad("value", "%s fails with ordinary operands" % what, st, "throw:" + key.split(":")[0])
                continue
            if k != "ret":
                continue
            n += 1
            kd, x = self.value(v)
            if kd is None or x is None:
                continue
            if any(y[:1] == ("sym",) and str(y[1]).startswith("unset:") for y in subterms(x)):
                self.bad("value", "%s uses a part of a value that was never set" % what, st, "unset:" + key.split(":")[0])
                continue
            e = dict(env)
            if kd == "d":
                e["float"] = 1
            try:
                got = worth(x, e)
            except Unknown as u:
                t = u.args[0]
                if isinstance(t, tuple) and (t[0] in ("cmp", "num", "txt") or t[0] == "sym" and re.match(r"[ldsS]@\d$", str(t[1]))):
                    self.bad("value", "%s takes its operands as the wrong kind of value" % what, st, "kinds:" + key.split(":")[0])
                continue
            if kind is not None and kd != kind:
                self.bad("value", "%s gives a value of the wrong kind" % what, st, "kind:" + key.split(":")[0])
            elif got != want:
                self.bad("value", "%s does not compute what the operator means" % what, st, "value:" + key.split(":")[0])
        return n

    SAMPLES = ((7, 2), (-7, 2), (2, 7), (3, 3), (0, 5), (5, 0), (0, 0), (7.5, 2.25), (2.25, 7.5), (0.5, 0.25), (-1, 4), (0.5, 0), (0, 0.5))

    @staticmethod
    def op(o, a, b):
        if o in ("/", "%"):
            if isinstance(a, float):
                return a / b
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if o == "/" else a - q * b
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "^": lambda: int(a) ^ int(b), "<": lambda: int(a < b),
                ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "==": lambda: int(a == b),
                "!=": lambda: int(a != b), "&&": lambda: int(bool(a) and bool(b)), "||": lambda: int(bool(a) or bool(b))}[o]()

    def divides(self, v):
        kd, x = self.value(v)
        return x is not None and any(y[:2] in (("op", "/"), ("op", "%")) for y in subterms(x))

    def binary(self, text, op, plain):
        rep = self.m.rep
        for kinds in [a + b for a in "ldsS" for b in "ldsS"]:
            if text in ("%%", "!%"):
                if kinds[1] == "S":
                    self.match(text, op, kinds, plain)
                continue
            key = "%s:%s" % (text, kinds)
            what = "'%s' of %s" % (text, " and ".join({"l": "an integer", "d": "a fraction", "s": "a text field", "S": "a text constant"}[k] for k in kinds))
            rep.instance("operator", key)
            outs = self.run(op, kinds, nextop=plain)
            for k, st, v in outs:
                if k == "ret":
                    self.parts(text, st, v)
            lexical = text in TRUTH[:6] and ("S" in kinds or set(kinds) <= {"s", "S"})
            if lexical:
                t = (txt(kinds[0], 0), txt(kinds[1], 1))
                for sg in (-1, 0, 1):
                    self.compare(what, key, outs, {("cmp",) + t: sg, ("cmp", t[1], t[0]): -sg}, self.op(text, sg, 0))
                continue
            for a, b in self.SAMPLES:
                env = self.env(kinds, a, b)
                fl = "d" in kinds and text not in ("%", "^")
                x, y = (float(a), float(b)) if fl else (int(a), int(b))
                if fl:
                    x, y = (float(env[val(kd, n)]) if kd in "ld" else float(w) for n, (kd, w) in enumerate(zip(kinds, (a, b))))
                if text in ("/", "%") and not y:
                    if fl:
                        continue
                    for k, st, v in outs:
                        if k == "ret" and self.divides(v) and possible(st, env):
                            self.bad("divisor", "%s: the divisor may be zero" % what, st, "zero:" + text)
                    continue
                self.compare(what, key, outs, env, self.op(text, x, y), "d" if fl and text in ARITH else None)
            if text in ("/", "%") and not ("d" in kinds and text == "/"):
                env = self.env(kinds, -(1 << 63), -1)
                for k, st, v in outs:
                    if k == "ret" and self.divides(v) and possible(st, env):
                        self.bad("divisor", "%s: the least integer may be divided by -1" % what, st, "overflow:" + text)

    def parts(self, text, st, v):
        s = st.ts[1]
        if len(s) != 2 or None in s or lin(s[0]) != lin(mk_add(self.start, C1)) or s[1] != ("sym", "end@0"):
            self.bad("layout", "'%s': the operands are not taken from where they were compiled, one after the other" % text, st, "parts:%s" % text)
        elif v["pos"] != ("sym", "end@1"):
            self.bad("layout", "'%s': what follows does not begin where the second operand ends" % text, st, "end:%s" % text)

    def match(self, text, op, kinds, plain):
        what = "'%s'" % text
        self.m.rep.instance("operator", "%s:%s" % (text, kinds))
        outs = self.run(op, kinds, nextop=plain)
        some = False
        for k, st, v in outs:
            if k != "ret":
                continue
            self.parts(text, st, v)
            some |= self.matched(text, st, v, txt(kinds[0], 0), txt(kinds[1], 1))
        return some

    def matched(self, text, st, v, subject, pattern):
        ev = st.ts[2]
        kd, x = self.value(v)
        if ("open",) in ev:
            self.bad("value", "'%s': the compiled pattern is not freed" % text, st, "regfree:" + text)
        pats = {e[1] for e in ev if e[0] == "pattern"}
        subs = {e[1] for e in ev if e[0] == "subject"}
        for t in pats | subs:
            if any(isinstance(y, tuple) and y[:1] == ("sym",) and str(y[1]).startswith("unset:") for y in subterms(t)):
                self.bad("value", "'%s' uses a part of a value that was never set" % text, st, "unset:" + text)
                return True
        if not pats or not subs:
            return False
        if pats != {pattern} or subs != {subject}:
            self.bad("value", "'%s' does not compare the text of the left operand with the pattern on the right" % text, st, "pattern:" + text)
            return True
        lv = {y for f in list(st.facts) + [x or C0] for y in subterms(f) if y[:1] == ("sym",) and str(y[1]).startswith("regexec@")}
        so = {y for f in list(st.facts) + [x or C0] for y in subterms(f) if y[:1] == ("ld",) and y[1][0] == "fld" and y[1][2] == "rm_so"}
        for r in (0, 1):
            for o in (0, 3):
                env = dict([(y, r) for y in lv] + [(y, o) for y in so])
                if r and so and o == 0:
                    continue
                yes = int(r == 0 and o == 0)
                self.compare("'%s'" % text, text, [("ret", st, v)], env, yes if text == "%%" else 1 - yes)
        return True

    def unary(self, text, op):
        for kind in "ldsS":
            key = "%s:%s" % (text, kind)
            what = "'%s' of %s" % (text, {"l": "an integer", "d": "a fraction", "s": "a text field", "S": "a text constant"}[kind])
            self.m.rep.instance("operator", key)
            outs = self.run(op, kind)
            for k, st, v in outs:
                if k == "ret":
                    s = st.ts[1]
                    if len(s) != 1 or s[0] is None or lin(s[0]) != lin(mk_add(self.start, C1)) or v["pos"] != ("sym", "end@0"):
                        self.bad("layout", "'%s': the operand is not taken from where it was compiled" % text, st, "parts:%s" % text)
            for a in (0, 3, -4) + ((0.5, -2.5) if kind == "d" else ()):
                want = -a if text == "-" else int(not a) if text == "!" else ~int(a)
                self.compare(what, key, outs, self.env(kind, a, 0), want, {"-": "d"}.get(text) if kind == "d" else None)

    # ---- any occurrence
    def any(self, ops, anyop, plain):
        fid = ("sym", "pay:2:4")
        for text, op in ops:
            for ft in (1, 4, 5):
                self.m.rep.instance("any", "%s %d" % (text, ft))
                outs = self.run(op, "S" if text in ("%%", "!%") else {1: "l", 4: "d", 5: "S"}[ft], nextop=anyop, ftype=ft)
                full = False
                for k, st, v in outs:
                    if k != "ret":
                        continue
                    if lin(v["pos"]) != lin(("sym", "end@0")) or len(st.ts[1]) != 1 or lin(st.ts[1][0]) != lin(mk_add(self.start, ("c", 6))):
                        self.bad("layout", "'%s' of any occurrence: the operands are not taken from where they were compiled" % text, st, "any:" + text)
                        continue
                    terms = list(st.facts) + [x for x in v.values() if x]
                    finds = {y for t in terms for y in subterms(t) if y[:1] == ("find",)}
                    for f in finds:
                        if f[2] != fid:
                            self.bad("value", "'%s' of any occurrence looks at another field" % text, st, "anyfield:" + text)
                        o = lin(f[3])
                        if any(a is not None and not (a[0] == "sym" and str(a[1]).startswith("turns@") and c == 1) for a, c in o.items()) or o.get(None):
                            self.bad("value", "'%s' of any occurrence does not begin with the first one and go on with the next" % text, st, "anyocc:" + text)
                    kd, x = self.value(v)
                    if x is not None and any(y[:1] == ("sym",) and str(y[1]).startswith("loop") for y in subterms(x)):
                        full = True         # carried from turn to turn
                    elif x is not None and not isc(x) and self.eng.decide(st, mk_eq(x, C0)) is not False:
                        self.bad("value", "'%s' of any occurrence is decided by one that is false" % text, st, "anyone:" + text)
                    if x == C0:
                        # false: every occurrence was looked at
                        done = any(f[0] == "<" and r is False and any(y[:1] == ("occurs",) for y in subterms(f[2])) and f[1][0] == "sym" or
                                   f[0] == "<" and r and f[1][:1] == ("occurs",) and f[2] == C1 or
                                   f[0] == "==" and r and any(y[:1] == ("occurs",) for y in subterms(f)) or
                                   f[0] == "==" and r and f[1][:1] == ("find",) and f[2] == C0
                                   for f, r in st.facts.items())
                        if not done:
                            self.bad("value", "'%s' of any occurrence is false although occurrences are left" % text, st, "anyleft:" + text)
                        full = True
                if outs and not full:
                    self.bad("value", "'%s' of any occurrence is never false" % text, outs[0][1], "anyfalse:" + text)

    # ---- the functions of the interface
    def outer(self, fn, header, truth):
        rule = None
        for kind in "ldsS":
            rule = Tree(self.m.rep, self.m, self.root, ("sym", "p:" + [p["n"] for p in fn["p"] if ischars(p["t"])][0]), None, kind)
            eng, outs, _ = run_root(self.m.prog, rule, fn, State(ts=(frozenset(), (), frozenset())), rep=self.m.rep)
            outs = [(k, st, v) for k, st, v in outs if k == "ret" and len(st.ts[1]) == 1]
            for k, st, v in outs:
                self.m.rep.instance("outer", "%s %s" % (fn["n"], kind))
                if header is not None and st.ts[1][0] is not None and lin(st.ts[1][0]) != lin(mk_add(rule.start, ("c", header))):
                    self.m.bad(fn, "layout", "the expression is not taken from where the compiler put it", st, None, "header")
                for a in (0, 3, -4) + ((0.5, -2.5) if kind == "d" else ()):
                    env = self.env(kind, a, 0)
                    env["float"] = 1
                    if not possible(st, env):
                        continue
                    try:
                        got = worth(v, env)
                    except (Unknown, TypeError):
                        continue
                    if truth and bool(got) != bool(a) or not truth and got != a:
                        self.m.bad(fn, "value", "the result is not the value of the expression", st, None, "outer:%s" % kind)


def printing(m, fn, layout, ops):
    start = ("sym", "p:" + [p["n"] for p in fn["p"] if ischars(p["t"])][0])
    saved, m.roles = m.roles, None

    def run(op):
        rule = Tree(m.rep, m, fn, start, op, "ll")
        eng, outs, _ = run_root(m.prog, rule, fn, State(ts=(frozenset(), (), frozenset())), rep=m.rep)
        return [(st, v) for k, st, v in outs if k == "ret"]
    try:
        ev = Evaluation(m, fn)
        for op, (what, pay) in sorted(layout.items()):
            if what == "unary":
                continue
            for st, v in run(op):
                m.rep.instance("print", what)
                ev.layout(what, pay, st, v, fn, start)
        for text, op, n in ops:
            for st, v in run(op):
                m.rep.instance("print", text)
                s = st.ts[1]
                if len(s) != n or s[0] is None or lin(s[0]) != lin(mk_add(start, C1)) or n == 2 and s[1] != ("sym", "end@0") or v != ("sym", "end@%d" % (n - 1)):
                    m.bad(fn, "layout", "'%s': the operands are not printed from where they were compiled" % text, st, None, "print:" + text)
                    continue
                shown = [x for e in st.ts[2] if e[0] == "print" for x in e[2:]]
                if all(x[0] == "s" or x[0] == "c" for x in shown):
                    at = [x[1].strip(" (%s)") if "%s" in x[1] else x[1].strip(" (") for e in st.ts[2] if e[0] == "print" and e[1] == n - 1 for x in e[2:] if x[0] == "s"]
                    at = [x[1] for e in st.ts[2] if e[0] == "print" and e[1] == n - 1 for x in e[2:] if x[0] == "s"]
                    if not any(text == y or y.strip().strip("(").strip() in (text, text.replace("%", "%%")) for y in at):
                        m.bad(fn, "text", "'%s' is printed as another operator" % text, st, None, "text:" + text)
    finally:
        m.roles = saved


class Writer:
    """The function that puts bytes into the compiled form: copies as many as one parameter says from another one."""

    def __init__(self, fn, data, length, where):
        self.fn, self.data, self.length, self.where = fn, data, length, where

    @staticmethod
    def of(fns):
        for f in fns:
            ps = {p["d"]: i for i, p in enumerate(f["p"])}
            for n in walk(f["b"]):
                if n["k"] == "call" and base(n.get("n") or "").split("<")[0] in ("copy_n", "std::copy_n", "memcpy", "std::memcpy", "memmove", "std::memmove"):
                    a = [strip(x) for x in n["args"]]
                    o = (0, 1) if "copy_n" in (n.get("n") or "") else (1, 2)
                    r = [ps.get(a[k].get("d")) if a[k] and a[k]["k"] == "ref" else None for k in o]
                    if None not in r and f.get("rec") and (f["p"][r[0]]["t"].get("p") or {}).get("z") == 1:
                        w = [k for k, p in enumerate(f["p"]) if k not in r and p["t"]["k"] == "int"]
                        return Writer(f, r[0], r[1], w[0] if len(w) == 1 else None)
        return None


class Compile(FuxRule):
    """ts = what was done: ("emit", where, bytes, what) | ("sub", function, arguments) | ("read", text, succeeded) ..."""
    limit = 256
    unroll = 1
    depth = 8
    narrow = True

    def __init__(self, rep, model, writer, cyc):
        super().__init__(rep)
        self.m, self.w, self.cyc = model, writer, cyc
        self.fn = None
        self.tables, self.emits, self.subs = {}, [], []

    def opaque(self, fn):
        return fn["file"] != self.m.file

    def may_throw(self, call):
        return None

    def event(self, st, e):
        st.ts = st.ts + (e,)

    def iter_begin(self, eng, st, loop):
        st.ts = (("turn", loop["l"]),)

    def operator(self, t):
        """(text, field) of an entry of the table of operators."""
        while t and t[0] == "conv":
            t = t[3]
        if t and t[0] == "sel" and t[1][0] == "ld":
            loc, f = t[1][1], t[2]
        elif t and t[0] == "ld" and t[1][0] == "fld":
            loc, f = t[1][1], t[1][2]
        else:
            return None
        x = self.tables.get(loc)
        return None if x is None else (x[0], f, x[1])

    def emitting(self, eng, st, call, what):
        o = self.operator(what)
        if o is not None:
            self.emits.append((eng, st.copy(), call.args[self.w.where] if self.w.where is not None else None, o, call.line))

    def content(self, eng, st, v):
        if v and v[0] == "addr":
            r = eng.lookup(st, v[1])
            return r
        return v

    def text(self, eng, st, call, i):
        v = call.args[i]
        return eng.lookup(st, v[1]) if v[0] == "addr" and (call.argn[i].get("t") or {}).get("k") != "ptr" else v

    def call(self, eng, st, call):
        n = call.name.split("<")[0]
        m = call.name.split("::")[-1]
        fn = call.fn
        if fn is not None and fn["u"] == self.w.fn["u"]:
            w = self.w
            d = call.args[w.data]
            z = call.args[w.length]
            what = eng.lookup(st, d[1]) if d[0] == "addr" else d
            for x in walk(call.argn[w.data]):
                if x["k"] == "cast" and x.get("ck") == "BitCast":
                    break
            self.emitting(eng, st, call, what)
            self.event(st, ("emit", call.args[w.where] if w.where is not None else None, z, what, call.line))
            return [("ret", st, C0)]
        if fn is not None and fn["u"] in self.cyc and eng.stack:
            r = ("sym", "%s@%s" % (fn["n"].split("::")[-1], len(st.ts)))
            self.event(st, ("sub", fn["u"], tuple(call.args), r))
            self.subs.append((fn["u"], tuple(call.args)))
            return [("ret", st, r)]
        if fn is not None and fn["rt"]["k"] in ("ref", "ptr") and self.m.isbinop(fn["rt"].get("r") or (fn["rt"].get("p") or {}).get("r")):
            t = self.content(eng, st, call.args[0]) if call.args else None
            loc = ("var", "operator:%s" % (t,))
            self.tables[loc] = (t, fn["rt"].get("r") or (fn["rt"].get("p") or {}).get("r"))
            self.event(st, ("which", t, loc))
            return [("ret", st, addr(loc))]
        if fn is not None and fn["rt"]["k"] == "bool" and fn.get("rec") and fn["p"] and all("basic_string" in p["t"]["s"] or k for k, p in enumerate(fn["p"])) and \
                fn["p"][-1]["t"]["k"] in ("ptr", "ref") and "basic_string" in fn["p"][-1]["t"]["s"]:
            v = call.args[-1] if call.args else C0
            s2 = st.copy()
            if v[0] == "addr":
                t = ("sym", "text@%s#%d" % (call.line, len(st.ts)))
                st.env[v[1]] = t
                eng.logmod(v[1])
                self.event(st, ("read", fn["u"], t))
            self.event(s2, ("none", fn["u"]))
            return [("ret", st, C1), ("ret", s2, C0)]
        if m == "eof" and call.obj is not None:
            return [("ret", st, ("sym", "eof#%d" % len([e for e in st.ts if e[0] == "sub"])))]
        if n in ("std::operator==", "std::operator!=") and len(call.args) == 2:
            r = ("same", self.text(eng, st, call, 0), self.text(eng, st, call, 1))
            return [("ret", st, r if n.endswith("==") else mk_not(r))]
        if n.startswith(("std::basic_string", "std::__cxx11::basic_string")) and call.obj is not None:
            if m in ("basic_string", "operator=", "assign"):
                v = self.text(eng, st, call, 0) if call.args else ("s", "")
                eng.assign(st, call.obj, v, call.node)
                return [("ret", st, addr(call.obj))]
            if m in ("size", "length"):
                return [("ret", st, ("strlen", eng.lookup(st, call.obj)))]
            if m in ("c_str", "data"):
                return [("ret", st, eng.lookup(st, call.obj))]
            if m == "clear":
                eng.assign(st, call.obj, ("s", ""), call.node)
                return [("ret", st, C0)]
            if m == "find":
                return [("ret", st, ("find", eng.lookup(st, call.obj), call.args[0]))]
        if n in ("std::stol", "std::stoll", "atol", "atoll", "strtol", "strtoll", "std::strtol"):
            return [("ret", st, ("num", "l", self.text(eng, st, call, 0)))]
        if n in ("std::stod", "atof", "strtod", "std::strtod"):
            return [("ret", st, ("num", "d", self.text(eng, st, call, 0)))]
        if n in ("std::stof", "strtof", "std::strtof"):
            return [("ret", st, ("num", "f", self.text(eng, st, call, 0)))]
        if n == "Fldid32" and call.args:
            return [("ret", st, ("field", call.args[0]))]
        return super().call(eng, st, call)


def written(m, rule, outs, unaries):
    """What one way through the compiler writes: operation code -> (what, payload)."""
    res, bad = {}, set()
    for k, st, v in outs:
        if k != "ret":
            continue
        ev = [e for e in st.ts if e[0] in ("emit", "sub")]
        for i, e in enumerate(ev):
            if e[0] != "emit" or e[2] != C1 or e[3][0] != "c":
                continue
            pay = []
            j = i + 1
            while j < len(ev) and ev[j][0] == "emit" and not (ev[j][2] == C1 and ev[j][3][0] == "c"):
                z, w = ev[j][2], ev[j][3]
                if z[0] == "c":
                    pay.append((z[1], w[0] if w[0] in ("field",) else "num:" + w[1] if w[0] == "num" else "c" if w[0] == "c" else "?"))
                elif any(y[:1] == ("strlen",) for y in subterms(z)) and lin(z) == {("strlen", w): 1, None: 1}:
                    pay.append(("text", "text"))
                elif any(y[:1] == ("strlen",) for y in subterms(z)):
                    m.bad(rule.w.fn, "layout", "the text of a constant is written without its end", st, e[4], "textend")
                    pay.append(("text", "text"))
                else:
                    pay.append((None, "?"))
                j += 1
            what = "?"
            kinds = [x[1] for x in pay]
            if kinds == ["num:f"] and pay[0][0] == 8:
                m.bad(rule.fn or rule.w.fn, "value", "a constant with a fraction is read with less precision than it is kept", st, None, "precision")
                kinds = ["num:d"]
            if kinds == ["num:l"] and pay[0][0] == 8:
                what = "long"
            elif kinds == ["num:d"] and pay[0][0] == 8:
                what = "double"
            elif kinds == ["text"]:
                what = "string"
            elif kinds == ["field"]:
                what = "any"
            elif len(kinds) == 2 and kinds[0] == "field":
                what = "field"
            elif not kinds and j < len(ev) and ev[j][0] == "sub":
                what = "unary"
                for f, r in st.facts.items():
                    if not r and f[0] == "==" and f[2] == C0:
                        f, r = f[1], True
                    if r and f[0] == "same":
                        t = [x[1] for x in f[1:] if x[0] == "s"]
                        if len(t) == 1:
                            unaries[t[0]] = e[3][1]
            if what == "?":
                continue
            pay = tuple((z, "n" if w.startswith(("num", "c")) else w) for z, w in pay)
            if e[3][1] in res and res[e[3][1]] != (what, pay):
                bad.add(e[3][1])
            res[e[3][1]] = (what, pay)
    return {k: v for k, v in res.items() if k not in bad}


def check(prog, rep):
    m = Model(prog, rep)
    comp, ev, evf, pr = m.fn("Fboolco32"), m.fn("Fboolev32"), m.fn("Ffloatev32"), m.fn("Fboolpr32")
    if not (comp and ev and evf and pr):
        rep.need("read", 0)
        return
    m.file = ev["file"]
    roots = [g for g in m.recursive(ev)[0] if any(ischars(p["t"]) for p in g["p"])]
    prs = [g for g in m.recursive(pr)[0] if any(ischars(p["t"]) for p in g["p"])]
    root, printer = roots[0] if roots else None, prs[0] if prs else None
    w = Writer.of(m.reach(comp))
    ops = operators(prog, m.reach(comp))
    layout, unaries = {}, {}
    pr2 = sorted({x[0] for x in ops.values()})
    m.gap = min([b - a for a, b in zip(pr2, pr2[1:])] or [1])
    cyc = m.recursive(comp)[1]
    if w is not None:
        for u in sorted(cyc):
            fn = prog.functions[u]
            if fn.get("lam"):
                continue
            rule = Compile(rep, m, w, cyc)
            eng, outs, _ = run_root(prog, rule, fn, State(ts=()), rep=rep)
            rule.fn = fn
            layout.update(written(m, rule, outs, unaries))
            grouping(m, fn, outs, rule)
        whole(m, comp, w, cyc)
        room(m, w)
    strengths(m, comp, ops)
    if not root or not layout:
        return
    m.roles = roles(prog, (root["rt"].get("r") or ""))
    if not m.roles:
        return
    e = Evaluation(m, root)
    try:
        e.tagsof(layout)
        e.leaves(layout, None)
        plain = [o for o, (x, _) in layout.items() if x == "long"][0]
        anyop = [o for o, (x, _) in layout.items() if x == "any"]
        for t, o in sorted(unaries.items()):
            if t in ("-", "!", "~"):
                e.unary(t, o)
        known = set(sum(LEVELS, []))
        for t, (prec, o, line, f) in sorted(ops.items()):
            if t in known:
                e.binary(t, o, plain)
        if anyop:
            e.any([(t, ops[t][1]) for t in sorted(ops) if t in TRUTH[:6] + ("%%", "!%")], anyop[0], plain)
        e.outer(ev, m.header, True)
        e.outer(evf, m.header, False)
    except Skip as x:
        rep.count("skipped", 1)
    if printer:
        rule = Tree(rep, m, printer, ("sym", "p:" + [p["n"] for p in pr["p"] if ischars(p["t"])][0]), None, "l")
        rule.roles = None
        eng, outs, _ = run_root(prog, rule, pr, State(ts=(frozenset(), (), frozenset())), rep=rep)
        for k, st, v in outs:
            if k == "ret" and len(st.ts[1]) == 1 and st.ts[1][0] is not None and m.header is not None and lin(st.ts[1][0]) != lin(mk_add(rule.start, ("c", m.header))):
                m.bad(pr, "layout", "the expression is not printed from where the compiler put it", st, None, "header")
        printing(m, printer, layout, [(t, o, 1) for t, o in unaries.items()] + [(t, x[1], 2) for t, x in ops.items()])


def strengths(m, comp, ops):
    """The table of operators: the order of their strength."""
    last = None
    for lv in LEVELS:
        for t in lv:
            if t in ops:
                m.rep.instance("strength", t)
        here = {ops[t][0] for t in lv if t in ops}
        if len(here) > 1 or last is not None and here and max(here) >= last[1]:
            t = [x for x in lv if x in ops][0]
            m.bad(ops[t][3], "strength", "the operators %s do not bind as strongly as they have to" % " ".join(lv), None, ops[t][2], "strength:" + lv[0])
        if here:
            last = (lv, min(here))


def grouping(m, fn, outs, rule):
    """An operator takes its operands before any weaker operator to its right does, and equal ones from the left."""
    rep = m.rep

    def prec(t):
        o = rule.operator(t)
        if o is None:
            return None
        f = [f for f in m.prog.records[o[2]]["fields"] if f["n"] == o[1]]
        return o[0] if f and f[0]["t"].get("z") == 4 else None

    def precs(t):
        return {prec(y) for y in subterms(t) if isinstance(y, tuple) and prec(y) is not None}
    least = {i for u, args in rule.subs if u == fn["u"] for i, a in enumerate(args) if precs(a)}
    params = [("sym", "p:" + p["n"]) for p in fn["p"]]
    seen = set()

    def bad(st, line, msg, key):
        m.bad(fn, "grouping", msg, st, line, key)
    reader = set()
    for eng, st, where, (t1, f1, r1), line in rule.emits:
        ev = st.ts
        rep.instance("grouping", "%s:%s" % (fn["n"], line))
        s1 = [y for f in st.facts for y in subterms(f) if isinstance(y, tuple) and prec(y) == t1]
        s1 += [y for e in ev if e[0] == "sub" for a in e[2] for y in subterms(a) if isinstance(y, tuple) and prec(y) == t1]
        reader |= {e[1] for e in ev if e[0] == "read" and e[2] == t1}
        rights = [e[3] for e in ev if e[0] == "sub"]
        kept = {x for loc, x in st.env.items() if loc[0] == "fld"}
        if any(e[0] == "read" and e[1] in reader and e[2] != t1 and e[2] not in kept for e in ev):
            bad(st, line, "an operator that belongs to an outer expression is lost", "lost")
        if where in rights:
            bad(st, line, "an operator is put before its right operand instead of its left one", "place")
        if len(least) == 1:
            p = params[list(least)[0]]
            if not s1 or eng.decide(st, mk_lt(s1[0], p)) is not False:
                bad(st, line, "an operator that is too weak takes the operands of a stronger one", "weak")
        # operators to the right
        last, pending = None, None
        for e in ev:
            if e[0] == "sub" and e[1] == fn["u"] and len(least) == 1:
                a = e[2][list(least)[0]]
                if not s1:
                    continue
                d = lsub(lin(a), lin(s1[0]))
                k = const(d)
                if k is not None and k < 1 or k is None and eng.decide(st, mk_lt(s1[0], a)) is not True:
                    bad(st, line, "operators of equal strength are not taken from the left", "left")
                last, pending = "sub", None
                if k is not None and 1 <= k <= m.gap:
                    last = "done"
            elif e[0] == "sub":
                last, pending = "operand", None
            elif e[0] == "which" and e[1] != t1:
                pending = e[1]
            elif e[0] == "none" and e[1] in reader:
                pending = "none"
        if last == "done" or not least or pending == "none":
            continue
        s2 = [y for f in st.facts for y in subterms(f) if isinstance(y, tuple) and pending is not None and prec(y) == pending]
        if pending is None or not s1 or not s2 or eng.decide(st, mk_lt(s1[0], s2[0])) is not False:
            bad(st, line, "an operator takes its right operand although a stronger operator may follow", "right")
    # an operator that was read is used or read again
    for k, st, v in outs:
        if k != "ret" or v == C0:
            continue
        kept = {x for loc, x in st.env.items() if loc[0] == "fld"}
        for e in st.ts:
            if e[0] == "read" and e[1] in reader and e[2] not in kept:
                bad(st, None, "an operator that belongs to an outer expression is lost", "lost")


def whole(m, comp, w, cyc):
    """A compiled expression is handed out only at the end of the text."""
    for g in m.reach(comp):
        if g["file"] != m.file or g["u"] in cyc or not ischars(g["rt"]) or g["u"] == comp["u"] or not g.get("rec"):
            continue
        if not any(u in cyc for u in m.cg.get(g["u"], ())):
            continue
        rule = Compile(m.rep, m, w, cyc)
        eng, outs, _ = run_root(m.prog, rule, g, State(ts=()), rep=m.rep)
        for k, st, v in outs:
            if k == "ret" and v != C0 and any(e[0] == "sub" for e in st.ts):
                m.rep.instance("whole", g["n"])
                n = len([e for e in st.ts if e[0] == "sub"])
                if eng.decide(st, mk_eq(("sym", "eof#%d" % n), C0)) is not False:
                    m.bad(g, "whole", "an expression is accepted although text follows it", st, None, "whole")


class Room(Induction, FuxRule):
    """The block that holds the compiled form is as large as what is written into it."""
    bytes = True
    unroll = 1
    limit = 64

    def __init__(self, rep, model, fn):
        super().__init__(rep)
        self.m, self.fn = model, fn
        self.blocks = 0

    def opaque(self, fn):
        return fn["file"] != self.m.file

    def may_throw(self, call):
        return None

    def limits(self, eng, st, a):
        lo, hi = super().limits(eng, st, a)
        if a[0] == "sym" and (a[1] in ("room", "used") or str(a[1]).startswith("p:")):
            lo = max(lo or 0, 0)
        return lo, hi

    def size(self, st, blk):
        return st.env.get(("fld", ("deref", blk), "$size"))

    def call(self, eng, st, call):
        n = call.name.split("<")[0].replace("std::", "")
        if n in ("malloc", "realloc", "calloc"):
            z = call.args[0] if n == "malloc" else call.args[1]
            if n == "calloc":
                z = mk_op("*", call.args[0], call.args[1])
            s2 = st.copy()
            blk = ("sym", "block@%s" % call.line)
            st.env[("fld", ("deref", blk), "$size")] = z
            eng.assume(st, mk_eq(blk, C0), False)
            return [("ret", st, blk), ("ret", s2, C0)]
        if n in ("copy_n", "memcpy", "memmove", "memset"):
            d, z = (call.args[2], call.args[1]) if n == "copy_n" else (call.args[0], call.args[2])
            self.write(eng, st, d, z, call.line)
            return [("ret", st, d)]
        return super().call(eng, st, call)

    def write(self, eng, st, d, z, line):
        f = lin(d)
        at = [a for a, k in f.items() if a is not None and k == 1 and self.size(st, a) is not None]
        if len(at) != 1:
            return
        off = {a: k for a, k in f.items() if a != at[0]}
        self.rep.instance("room", "%s:%s" % (self.fn["n"], line))
        room = lsub(lsub(lin(self.size(st, at[0])), off), lin(z))
        if not self.atleast0(eng, st, room):
            self.m.bad(self.fn, "room", "more may be written into the compiled expression than there is room for", st, line, "room")


def room(m, w):
    rec = m.prog.records.get(w.fn["rec"])
    if not rec:
        return
    this = ("deref", ("sym", "this"))
    used = None
    for n in walk(w.fn["b"]):
        if n["k"] == "bin" and n.get("op") in ("+=", "=") and any(x["k"] == "ref" and x.get("d") == w.fn["p"][w.length]["d"] for x in walk(n["b"])):
            x = strip(n["a"])
            if x is not None and x["k"] == "mem":
                used = x["n"]
    ctors = [f for f in m.prog.functions.values() if f.get("rec") == w.fn["rec"] and f.get("b") and f.get("ctor")]
    ptr = cap = None
    for c in ctors:
        rule = Room(m.rep, m, c)
        eng, outs, _ = run_root(m.prog, rule, c, State(ts=()), rep=m.rep)
        for k, st, v in outs:
            if k != "ret":
                continue
            fs = {l[2]: x for l, x in st.env.items() if l[0] == "fld" and l[1] == this}
            p = [f for f, x in fs.items() if rule.size(st, x) is not None]
            if len(p) != 1:
                continue
            z = rule.size(st, fs[p[0]])
            c2 = [f for f, x in fs.items() if x == z]
            if len(c2) == 1:
                ptr, cap = p[0], c2[0]
                m.rep.instance("room", c["n"])
                if used in fs and isc(fs[used]):
                    m.header = fs[used][1]
                if used in fs and isc(z) and isc(fs[used]) and fs[used][1] > z[1]:
                    m.bad(c, "room", "more is used of the compiled expression than there is room for", st, None, "room")
    if not ptr or not cap or not used:
        return
    rule = Room(m.rep, m, w.fn)
    st = State(ts=())
    b0 = ("sym", "block0")
    st.env[("fld", this, ptr)] = b0
    st.env[("fld", this, cap)] = ("sym", "room")
    st.env[("fld", this, used)] = ("sym", "used")
    st.env[("fld", ("deref", b0), "$size")] = ("sym", "room")
    st.facts[mk_lt(("sym", "room"), ("sym", "used"))] = False
    args = [("sym", "p:" + p["n"]) for p in w.fn["p"]]
    if w.where is not None:
        st.facts[mk_lt(("sym", "used"), args[w.where])] = False
    eng, outs, _ = run_root(m.prog, rule, w.fn, st, args=args, rep=m.rep)
    for k, s, v in outs:
        if k != "ret":
            continue
        z = rule.size(s, s.env[("fld", this, ptr)])
        c, u = s.env[("fld", this, cap)], s.env[("fld", this, used)]
        if z is None or not rule.atleast0(eng, s, lsub(lin(z), lin(c))) or not rule.atleast0(eng, s, lsub(lin(c), lin(u))):
            m.bad(w.fn, "room", "what is remembered about the room of the compiled expression is wrong afterwards", s, None, "kept")
