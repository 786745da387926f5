"""Fielded buffers: where the bytes of a field are, by type, in terms of offsets."""
from .fmlsim import *

COPIES = ("memcpy", "__builtin_memcpy", "memmove", "__builtin_memmove", "std::memcpy", "std::memmove", "std::copy_n", "std::copy",
          "bcopy")
THIS = ("sym", "this")
SELF = ("deref", THIS)
AT = ("sym", "at")                      # where a field was found, an offset into the data
VALUE = ("c", 1 << 20)                  # an address, aligned and not null


def lin(t):
    """Linear form: {atom: coefficient}, constant under None."""
    r = {}

    def go(t, k):
        if t[0] == "c" and isinstance(t[1], int):
            r[None] = r.get(None, 0) + k * t[1]
        elif t[0] == "op" and t[1] == "+":
            go(t[2], k)
            go(t[3], k)
        elif t[0] == "op" and t[1] == "-":
            go(t[2], k)
            go(t[3], -k)
        elif t[0] == "op" and t[1] == "*" and t[3][0] == "c":
            go(t[2], k * t[3][1])
        elif t[0] == "op" and t[1] == "*" and t[2][0] == "c":
            go(t[3], k * t[2][1])
        elif t[0] == "addr" and t[1][0] == "idx":
            go(("addr", t[1][1]), k)
            go(t[1][2], k)
        else:
            r[t] = r.get(t, 0) + k
    go(t, 1)
    return {a: k for a, k in r.items() if k}


def lsub(a, b):
    r = dict(a)
    for t, k in b.items():
        r[t] = r.get(t, 0) - k
    return {t: k for t, k in r.items() if k}


def same(a, b):
    return a is not None and b is not None and lin(a) == lin(b)


def const(l):
    """Value of a linear form without atoms, else None."""
    return l.get(None, 0) if not [a for a in l if a is not None] else None


def norm(rule, eng, t):
    """Pointers into the data as its start and an offset."""
    if t[0] == "addr" and data_of(t[1]) is not None:
        b, o = rule.place(eng, t)
        if b == DATA:
            return ("op", "+", ("addr", DATA), o)
    if t[0] == "op":
        return ("op", t[1]) + tuple(norm(rule, eng, x) for x in t[2:])
    if t[0] in ("<", "=="):
        return (t[0],) + tuple(norm(rule, eng, x) for x in t[1:])
    return t


def normed(rule, eng, x):
    """Events and places with all offsets in bytes."""
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("addr", "op", "c", "ld", "sym", "fld", "deref", "call"):
        return norm(rule, eng, x)
    if isinstance(x, tuple):
        return tuple(normed(rule, eng, y) for y in x)
    return x


def facts(st, nf=lambda t: t):
    """Linear forms known to be >= 0."""
    for f, v in st.facts.items():
        if f[0] == "<":
            x, y = lin(nf(f[1])), lin(nf(f[2]))
            d = lsub(y, x) if v else lsub(x, y)
            if v:
                d[None] = d.get(None, 0) - 1
            yield d
        elif f[0] == "==" and v is True:
            x, y = lin(nf(f[1])), lin(nf(f[2]))
            yield lsub(x, y)
            yield lsub(y, x)


def atleast0(st, l, positive=(), nf=lambda t: t):
    """Is the linear form known to be >= 0 (one known inequality, and terms that are no lengths below 0)?"""
    def ok(d):
        c = 0
        for a, k in d.items():
            if a is None:
                c += k
            elif not (k > 0 and a in positive):
                return False
        return c >= 0
    if ok(l):
        return True
    fs = list(facts(st, nf))
    for f in fs:
        if ok(lsub(l, f)):
            return True
    for i, f in enumerate(fs):
        for g in fs[i + 1:]:
            if ok(lsub(lsub(l, f), g)):
                return True
    return False


class BufRule(FmlRule):
    """Events: ("copy", to, from, bytes), ("fill", to, value, bytes), ("set", place, value)."""
    bytes = True
    unroll = 12
    trunc = False
    field = None               # field number sought
    oldlen = 0                 # length of the value found
    vlen = 0                   # length of a new value that has its own
    found = ("none", "there", "other")
    counted = C0               # occurrences of the field
    onestep = False            # no field is behind the one found
    follow = ()                # of the methods that are taken as a result otherwise

    def start(self, prog):
        super().start(prog)
        like = [f for f in prog.functions.values() if f.get("b") and self.like_search(f)]
        us = {f["u"] for f in like}
        self.searches = {f["u"] for f in like if not any(
            n["k"] == "call" and n.get("u", (n.get("fn") if isinstance(n.get("fn"), str) else None)) in us - {f["u"]} for n in walk(f["b"]))}
        return self

    def is_search(self, fn):
        return fn["u"] in self.searches

    @staticmethod
    def like_search(fn):
        """Where a field is: (field, occurrence) -> field."""
        rt = fn.get("rt") or {}
        return fn.get("rec") == "Fbfr32" and rt.get("k") == "ptr" and (rt.get("p") or {}).get("r") == "fieldhead" and \
            len(fn["p"]) == 2 and all(p["t"].get("k") == "int" for p in fn["p"])

    @staticmethod
    def is_count(fn):
        """How many there are of a field: (field) -> occurrences."""
        return fn is not None and fn.get("rec") == "Fbfr32" and len(fn["p"]) == 1 and fn["n"] == "Fbfr32::occur"

    @staticmethod
    def is_step(fn):
        """The field behind a field."""
        rt = fn.get("rt") or {}
        return fn.get("rec") == "Fbfr32" and len(fn["p"]) == 1 and all(
            x.get("k") == "ptr" and (x.get("p") or {}).get("r") == "fieldhead" for x in (rt, fn["p"][0]["t"]))

    def ev(self, st, *e):
        st.ts = st.ts + (e,)

    def call(self, eng, st, call):
        n = base(call.name)
        a = call.args
        if call.fn is not None and self.is_search(call.fn) and eng.stack and eng.stack[0] is not call.fn:
            return self.search(eng, st, call)
        if self.is_count(call.fn) and eng.stack and eng.stack[0] is not call.fn and "occur" not in self.follow:
            return [("ret", st, self.counted)]
        if call.fn is not None and any(f is call.fn for f in eng.stack) and base(call.name) == "Fbfr32::chg":
            r = ("sym", "stored")
            eng.killsym(st, r)
            self.ev(st, "filler", r)
            return [("ret", st, r)]
        if self.onestep and call.fn is not None and self.is_step(call.fn):
            return [("ret", st, C0)]
        if n in COPIES:
            if n.endswith("copy_n"):
                to, fr, z = a[2], a[0], mk_op_mul(a[1], self.width(call, 0))
            elif n == "std::copy":
                to, fr, z = a[2], a[0], mk_sub(a[1], a[0])
            elif n == "bcopy":
                to, fr, z = a[1], a[0], a[2]
            else:
                to, fr, z = a[:3]
            self.ev(st, "copy", self.place(eng, to), self.place(eng, fr), z, call.line)
            self.touch(eng, st, to, call)
            return [("ret", st, to)]
        if n in ("memset", "std::memset", "__builtin_memset", "bzero", "std::fill_n"):
            to, v, z = (a[0], C0, a[1]) if n == "bzero" else (a[0], a[2], a[1]) if n == "std::fill_n" else a[:3]
            self.ev(st, "fill", self.place(eng, to), v, z, call.line)
            self.touch(eng, st, to, call)
            return [("ret", st, to)]
        if n in ("strlen", "__builtin_strlen", "std::strlen"):
            self.ev(st, "strlen", a[0])
            return [("ret", st, ("c", self.vlen) if a[0] == VALUE else eng.fresh(st, "strlen", call.line))]
        return super().call(eng, st, call)

    @staticmethod
    def width(call, i):
        """Bytes of what the i-th argument points to."""
        args = (call.node or {}).get("args") or [] if hasattr(call, "node") else []
        if i < len(args):
            t = (strip(args[i]) or {}).get("t") or args[i].get("t") or {}
            if t.get("k") in ("ptr", "arr"):
                return (t.get("p") or {}).get("z") or 1
        return 1

    def touch(self, eng, st, to, call):
        loc = to[1] if to[0] == "addr" else deref(to)
        r = data_of(loc)
        eng.havoc(st, r if r is not None else loc, call.line)

    def search(self, eng, st, call):
        out = []
        if "none" in self.found:
            s = st.copy()
            s.ts = s.ts + (("search", "none") + tuple(call.args),)
            out.append(("ret", s, C0))
        for what in ("there", "other"):
            if what not in self.found:
                continue
            s = st.copy()
            s.ts = s.ts + (("search", what) + tuple(call.args),)
            loc = ("idx", ("fld", SELF, "data_"), AT)
            s.env[("fld", loc, "fieldid")] = call.args[0] if what == "there" else ("sym", "otherfield")
            if what == "other":
                s.facts[mk_eq(("sym", "otherfield"), call.args[0])] = False
            else:
                s.env[("fld", loc, "flen")] = ("c", self.oldlen) if isinstance(self.oldlen, int) else self.oldlen
            s.facts[mk_eq(("addr", loc), C0)] = False
            out.append(("ret", s, ("addr", loc)))
        return out

    def store(self, eng, st, loc, val, node):
        super().store(eng, st, loc, val, node)
        if root(loc)[0] != "var":
            p = self.place(eng, addr(loc))
            self.ev(st, "set", p, val, (node or {}).get("l", 0) if isinstance(node, dict) else 0)

    def place(self, eng, ptr):
        """(object, offset in bytes) a pointer points to."""
        def loc(l):
            if l[0] == "fld":
                b, o = loc(l[1])
                rec = self.prog.records.get(eng.locrec.get(l) or "")
                for f in (rec or {}).get("fields", ()):
                    if f["n"] == l[2]:
                        if rec["k"] in ("Fbfr32",) or (f["t"].get("r") or "").startswith("std::"):
                            return ("fld", ("at", b, o), l[2]), C0
                        return b, mk_add(o, ("c", f["off"] // 8))
                return ("fld", ("at", b, o), l[2]), C0
            if l[0] == "idx":
                b, o = loc(l[1])
                return b, mk_add(o, l[2])
            if l[0] == "deref":
                return ptr_(l[1])
            return l, C0

        def ptr_(p):
            if p[0] == "addr":
                return loc(p[1])
            if p[0] == "op" and p[1] in "+-":
                for x, y in ((p[2], p[3]), (p[3], p[2])):
                    if x[0] in ("addr",) or x[0] == "sym" and x[1].startswith("p:"):
                        if p[1] == "-" and x is not p[2]:
                            continue
                        b, o = ptr_(x)
                        return b, mk_add(o, y) if p[1] == "+" else mk_sub(o, y)
            return ("deref", p), C0
        return ptr_(ptr)


def mk_op_mul(a, z):
    return a if z == 1 else ("c", a[1] * z) if a[0] == "c" else ("op", "*", a, ("c", z))


def data_of(loc):
    """The data of the buffer a location is in."""
    while loc[0] in ("idx", "fld"):
        if loc[0] == "fld" and loc[2] == "data_":
            return loc
        loc = loc[1]
    return None


DATA = (("fld", ("at", SELF, C0), "data_"))


def off(place):
    """Offset into the data of the buffer, None when it is elsewhere."""
    return place[1] if place and place[0] == DATA else None


def now(eng, st, name, of=SELF):
    return norm(eng.rule, eng, eng.lookup(st, ("fld", of, name)))


def was(name, of=SELF):
    return ("ld", ("fld", of, name), 0)


class Buffer:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.num, self.err = constants(prog)
        self.rule = BufRule(rep).start(prog)
        self.m = {}
        for u, f in prog.functions.items():
            if f.get("rec") == "Fbfr32" and f.get("b") and f["n"].startswith("Fbfr32::"):
                self.m.setdefault(f["n"].split("::")[-1], []).append(f)
        self.types = sorted(self.num, key=lambda n: self.num[n])

    def fn(self, name, n=None):
        r = [f for f in self.m.get(name, ()) if n is None or len(f["p"]) == n]
        if not r:
            raise AnalysisBroken("Fbfr32::%s not found" % name)
        return r[0]

    def run(self, f, args, st=None, **kw):
        rule = self.rule
        saved = {k: getattr(rule, k) for k in kw}
        for k, v in kw.items():
            setattr(rule, k, v)
        try:
            eng, outs, _ = run_root(self.prog, rule, f, st or State(ts=()), args=args, rep=self.rep)
        finally:
            for k, v in saved.items():
                setattr(rule, k, v)
        for o in outs:
            o[1].ts = normed(rule, eng, o[1].ts)
            for k, v in list(o[1].facts.items()):
                n = norm(rule, eng, k)
                if n != k:
                    o[1].facts[n] = v
        return eng, outs

    def value(self, name, args, eng=None, st=None, this=THIS):
        """Values a helper gives in a state."""
        f = self.fn(name, len(args))
        if st is None:
            eng, outs = self.run(f, args)
            return [(o[1], o[2]) for o in outs if o[0] == "ret"]
        s = st.copy()
        return eng.inline(f, s, this, args, {"k": "call", "l": f.get("l", 0), "args": []})

    def viol(self, f, st, what, text, tag=""):
        self.rep.violation(f["file"], f.get("l", 0), f["n"], what, text, key="%s|%s|%s" % (what, base(f["n"]), tag),
                           trace=st.trace() if st is not None else None)

    # ---- what a type needs
    def width(self, t, n=None):
        w = WIDTH[t]
        return w if w is not None else n

    @staticmethod
    def entry(t, n):
        """Bytes a field takes: number and value, in steps of 8."""
        w = WIDTH[t]
        if w is None:
            return 8 + (n + 7) // 8 * 8
        return 8 if w <= 4 else 16

    def lens(self, t):
        """Lengths of values that tell the cases of a type apart."""
        return (0,) if WIDTH[t] is not None else (0, 1, 7, 8, 9, 13, 16) if t == "CARRAY" else (1, 8, 9, 13) if t == "STRING" else (40, 48, 64)

    def there(self, t, n, occ=0):
        """A state with a field of the type at AT, and the pointer to it."""
        st = State(ts=())
        loc = ("idx", ("fld", SELF, "data_"), AT)
        st.env[("fld", loc, "fieldid")] = fldid(self.num[t])
        st.env[("fld", loc, "flen")] = ("c", n)
        st.facts[mk_eq(("addr", loc), C0)] = False
        return st, ("addr", loc)

    def valued(self, t, n):
        """Arguments and settings that store a value of n bytes."""
        st = State(ts=())
        if t == "FML32":
            v = ("deref", VALUE)
            st.env[("fld", v, "len_")] = ("c", n - 40)
        return st, ("c", n if t == "CARRAY" else 3), dict(vlen=max(n - 1, 0))

    def chg(self, t, n, found, old=0, occur=C0, oc=C0):
        st, flen, kw = self.valued(t, n)
        return self.run(self.fn("chg", 4), [fldid(self.num[t]), oc, VALUE, flen], st, found=found, oldlen=old,
                        counted=occur, **kw)

    def regions(self, eng=None, st=None):
        """type -> (start, end) of its fields."""
        r = {}
        for t in self.types:
            a = self.value("first_byte", [("c", self.num[t])], eng, st)
            b = self.value("last_byte", [("c", self.num[t])], eng, st)
            if len(a) != 1 or len(b) != 1:
                return None
            r[t] = (a[0][1], b[0][1]) if eng is None else (norm(eng.rule, eng, a[0][1]), norm(eng.rule, eng, b[0][1]))
        return r

    def chain(self):
        """Types in the order of their fields, None when the fields of two types overlap or leave a gap."""
        r = self.regions()
        if r is None:
            return None
        cur, left, out = C0, set(self.types), []
        while left:
            n = [t for t in left if same(r[t][0], cur)]
            if len(n) != 1:
                return None
            out.append(n[0])
            left.discard(n[0])
            cur = r[n[0]][1]
        return out if same(cur, was("len_")) else None

    def header(self, t):
        """Offset of the value in a field, as a change writes it."""
        eng, outs = self.chg(t, self.lens(t)[-1], ("none",))
        r = set()
        for o in outs:
            if o[0] == "ret" and o[2] == C0:
                for e in o[1].ts:
                    if e[0] == "copy" and e[2] == (("deref", VALUE), C0) and off(e[1]) is not None:
                        at = [off(x[1]) for x in o[1].ts if x[0] == "set" and x[2] == fldid(self.num[t])]
                        r.add(const(lsub(lin(off(e[1])), lin(at[0]))) if at and at[0] is not None else None)
        return r.pop() if len(r) == 1 else None
