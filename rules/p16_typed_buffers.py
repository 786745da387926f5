"""Typed buffers have the memory they record and hold what their type says."""
from .fmlbuf import *

EXPLAIN = ("Path-sensitive evaluation of the functions that create, resize, export, import and free typed buffers, once for "
           "each row of the table of buffer types and once for a type that is not in the table.  Every write, copy and "
           "clear is turned into (object, offset, bytes); linear inequalities collected on the path must show that it "
           "stays inside the memory of the object.  Blocks are as large as the call that allocated them asked for, a "
           "given buffer as large as its header records.")

LENGTH = ("strlen",)


def find_table(prog):
    """The table of buffer types and the record of its rows."""
    for u, g in prog.globals.items():
        t = g.get("t") or (g.get("init") or {}).get("t") or {}
        rec = prog.records.get((t.get("p") or {}).get("r") or "") if t.get("k") == "arr" else None
        if rec is None:
            continue
        rows = rows_of(g, rec)
        if rows and any(r.get("type") == ("s", "CARRAY") for r in rows):
            return u, (t.get("p") or {}).get("z") or 1, rows
    raise AnalysisBroken("the table of buffer types was not found")


def value_of(e):
    e = strip(e)
    while e is not None and e.get("k") == "un" and e.get("op") == "&":
        e = strip(e["e"])
    if e is None:
        return None
    if e["k"] == "str":
        return ("s", e["v"])
    if e["k"] in ("null", "zero"):
        return C0
    if isinstance(e.get("cv"), int):
        return ("c", e["cv"])
    if e["k"] == "int":
        return ("c", e["v"])
    if e["k"] == "ref" and e.get("fn"):
        return ("fnptr", e["fn"])
    return None


def rows_of(g, rec):
    init = strip(g.get("init"))
    rows = []
    for r in (init or {}).get("a") or ():
        r = strip(r)
        while r is not None and r["k"] == "ctor" and len(r.get("args") or ()) == 1:
            r = strip(r["args"][0])
        vals = (r or {}).get("a") or ()
        rows.append({f["n"]: value_of(v) for f, v in zip(rec["fields"], vals)})
    return rows


class MemRule(BufRule):
    row = None                  # the row whose type the buffer has, None: an unknown type
    limit = 200

    def start(self, prog):
        super().start(prog)
        self.table, self.rowsize, self.rows = find_table(prog)
        self.tbl = ("var", self.table)
        return self

    def state(self):
        st = State(ts=())
        for i, r in enumerate(self.rows):
            for k in (i, i * self.rowsize):          # by index, by a pointer that steps over the rows
                for n, v in r.items():
                    if v is not None and v[0] != "s":
                        st.env[("fld", mk_idx(self.tbl, ("c", k)), n)] = v
        return st

    def is_search(self, fn):
        return False

    def opaque(self, fn):
        if base(fn["n"]).startswith(("fml32", "base64encode", "base64decode")):
            return True
        return super().opaque(fn)

    def ev(self, st, *e):
        eng = self.eng
        st.ts = st.ts + (e + (("where", eng.curfile(), eng.cur()["n"] if eng.cur() else "?") + self.caps,),)

    caps = (None, None)

    def cap(self, eng, st, ptr):
        """Elements of the container a pointer is into."""
        l = ptr[1] if ptr[0] == "addr" else None
        whole = l
        while l is not None and l[0] in ("idx", "fld"):
            if l[0] == "idx":
                whole = l[1]
            l = l[1]
        return norm(self, eng, eng.lookup(st, ("fld", whole, "$size"))) if whole is not None else None

    def rowof(self, ptr):
        """Row and field of the table a pointer is into."""
        l = ptr[1] if ptr[0] == "addr" else ()
        f = None
        while l and l[0] in ("idx", "fld"):
            if l[0] == "fld":
                f = l[2]
            if l[0] == "idx" and l[1] == self.tbl:
                i = l[2]
                if isc(i) and i[1] >= len(self.rows) and i[1] % self.rowsize == 0:
                    i = ("c", i[1] // self.rowsize)
                return i, f
            l = l[1]
        return None, None

    def store(self, eng, st, loc, val, node):
        self.eng = eng
        super().store(eng, st, loc, val, node)

    def call(self, eng, st, call):
        self.eng = eng
        n = base(call.name)
        a = call.args
        self.caps = (None, None)
        if n in COPIES and len(a) > 2:
            self.caps = tuple(self.cap(eng, st, x) for x in ((a[2], a[0]) if n in ("std::copy", "std::copy_n") else
                                                             (a[1], a[0]) if n == "bcopy" else a[:2]))
        elif n in ("base64encode", "base64decode"):
            self.caps = (self.cap(eng, st, a[2]), self.cap(eng, st, a[0]))
        try:
            return self.call_(eng, st, call, n, a)
        finally:
            self.caps = (None, None)

    def call_(self, eng, st, call, n, a):
        if n in ("std::cbegin", "std::begin", "std::cend", "std::end") and a and a[0] == ("addr", self.tbl):
            return [("ret", st, addr(mk_idx(self.tbl, ("c", len(self.rows) if n.endswith("end") else 0))))]
        if n == "std::find_if" and a[2][0] == "lam" and self.rowof(a[0])[0] is not None and self.rowof(a[1])[0] is not None:
            return self.find(eng, st, call)
        if n in ("strncmp", "std::strncmp", "strcmp", "memcmp", "__builtin_strncmp", "std::memcmp", "__builtin_memcmp",
                 "std::strcmp", "__builtin_strcmp"):
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                i, f = self.rowof(x)
                if i is None:
                    continue
                if f == "type" and len(a) > 2 or i == ("c", self.row):
                    self.ev(st, "compare", i, f, self.place(eng, y), a[2] if len(a) > 2 else None, call.line)
                return [("ret", st, C0 if i == ("c", self.row) else ("c", 1))]
        if n in ("malloc", "realloc", "calloc"):
            s, t = st.copy(), st.copy()
            r = ("sym", "block%d" % (sum(e[0] == "block" for e in st.ts) + 1))
            size = a[-1] if n != "calloc" else mk_op("*", a[0], a[1])
            self.ev(s, "block", r, a[0] if n == "realloc" else None, size, call.line)
            s.facts[mk_eq(r, C0)] = False
            if n == "realloc":
                for f in self.head:
                    s.env[("fld", deref(r), f)] = eng.lookup(st, ("fld", deref(a[0]), f))
            self.ev(t, "noblock", call.line)
            t.note(eng.curfile(), call.line, "%s fails" % n)
            return [("ret", s, r), ("ret", t, C0)]
        if n == "free":
            self.ev(st, "free", a[0], call.line)
            return [("ret", st, C0)]
        if n in ("strncpy", "__builtin_strncpy", "std::strncpy", "strcpy", "std::strcpy", "__builtin_strcpy"):
            self.ev(st, "copy", self.place(eng, a[0]), self.place(eng, a[1]), a[2] if len(a) > 2 else None, call.line)
            self.touch(eng, st, a[0], call)
            return [("ret", st, a[0])]
        if n in ("strlen", "__builtin_strlen", "std::strlen"):
            r = ("sym", "strlen:" + show(normed(self, eng, self.place(eng, a[0]))[0]))
            self.ev(st, "strlen", self.place(eng, a[0]), r, call.line)
            self.held(eng, st, a[0], mk_add(r, C1))
            return [("ret", st, r)]
        if n.startswith("fml32") and call.fn is not None:
            r = ("sym", n)
            self.ev(st, n, self.place(eng, a[0]), a[1] if len(a) > 1 else r, call.line)
            if len(a) == 1:
                self.held(eng, st, a[0], r)
            return [("ret", st, r)]
        if n == "base64decode" or n == "base64encode":
            r = eng.fresh(st, n, call.line)
            st.facts[mk_lt(a[3], r)] = False
            vs = [(st, r)]
            if n == "base64encode":
                # no more characters than the function says
                vs = eng.inline(eng.prog.fn("base64chars"), st, None, [a[1]], call.node)
            out = []
            for s, v in vs:
                if v != r:
                    s.facts[mk_lt(v, r)] = False
                self.ev(s, n, self.place(eng, a[2]), self.place(eng, a[0]), a[1], a[3], call.line)
                self.touch(eng, s, a[2], call)
                out.append(("ret", s, r))
            return out
        return super().call(eng, st, call)

    def held(self, eng, st, ptr, n):
        """What a typed buffer holds is inside of it: strings end there (checked here) and fields (another property) too."""
        b, o = spot(normed(self, eng, self.place(eng, ptr)))
        for p in self.bufs:
            if b == deref(p) and o == {}:
                st.facts[mk_lt(norm(self, eng, eng.lookup(st, ("fld", deref(mk_sub(p, ("c", self.H))), "size"))), n)] = False

    def find(self, eng, st, call):
        """The first row that fits, in the order of the table."""
        lam = call.args[2]
        fn = eng.prog.resolve(lam[1], eng.cur()["unit"])
        lo, hi = (self.rowof(x)[0] for x in call.args[:2])
        outs, cur = [], [st]
        for i in range(lo[1], hi[1]):
            row = addr(mk_idx(self.tbl, ("c", i)))
            nxt = []
            for s in cur:
                for s2, v in eng.inline(fn, s, lam[2], [row], call.node):
                    for truth in (True, False):
                        s3 = eng.assume(s2, v, truth, call.node)
                        if s3 is None:
                            continue
                        if truth:
                            outs.append(("ret", s3.copy(), row))
                        else:
                            nxt.append(s3.copy())
            cur = nxt
        return outs + [("ret", s, call.args[1]) for s in cur]


class Typed:
    """One function, one row."""

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.rule = MemRule(rep).start(prog)
        rec = [r for n, r in prog.records.items() if base(n).split("::")[-1] == "tpmem"]
        if not rec:
            raise AnalysisBroken("the header of typed buffers was not found")
        self.rec = rec[0]
        self.off = {f["n"]: f["off"] // 8 for f in self.rec["fields"]}
        self.width = {f["n"]: f["t"].get("z") for f in self.rec["fields"]}
        for n in ("size", "type", "subtype", "data", "owner"):
            if n not in self.off:
                raise AnalysisBroken("typed buffers have no %s" % n)
        self.H = self.off["data"]
        self.rule.head = ("size", "owner")
        self.rule.H = self.H

    def header(self, p):
        return deref(mk_sub(p, ("c", self.H)))

    def recorded(self, eng, st, p):
        return norm(self.rule, eng, eng.lookup(st, ("fld", self.header(p), "size")))

    def run(self, f, row, args=None, owned=None, given=None):
        self.rule.row = row
        st = self.rule.state()
        if owned is not None:
            st.env[("fld", self.header(given), "owner")] = owned
            if owned != C0:
                st.env[deref(owned)] = given
                st.facts[mk_eq(owned, C0)] = False
        if given is not None:
            st.env[("fld", self.header(given), "size")] = ("sym", "recorded")
        args = args or [("sym", "p:" + p["n"]) for p in f["p"]]
        self.initial = st.copy()
        eng, outs, _ = run_root(self.prog, self.rule, f, st, args=args, rep=self.rep)
        for o in outs:
            o[1].ts = normed(self.rule, eng, o[1].ts)
            for k, v in list(o[1].facts.items()):
                n = norm(self.rule, eng, k)
                if n != k:
                    o[1].facts[n] = v
        return eng, outs

    def paths(self, f, row, bufs=(), refs=(), **kw):
        self.bufs, self.refs = bufs, refs
        self.rule.bufs = [sym(n) for n in bufs]
        eng, outs = self.run(f, row, **kw)
        out = [Path(self, eng, o, f, row) for o in outs]
        for p in out:
            n = p.bounds()
            self.rep.count("paths")
            if n:
                self.rep.count("accesses", n)
        return out


def spot(place):
    """Object and linear offset of a place, pointers with a distance resolved."""
    b, o = place
    l = lin(o)
    while b[0] == "deref" and b[1][0] == "op" and b[1][1] in "+-":
        p, d = b[1][2], b[1][3]
        if p[0] == "c" and b[1][1] == "+":
            p, d = d, p
        if d[0] != "c":
            break
        l = lsub(l, {None: -d[1] if b[1][1] == "+" else d[1]})
        b = deref(p)
    return b, l


def plus(l, *ts):
    for t in ts:
        l = lsub(l, {k: -v for k, v in (lin(t) if isinstance(t, tuple) else {None: t}).items()})
    return {k: v for k, v in l.items() if v}


class Path:
    """What holds on one path through a function."""

    def __init__(self, t, eng, o, f, row):
        self.t, self.eng, self.f, self.row = t, eng, f, row
        self.kind, self.st, self.val = o
        self.ev = self.st.ts
        self.nf = lambda x: norm(t.rule, eng, x)
        self.blocks = {e[1]: (i, e[2], lin(e[3])) for i, e in enumerate(self.ev) if e[0] == "block"}
        # results that are lengths
        self.positive = {x for f in self.st.facts for x in subterms(f) if x[:1] == ("sym",) and x[1].startswith(("strlen:", "fml32used", "base64"))}
        for e in self.ev:
            for x in e[1:]:
                if isinstance(x, tuple):
                    self.positive |= {y for y in subterms(x) if y[:1] == ("sym",) and isinstance(y[1], str) and y[1].startswith(("strlen:", "fml32used", "base64"))}

        for g in self.given():
            if g[0] in ("sym", "ld"):
                self.positive |= {a for a in self.recorded(deref(g), 0) or () if a is not None}

    def ge0(self, l):
        if atleast0(self.st, l, self.positive, self.nf):
            return True
        return False

    def viol(self, e, what, text, tag=""):
        w = e[-1] if e else None
        file, fn = (w[1], w[2]) if w else (self.f["file"], self.f["n"])
        line = e[-2] if e and isinstance(e[-2], int) else self.f.get("l", 0)
        self.t.rep.violation(file, line, fn, what, text, key="%s|%s|%s" % (what, base(fn), tag), trace=self.st.trace())

    def recorded(self, obj, upto):
        """What the header of a buffer records, as it is before event number upto."""
        t = self.t
        if obj[1] in self.blocks:
            for e in reversed(self.ev[:upto]):
                if e[0] == "set":
                    b, o = spot(e[1])
                    if b == obj and o == {k: v for k, v in {None: t.off["size"]}.items() if v}:
                        return lin(e[2])
            old = self.blocks[obj[1]][1]
            if old is not None:
                b, o = spot((deref(old), C0))
                if b[1] in self.given():
                    return self.recorded(b, upto)       # resized with its header
            return None
        return lin(norm(t.rule, self.eng, self.eng.lookup(self.t.initial.copy(), ("fld", t.header(obj[1]), "size"))))

    def room(self, obj, upto, cap):
        """(first, behind last) byte of an object, None when it is not known."""
        t = self.t
        if obj[0] == "deref" and obj[1] in self.blocks:
            i, old, size = self.blocks[obj[1]]
            return {}, size
        if obj[0] == "deref" and obj[1] in self.given():
            return {None: -t.H}, self.recorded(obj, upto)
        if obj[0] == "deref" and obj[1] == ("sym", "p:ostr"):
            return {}, lin(("ld", ("deref", ("sym", "p:olen")), 0))
        if obj[0] == "deref" and obj[1] in OUT:
            return {}, {None: t.width[OUT[obj[1]]]}
        if obj == t.rule.tbl:
            return None
        if cap is not None and (obj[0] == "var" or obj[0] == "fld"):
            return {}, lin(cap)
        return None

    def given(self):
        """User pointers to typed buffers."""
        return [sym(n) for n in self.t.bufs] + [("ld", ("deref", sym(n)), 0) for n in self.t.refs]

    def inside(self, i, place, length, cap, e, verb):
        b, o = spot(place)
        r = self.room(b, i, cap)
        if r is None:
            return 0
        lo, hi = r
        if hi is None:
            return 0
        end = plus(o, length) if length is not None else None
        ok = end is not None and self.ge0(lsub(o, lo)) and self.ge0(lsub(hi, end))
        if not ok and length is not None and self.zero(length):
            ok = True
        if not ok:
            self.viol(e, "outside", "%s behind the memory %s" % (verb, self.name(b)), self.name(b))
        return 1

    def zero(self, length):
        l = lin(length)
        return self.ge0({k: -v for k, v in l.items()})

    def name(self, b):
        if b[0] == "deref" and b[1] in self.blocks:
            return "that was allocated"
        if b[0] == "deref" and b[1] in self.given():
            return "of the typed buffer"
        if b[0] == "deref" and b[1] == ("sym", "p:ostr"):
            return "the caller has for the exported data"
        return "of the object"

    def bounds(self):
        n = 0
        for i, e in enumerate(self.ev):
            if e[0] == "copy":
                n += self.inside(i, e[1], e[3], e[-1][3], e, "writing")
                n += self.inside(i, e[2], e[3], e[-1][4], e, "reading")
            elif e[0] == "fill":
                n += self.inside(i, e[1], e[3], e[-1][3], e, "clearing")
            elif e[0] == "set":
                n += self.inside(i, e[1], C1, None, e, "writing")
            elif e[0] == "base64encode":
                n += self.inside(i, e[1], e[4], e[-1][3], e, "writing")
                n += self.inside(i, e[2], e[3], e[-1][4], e, "reading")
            elif e[0] == "base64decode":
                n += self.inside(i, e[1], e[4], e[-1][3], e, "writing")
            elif e[0] == "compare":
                f = e[2]
                if e[3][0] is not None:
                    r = self.inside(i, e[3], e[4] if e[4] is not None else ("sym", "unlimited"), None, e, "reading")
                    n += r
                w = self.t.width.get(f)
                if f == "type" and e[4] != ("c", w):
                    self.viol(e, "type-compare", "the names of types are not compared in all of their %d characters" % w)
        freed = None
        for e in self.ev:
            if freed is not None:
                for x in e[1:4]:
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and spot(x)[0] == freed:
                        self.viol(e, "after-free", "the buffer is used after it was freed")
                if e[0] == "free" and spot((deref(e[1]), C0))[0] == freed:
                    self.viol(e, "after-free", "the buffer is freed again")
            if e[0] == "free":
                freed, o = spot((deref(e[1]), C0))
                if freed[1] in self.given() and o != {None: -self.t.H} or freed[1] in self.blocks and o:
                    self.viol(e, "free", "what is freed is not where the memory starts")
                freed = freed
            if e[0] == "block" and e[2] is not None:
                b, o = spot((deref(e[2]), C0))
                if b[1] in self.given() and o != {None: -self.t.H}:
                    self.viol(e, "free", "what is resized is not where the memory starts")
                freed = b
        return n

    # ---- contents
    def user(self, v):
        """Block whose data a pointer is."""
        b, o = spot(self.t.rule.place(self.eng, v)) if v is not None else (None, None)
        if b is not None and b[0] == "deref" and b[1] in self.blocks and o == {None: self.t.H}:
            return b
        return None

    def ends(self, b, hi):
        """The string in a buffer ends inside of it: a NUL written after everything else."""
        base_ = self.t.H if b[1] in self.blocks else 0
        done = False
        for e in self.ev:
            if e[0] in ("copy", "fill", "base64decode") and spot(e[1])[0] == b:
                o = spot(e[1])[1]
                end = plus(o, e[3]) if e[0] != "base64decode" else None
                if end is None or not self.ge0(lsub({None: base_}, end)):
                    done = False
                    if e[0] == "fill" and e[2] == C0 and self.ge0(lsub(plus(end), {None: base_ + 1})):
                        done = True
            elif e[0] == "block" and e[1] == b[1]:
                done = False
            elif e[0] == "set" and spot(e[1])[0] == b and e[2] == C0:
                o = lsub(spot(e[1])[1], {None: base_})
                if self.ge0(o) and hi is not None and self.ge0(lsub(hi, plus(o, 1))):
                    done = True
        return done

    def told(self, b, what, hi):
        """The fielded buffer is told how large it is, after everything else."""
        base_ = self.t.H if b[1] in self.blocks else 0
        done = False
        for e in self.ev:
            if e[0] == "copy" and spot(e[1])[0] == b and not self.ge0(lsub({None: base_}, plus(spot(e[1])[1], e[3]))):
                done = False
            elif e[0] == "block" and e[1] == b[1]:
                done = False
            elif e[0] in what:
                bb, o = spot(e[1])
                if bb == b and o == {k: v for k, v in {None: base_}.items() if v} and hi is not None and \
                        (lin(e[2]) == hi or self.ge0(lsub(lin(e[2]), hi)) and self.ge0(lsub(hi, lin(e[2])))):
                    done = True
        return done

    def typed(self, b, what, hi):
        t = self.t.rule.rows[self.row]["type"][1] if self.row is not None else None
        if t == "STRING" and not self.ends(b, hi):
            self.viol(None, "no-end", "a string buffer is handed out in which the string may not end", t)
        if t == "FML32" and not self.told(b, what, hi):
            self.viol(None, "no-size", "a fielded buffer is handed out that was not told its size", t)


OUT = {("sym", "p:type"): "type", ("sym", "p:subtype"): "subtype"}
ARGS = {"tpalloc": ("type", "subtype", "size"), "tprealloc": ("ptr", "size"), "tpfree": ("ptr",), "tptypes": ("ptr", "type", "subtype"),
        "tpimport": ("istr", "ilen", "obuf", "olen", "flags"), "tpexport": ("ibuf", "ilen", "ostr", "olen", "flags")}
OWN = ("sym", "owner")


def sym(n):
    return ("sym", "p:" + n)


def check(prog, rep):
    t = Typed(prog, rep)
    rows = list(range(len(t.rule.rows)))

    def fn(name):
        f = [x for x in prog.functions.values() if x["n"] == name and x.get("b") and x.get("externc")]
        if not f or len(f[0]["p"]) != len(ARGS[name]):
            raise AnalysisBroken("%s not found" % name)
        return f[0], [sym(n) for n in ARGS[name]]

    def tname(row):
        return t.rule.rows[row]["type"][1] if row is not None else "unknown"

    for i, r in enumerate(t.rule.rows):
        if r.get("type") is None or r["type"][0] != "s" or len(r["type"][1]) > t.width["type"]:
            rep.violation("src/mem.cpp", 0, "", "row", "the name of a buffer type does not fit", key="row|%d" % i)
        rep.instance("type", str(r.get("type", ("s", "?"))[1]))
    rep.need("type", 3)

    def handed(p, least, exact):
        """The new block behind a pointer that is returned, and what it records."""
        b = p.user(p.val)
        if b is None:
            p.viol(None, "not-data", "what is returned is not the data of the new buffer")
            return None, None
        s = p.recorded(b, len(p.ev))
        if s is None:
            p.viol(None, "no-record", "the size of the new buffer is not recorded")
            return b, None
        _, _, size = p.blocks[b[1]]
        if not p.ge0(lsub(size, plus(s, t.H))):
            p.viol(None, "record", "the recorded size is more than the memory that was allocated")
        if not p.ge0(lsub(s, lin(least))):
            p.viol(None, "requested", "the buffer is smaller than requested")
        d = t.rule.rows[p.row].get("default_size") or C0
        if not p.ge0(lsub(s, lin(d))):
            p.viol(None, "default", "the buffer is smaller than the type needs", tname(p.row))
        return b, s

    # ---- allocation
    f, args = fn("tpalloc")
    for row in rows + [None]:
        for p in t.paths(f, row, args=args):
            if p.kind != "ret":
                continue
            if p.val == C0:
                live = set(p.blocks) - {e[1] for e in p.ev if e[0] == "free"}
                if live:
                    p.viol(None, "leak", "memory is lost when the allocation fails")
                continue
            if row is None:
                p.viol(None, "unknown-type", "a buffer of a type that does not exist is handed out")
                continue
            b, s = handed(p, sym("size"), True)
            if s is None:
                continue
            for field in ("type", "subtype", "owner"):
                at = {None: t.off[field]}
                hits = [e for e in p.ev if e[0] in ("copy", "set", "fill") and spot(e[1])[0] == b and spot(e[1])[1] == at]
                if field == "type" and not [e for e in hits if e[0] == "copy" and e[2][0] == deref(sym("type")) or e[0] == "copy" and e[2][0] == t.rule.tbl]:
                    p.viol(None, "header", "the type of a new buffer is not recorded", field)
                elif not hits:
                    p.viol(None, "header", "the %s of a new buffer is left undefined" % field, field)
                if field == "owner" and hits and hits[-1][2] != C0:
                    p.viol(hits[-1], "header", "a new buffer has an owner", field)
            p.typed(b, ("fml32init",), s)
        rep.instance("function", "tpalloc %s" % tname(row))

    # ---- resizing
    f, args = fn("tprealloc")
    for row in rows + [None]:
        for owned in (C0, OWN):
            for p in t.paths(f, row, ("ptr",), args=args, owned=owned, given=args[0]):
                if p.kind != "ret":
                    continue
                if p.val == C0:
                    if p.blocks:
                        p.viol(None, "leak", "the buffer was resized although failure is returned")
                    if [e for e in p.ev if e[0] == "free"]:
                        p.viol(None, "lost", "the buffer is freed although it could not be resized")
                    continue
                if row is None:
                    p.viol(None, "unknown-type", "a buffer of a type that does not exist is resized")
                    continue
                b, s = handed(p, sym("size"), False)
                if s is None:
                    continue
                if p.blocks[b[1]][1] is None:
                    p.viol(None, "content", "the content is not kept when a buffer is resized")
                p.typed(b, ("fml32reinit",), s)
                own = [e for e in p.ev if e[0] == "set" and spot(e[1])[0] == deref(OWN)]
                if owned == OWN and not (own and p.user(own[-1][2]) == b):
                    p.viol(None, "owner", "the owner of the buffer does not learn where it is now", "realloc")
        rep.instance("function", "tprealloc %s" % tname(row))

    # ---- freeing
    f, args = fn("tpfree")
    for row in rows:
        for owned in (C0, OWN):
            for p in t.paths(f, row, ("ptr",), args=args, owned=owned, given=args[0]):
                if p.kind != "ret" or p.eng.decide(p.st, mk_eq(args[0], C0)) is True:
                    continue
                if not [e for e in p.ev if e[0] == "free"]:
                    p.viol(None, "not-freed", "the buffer is not freed")
                own = [e for e in p.ev if e[0] == "set" and spot(e[1])[0] == deref(OWN)]
                if owned == OWN and not (own and own[-1][2] == C0):
                    p.viol(None, "owner", "the owner of the buffer does not learn that it is gone", "free")
        rep.instance("function", "tpfree %s" % tname(row))
    f, args = fn("tptypes")
    for row in rows:
        for p in t.paths(f, row, ("ptr",), args=args):
            if p.kind == "ret" and p.val != ("c", -1):
                for a, field in ((args[1], "type"), (args[2], "subtype")):
                    if p.eng.decide(p.st, mk_eq(a, C0)) is False:
                        if not [e for e in p.ev if e[0] == "copy" and spot(e[1]) == (deref(a), {}) and
                                spot(e[2]) == (deref(args[0]), {None: t.off[field] - t.H}) and e[3] == ("c", t.width[field])]:
                            p.viol(None, "types", "the %s handed out is not that of the buffer" % field, field)
        rep.instance("function", "tptypes %s" % tname(row))

    # ---- import
    def imported(f, args, tag, refs, out):
        for row in rows + [None]:
            for p in t.paths(f, row, (), refs, args=args):
                given = ("ld", ("deref", out), 0)
                wr = [(i, e) for i, e in enumerate(p.ev) if e[0] == "copy" and spot(e[1])[0][0] == "deref" and
                      (spot(e[1])[0][1] == given or spot(e[1])[0][1] in p.blocks) and not p.zero(e[3])]
                if row is None and wr:
                    p.viol(wr[0][1], "unknown-type", "data of a type that does not exist are imported", tag)
                    continue
                for i, e in wr:
                    b, o = spot(e[1])
                    h = t.H if b[1] == given else 0
                    if lsub(o, {None: t.off["type"] - h}) != {}:
                        p.viol(e, "import-place", "imported data do not start at the type of the buffer", tag)
                    src = spot(e[2])
                    if not [x for x in p.ev[:i] if x[0] == "compare" and x[2] == "type" and x[1] == ("c", row) and spot(x[3]) == src]:
                        p.viol(e, "import-type", "data are imported before it is known that their type exists", tag)
                    least = t.H - t.off["type"]
                    if not p.ge0(lsub(lin(e[3]), {None: least})):
                        p.viol(e, "import-short", "data are imported that are too short to have a type", tag)
                good = p.kind == "ret" and p.val == C0 if tag == "tpimport" else p.kind == "ret"
                if not good:
                    continue
                cur = [e for e in p.ev if e[0] == "set" and spot(e[1]) == (deref(out), {})]
                if p.blocks and not (cur and p.user(cur[-1][2])):
                    p.viol(None, "moved", "the caller does not learn that the buffer has moved", tag)
                if not p.blocks and cur:
                    p.viol(cur[0], "moved", "the caller's buffer is replaced", tag)
                for i, e in wr:
                    b = spot(e[1])[0]
                    p.typed(b, ("fml32reinit",), p.recorded(b, len(p.ev)))
            rep.instance("function", "%s %s" % (tag, tname(row)))

    f, args = fn("tpimport")
    imported(f, args, "tpimport", ("obuf",), sym("obuf"))

    # ---- export
    f, args = fn("tpexport")
    used0 = t.H - t.off["type"]
    for row in rows:
        for p in t.paths(f, row, ("ibuf",), args=args, given=args[0]):
            if p.kind != "ret":
                continue
            wr = [e for e in p.ev if e[0] in ("copy", "base64encode") and spot(e[1])[0] == deref(sym("ostr"))]
            if p.val != C0:
                if wr:
                    p.viol(wr[0], "failed-export", "data are exported although failure is returned")
                continue
            if len(wr) != 1:
                p.viol(None, "no-export", "success is returned but nothing is exported")
                continue
            e = wr[0]
            if spot(e[1])[1] != {} or spot(e[2]) != (deref(args[0]), {None: -used0} if used0 else {}):
                p.viol(e, "export-place", "what is exported does not start at the type of the buffer")
            n = lsub(lin(e[3]), {None: used0})
            named = tname(row)
            got = [x for x in p.ev if x[0] == "strlen" or x[0] == "fml32used"]
            if named == "STRING":
                ok = any(x[0] == "strlen" and spot(x[1]) == (deref(args[0]), {}) and n == plus(lin(x[2]), 1) for x in got)
            elif named == "FML32":
                ok = any(x[0] == "fml32used" and spot(x[1]) == (deref(args[0]), {}) and n == lin(x[2]) for x in got)
            elif p.eng.decide(p.st, mk_eq(args[1], ("c", -1))) is True:
                ok = n == lin(("sym", "recorded"))
            else:
                ok = n == lin(args[1])
            if not ok:
                p.viol(e, "export-length", "the data exported are not those that the buffer holds", named)
            out = [x for x in p.ev if x[0] == "set" and spot(x[1])[0] == deref(sym("olen"))]
            need = lin(e[3]) if e[0] == "copy" else None
            if not out or need is not None and lin(out[-1][2]) != need:
                p.viol(e, "export-size", "the length handed out is not that of the exported data", named)
            if e[0] == "base64encode":
                end = [x for x in p.ev if x[0] == "set" and spot(x[1])[0] == deref(sym("ostr")) and x[2] == C0]
                if not end:
                    p.viol(e, "export-end", "an exported string does not end", named)
        rep.instance("function", "tpexport %s" % tname(row))

    # ---- messages
    for name, bufs, refs in (("fux::ipc::msg::set_data", ("data",), ()), ("fux::ipc::msg::get_data", (), ("data",))):
        f = prog.fn(name)
        pos = [sym("data"), sym("len")][:len(f["p"])]
        if bufs:
            for row in rows + [None]:
                for p in t.paths(f, row, bufs, refs, args=pos, given=pos[0]):
                    wr = [e for e in p.ev if e[0] == "copy"]
                    if p.kind == "ret" and p.eng.decide(p.st, mk_eq(pos[0], C0)) is False and not wr:
                        p.viol(None, "no-message", "a message is sent without the data of the buffer")
                    for e in wr:
                        if e[-1][3] is None:
                            p.viol(e, "outside", "the data of a message are not copied into it", "message")
                rep.instance("function", "message out %s" % tname(row))
        else:
            imported(f, pos, "message", refs, pos[0])
    rep.need("function", 20)
