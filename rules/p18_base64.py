"""Bytes turned into base64 text and back are the same bytes."""
from sa.lib import *
from sa.linear import Induction, const, lin, lsub, trips

EXPLAIN = ("Both directions of the base64 conversion.  Every write to the caller's space is decided bit by bit: where each bit of the "
           "value comes from (which input byte or character, which bit) is compared with what base64 says for that position, with "
           "positions as linear expressions of the turns of the loop; bounds, completeness, padding, refusals and the two tables follow.")

C0 = ("c", 0)
ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def tables(prog, fn):
    """Constant arrays: variable -> list of values."""
    res = {}

    def add(d, i):
        while i is not None and i["k"] in ("paren", "cast", "ewc") and not isinstance(i.get("a"), list):
            i = i.get("e")
        if i is None:
            return
        if i["k"] == "str":
            res[d] = [ord(c) for c in i["v"]] + [0]
        elif isinstance(i.get("a"), list) and len(i["a"]) >= 64:
            vs = [x.get("cv") if isinstance(x.get("cv"), int) else x.get("v") if isinstance(x.get("v"), int) else None for x in i["a"]]
            res[d] = vs
    for u, g in prog.globals.items():
        if (g.get("t") or {}).get("k") == "arr" and isinstance(g.get("init"), dict):
            add(u, g["init"])
    for f in prog.functions.values():
        if f.get("b") and f["file"] == fn["file"]:
            for n in walk(f["b"]):
                if n["k"] == "decl":
                    for v in n["v"]:
                        if (v.get("t") or {}).get("k") == "arr" and v.get("init") is not None:
                            add(v["d"], v["init"])
    return res


def inner(v):
    while v[0] == "conv":
        v = v[3]
    return v


class Code(Induction, FuxRule):
    """ts = (offsets written since the last turn began, table values whose validity is open, variables that keep it)"""
    bytes = True
    limit = 64
    unroll = 9
    narrow = True
    depth = 6

    def __init__(self, rep, prog, fn, tabs):
        super().__init__(rep)
        self.fn = fn
        self.tabs = tabs
        ptrs = [p for p in fn["p"] if p["t"]["k"] == "ptr"]
        ints = [p for p in fn["p"] if p["t"]["k"] == "int"]
        self.inp, self.out = [("sym", "p:" + p["n"]) for p in ptrs] or (None, None)
        self.ilen, self.olen = ([("sym", "p:" + p["n"]) for p in ints] + [None])[:2]
        self.unsigned = {self.ilen, self.olen}
        self.src = {}           # value -> offset of the input byte it is
        self.val = {}           # value -> (table, index) of the entry it is

    def opaque(self, fn):
        return fn["file"] != self.fn["file"]

    def may_throw(self, call):
        return None

    def limits(self, eng, st, a):
        lo, hi = super().limits(eng, st, a)
        if a in self.unsigned:
            lo = max(lo or 0, 0)
        return lo, hi

    # ---- helpers
    def off(self, p, v):
        f = lin(v)
        if f.get(p) != 1:
            return None
        f = dict(f)
        del f[p]
        return f

    def eq(self, eng, st, a, b):
        d = lsub(a, b)
        if not d:
            return True
        if const(d) is not None:
            return False
        return self.atleast0(eng, st, d) and self.atleast0(eng, st, lsub({}, d))

    def split(self, f, m):
        """f as m * q + j with 0 <= j < m; or None."""
        if any(k % m for a, k in f.items() if a is not None):
            return None
        c = f.get(None, 0)
        q = {a: k // m for a, k in f.items() if a is not None}
        if c // m:
            q[None] = c // m
        return q, c % m

    @staticmethod
    def mul(q, m, j=0):
        r = {a: k * m for a, k in q.items()}
        r[None] = r.get(None, 0) + j
        return {a: k for a, k in r.items() if k}

    def bits(self, t, depth=0):
        """Where each of the 32 low bits comes from: sets of (value, bit), lowest first; None if it can not be told."""
        if t[0] == "c":
            return [frozenset([1]) if t[1] >> i & 1 else frozenset() for i in range(32)]
        if t in self.src:
            return [frozenset([(t, i)]) if i < 8 else frozenset() for i in range(32)]
        if t[0] == "conv":
            b = self.bits(t[3])
            return b and b[:8 * t[1]] + [b[8 * t[1] - 1] if t[2] else frozenset()] * (32 - 8 * t[1])
        if t in self.val:
            tab = self.val[t][0]
            m = 0
            for x in tab:
                m |= x or 0
            return [frozenset([(t, i)]) if m >> i & 1 else frozenset() for i in range(32)]
        if t[0] == "op" and t[1] in ("<<", ">>") and t[3][0] == "c":
            b = self.bits(t[2])
            if b is None:
                return None
            n = t[3][1]
            z = [frozenset()] * n
            return (z + b)[:32] if t[1] == "<<" else b[n:] + z
        if t[0] == "op" and t[1] == "*" and t[3][0] == "c" and t[3][1] > 0 and not t[3][1] & (t[3][1] - 1):
            return self.bits(("op", "<<", t[2], ("c", t[3][1].bit_length() - 1)))
        if t[0] == "op" and t[1] in ("/", "%") and t[3][0] == "c" and t[3][1] > 0 and not t[3][1] & (t[3][1] - 1):
            n = t[3][1].bit_length() - 1
            return self.bits(("op", ">>", t[2], ("c", n)) if t[1] == "/" else ("op", "&", t[2], ("c", t[3][1] - 1)))
        if t[0] == "op" and t[1] == "&":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if y[0] == "c":
                    b = self.bits(x)
                    return b and [b[i] if y[1] >> i & 1 else frozenset() for i in range(32)]
            return None
        if t[0] == "op" and t[1] in ("|", "+", "^"):
            a, b = self.bits(t[2]), self.bits(t[3])
            if a is None or b is None:
                return None
            if t[1] != "|" and any(x and y for x, y in zip(a, b)):
                return None
            return [x | y for x, y in zip(a, b)]
        if t[0] == "sym":
            return [frozenset([(t, i)]) if i < 8 else frozenset() for i in range(32)]
        return None

    def bad(self, eng, st, rule, msg, line):
        self.rep.violation(self.fn["file"], line, self.fn["n"], rule, msg, "%s|%s|%s" % (rule, self.fn["n"], line), st.trace())

    # ---- hooks
    def iter_begin(self, eng, st, s):
        if trips(s) is not None:
            return
        st.ts = (frozenset(), st.ts[1], st.ts[2], tuple(sorted(((m, v) for m, v in st.env.items() if m[0] == "var" and
                 (v[0] == "sym" or v[0] == "c")), key=repr)))

    def iter_end(self, eng, st, s, how):
        w, opn, keep, head = st.ts
        if how == "return" or trips(s) is not None:
            return
        if not s.get("l"):
            return
        self.turn(eng, st, s, w, how)
        opn = {v for v in opn if not self.tested(st, v)}
        if opn:
            keep = set()
            for m, old in head:
                b = self.bits(st.env.get(m, C0))
                if b is None:
                    continue
                top = b[7]
                if all((v, 7) in top for v in opn) and (old == C0 or (old, 7) in top):
                    keep.add(m)
            if not keep:
                self.bad(eng, st, "unnoticed", "a character that is not base64 may go unnoticed", s["l"])
            opn = set()
        elif keep:
            keep = {m for m, old in head if m in keep and (self.bits(st.env.get(m, C0)) or [()] * 8)[7] >= {(old, 7)}}
        st.ts = (frozenset(), frozenset(opn), frozenset(keep), ())

    def loop_done(self, eng, st, s):
        if trips(s) is not None:
            return
        w, opn, keep, _ = st.ts
        # any of these variables tells
        vs = sorted((st.env[m] for m in keep if m in st.env and st.env[m][0] == "sym"), key=repr)
        st.ts = (frozenset(), opn | frozenset(vs[:1]), frozenset(), ())

    def turn(self, eng, st, s, w, how):
        m, n = (4, 3) if self.encode else (3, 4)
        fs = [dict(x) for x in w]
        if not fs:
            return
        sp = [self.split(f, m) for f in fs]
        if None in sp or len({frozenset(q.items()) for q, _ in sp}) != 1:
            return self.bad(eng, st, "gap", "a turn of the loop does not write one group of output", s["l"])
        q = sp[0][0]
        K = self.turns(s)
        if q not in ({}, {K: 1}) and [k for a, k in q.items() if a == K] != [1]:
            self.bad(eng, st, "gap", "the output of the turns of a loop is not side by side", s["l"])
        if {j for _, j in sp} != set(range(m)) and how == "next" and not self.last(eng, st, q):
            self.bad(eng, st, "gap", "a turn of the loop leaves out a part of the output", s["l"])

    def last(self, eng, st, q):
        return not self.encode and self.atleast0(eng, st, lsub(self.mul(q, 4, 4), {self.ilen: 1}))

    def tested(self, st, v):
        """Is it known that the value marks no invalid character?"""
        if v in self.val:
            tab = self.val[v][0]
        for f, r in st.facts.items():
            if f[0] == "==" and r is True and C0 in (f[1], f[2]):
                b = self.bits(f[2] if f[1] == C0 else f[1])
                if b is not None and any((v, 7) in x for x in b):
                    return True
            if f[0] == "<" and inner(f[1]) == v and f[2][0] == "c" and f[2][1] <= 128 and r is True:
                return True
            if f[0] == "<" and r is True and f[2][0] == "c" and f[2][1] <= 128:
                b = self.bits(f[1])
                if b is not None and (v, 7) in b[7]:
                    return True
            if f[0] == "==" and r is False and inner(f[1]) == v and f[2][0] == "c" and f[2][1] >= 128 and v in self.val and \
                    {x for x in tab if x >= 64} == {f[2][1]}:
                return True
        return False

    def load(self, eng, st, loc, node):
        if loc[0] == "deref" or loc[0] == "idx" and self.off(self.inp, addr(loc)) is not None:
            o = self.off(self.inp, loc[1]) if loc[0] == "deref" else self.off(self.inp, addr(loc))
            if o is not None:
                v = eng.lookup(st, loc)
                line = (node or {}).get("l") or eng.line
                self.src[v] = o
                t = (node or {}).get("t") or {}
                if t.get("k") == "ptr" or t.get("z", 1) != 1:
                    return self.bad(eng, st, "value", "the input is not read byte by byte", line)
                self.rep.instance("read", "%s:%s" % (self.fn["n"], line))
                if not self.atleast0(eng, st, o) or not self.atleast0(eng, st, lsub(lsub({self.ilen: 1}, o), {None: 1})):
                    self.bad(eng, st, "beyond", "a read may go beyond the input", line)
                return
            o = self.off(self.out, loc[1]) if loc[0] == "deref" else None
        if loc[0] == "idx" and loc[1][0] == "var" and loc[1][1] in self.tabs:
            tab = self.tabs[loc[1][1]]
            v = eng.lookup(st, loc)
            if v[0] == "c":
                return
            i = loc[2]
            x = strip(node)
            t = ((x.get("i") if x is not None and x["k"] == "idx" else None) or {}).get("t") or {}
            b = self.bits(("conv", t["z"], True, i) if t.get("sg") and t.get("z", 8) < 4 else i)
            self.val[v] = (tab, i)
            i = inner(i)
            line = (node or {}).get("l") or eng.line
            top = None if b is None else max([k for k in range(32) if b[k]], default=-1)
            if top is None or 1 << top + 1 > len(tab):
                self.bad(eng, st, "beyond", "a read may go beyond the table of %d entries" % len(tab), line)
            if not self.encode:
                self.entry(eng, st, tab, v, i, line)

    def entry(self, eng, st, tab, v, i, line):
        """A character is looked up."""
        o = self.src.get(i)
        if o is None:
            return self.bad(eng, st, "value", "what is looked up is not a character of the input", line)
        sp = self.split(o, 4)
        if sp is None:
            return self.bad(eng, st, "value", "a character is looked up out of order", line)
        q, j = sp
        if j >= 2 and not any(f[0] == "==" and r is False and ("c", 61) in (f[1], f[2]) and i in (inner(f[1]), inner(f[2]))
                              for f, r in st.facts.items()) and \
                not self.atleast0(eng, st, lsub({self.ilen: 1}, self.mul(q, 4, 5))):
            self.bad(eng, st, "padding", "padding may be taken for an invalid character", line)
        if not self.tested(st, v):
            st.ts = (st.ts[0], st.ts[1] | {v}) + st.ts[2:]

    def store(self, eng, st, loc, val, node):
        if loc[0] not in ("deref", "idx"):
            return
        o = self.off(self.out, addr(loc)) if loc[0] == "idx" else self.off(self.out, loc[1])
        if o is None:
            if self.off(self.inp, addr(loc) if loc[0] == "idx" else loc[1]) is not None:
                self.bad(eng, st, "value", "the input is changed", (node or {}).get("l"))
            return
        line = (node or {}).get("l") or eng.line
        self.rep.instance("write", "%s:%s" % (self.fn["n"], line))
        if not self.atleast0(eng, st, o) or not self.atleast0(eng, st, lsub(lsub({self.olen: 1}, o), {None: 1})):
            return self.bad(eng, st, "beyond", "a write may go beyond the space of the caller", line)
        st.ts = (st.ts[0] | {frozenset(o.items())},) + st.ts[1:]
        m = 4 if self.encode else 3
        sp = self.split(o, m)
        if sp is None:
            return self.bad(eng, st, "value", "the place of a part of the output can not be told", line)
        (self.char if self.encode else self.byte)(eng, st, sp[0], sp[1], val, line)

    def char(self, eng, st, q, j, val, line):
        # the first byte that has a bit in this character
        first = self.mul(q, 3, 6 * j // 8)
        more = lsub(lsub({self.ilen: 1}, first), {None: 1})
        if val == ("c", 61):
            if not self.atleast0(eng, st, lsub({None: -1}, more)):
                self.bad(eng, st, "value", "a character that has bits of the input may be padding", line)
            return
        val = inner(val)
        if val not in self.val:
            return self.bad(eng, st, "value", "a character is not one of the table", line)
        if not self.atleast0(eng, st, more):
            self.bad(eng, st, "padding", "padding may be missing", line)
        tab, i = self.val[val]
        if tab[:64] != [ord(c) for c in ALPHABET]:
            self.bad(eng, st, "table", "the table of characters is not that of base64", line)
        b = self.bits(i)
        for k in range(32):
            want = None
            if k < 6:
                B = 6 * j + 5 - k
                want = (self.mul(q, 3, B // 8), 7 - B % 8)
            got = b[k] if b is not None else None
            if got is None or not self.same(eng, st, got, want):
                return self.bad(eng, st, "value", "bit %d of character %d of a group is not the bit of the input it stands for" % (k, j), line)

    def same(self, eng, st, got, want):
        if want is None:
            return not got
        if not got:
            # bits behind the end are 0
            return self.atleast0(eng, st, lsub(want[0], {self.ilen: 1}))
        if len(got) != 1:
            return False
        g, = got
        return g != 1 and g[0] in self.src and g[1] == want[1] and self.eq(eng, st, self.src[g[0]], want[0])

    def byte(self, eng, st, q, j, val, line):
        b = self.bits(val)
        for k in range(8):
            B = 8 * j + 7 - k
            o, bit = self.mul(q, 4, B // 6), 5 - B % 6
            if b is None:
                return self.bad(eng, st, "value", "what a byte is made of can not be told", line)
            ok = [g for g in b[k] if g != 1 and g[0] in self.val and g[1] == bit and self.src.get(inner(self.val[g[0]][1])) is not None and
                  self.eq(eng, st, self.src[inner(self.val[g[0]][1])], o)]
            rest = [g for g in b[k] if g not in ok and not (g != 1 and g[0] in self.val and g[1] == 7)]
            if len(ok) != 1 or rest:
                return self.bad(eng, st, "value", "bit %d of byte %d of a group is not the bit of the text it stands for" % (k, j), line)

    # ---- results
    def result(self, eng, st, v):
        f = lin(v)
        L = {self.ilen: 1}
        sp = self.split(f, 4 if self.encode else 3)
        line = self.fn["l"]
        if self.dead(st):
            return
        if sp is None:
            return self.bad(eng, st, "length", "the length that is returned can not be told", line)
        q, j = sp
        if self.encode:
            ok = j == 0 and self.atleast0(eng, st, lsub(self.mul(q, 3), L)) and self.atleast0(eng, st, lsub(L, self.mul(q, 3, -2)))
        elif j == 0:
            ok = self.eq(eng, st, self.mul(q, 4), L)
        else:
            ok = self.eq(eng, st, self.mul(q, 4, 4), L) and all(self.padded(eng, st, q, i) for i in range(j, 3))
        if not ok:
            self.bad(eng, st, "length", "the length that is returned is not that of the output", line)
        if self.olen is None:
            return
        # what is written behind the last loop
        w = [dict(x) for x in st.ts[0]]
        for x in w:
            if not self.atleast0(eng, st, lsub(lsub(f, x), {None: 1})):
                self.bad(eng, st, "length", "the length that is returned leaves out some output", line)
        have = {lsub(f, x).get(None, 0) for x in w if set(lsub(f, x)) <= {None}}
        lo = self.base(st, f)
        if lo is not None:
            k = const(lsub(f, lo))
            if k is None or have != set(range(1, k + 1)):
                self.bad(eng, st, "gap", "not every part of the output is written", line)
        for v2 in st.ts[1]:
            if not self.tested(st, v2):
                return self.bad(eng, st, "unnoticed", "a character that is not base64 may go unnoticed", line)

    def dead(self, st):
        """A bit that is set was found clear."""
        for f, r in st.facts.items():
            if f[0] == "==" and r is True and C0 in (f[1], f[2]):
                b = self.bits(f[2] if f[1] == C0 else f[1])
                if b is not None and any(1 in x for x in b):
                    return True
        return False

    def base(self, st, f):
        """Output written by the last loop: its turns times a group."""
        g = 4 if self.encode else 3
        t = {a: k for a, k in f.items() if a is not None}
        if not t:
            return {}
        if all(str(a[1]).startswith("turns@") and k == g for a, k in t.items()):
            return t
        return None

    def padded(self, eng, st, q, j):
        for f, r in st.facts.items():
            if f[0] == "==" and r is True and ("c", 61) in (f[1], f[2]):
                x = inner(f[2] if f[1] == ("c", 61) else f[1])
                if x in self.src and self.eq(eng, st, self.src[x], self.mul(q, 4, j + 1)):
                    return True
        return False

    def refusal(self, eng, st, ty):
        L, O = {self.ilen: 1}, {self.olen: 1}
        line = self.fn["l"]
        if self.encode:
            # less space than the groups need: olen < 4 * ceil(ilen / 3), so 3 * olen < 4 * ilen + 8
            q = mk_op("/", self.ilen, ("c", 3))
            rem = mk_eq(mk_op("%", self.ilen, ("c", 3)), C0)
            ok = True
            for even in (True, False):
                if eng.decide(st, rem) is (not even) or eng.decide(st, mk_lt(mk_op("%", self.ilen, ("c", 3)), ("c", 1))) is (not even):
                    continue
                s2 = st.copy()
                s2.facts[rem] = even
                ok = ok and self.atleast0(eng, s2, lsub({q: 4, None: -1 if even else 3}, O))
            if ok:
                return
        else:
            q = mk_op("/", self.ilen, ("c", 4))
            if self.atleast0(eng, st, lsub({q: 3, None: -1}, O)):
                return
            if eng.decide(st, mk_eq(mk_op("%", self.ilen, ("c", 4)), C0)) is False:
                return
            if any(x in self.val or x[0] == "sym" and str(x[1]).startswith("loop") for f in st.facts for x in subterms(f)):
                return
        self.bad(eng, st, "refused", "input may be refused although it is valid and there is space", line)


def check(prog, rep):
    n = 0
    for name, enc in (("base64encode", True), ("base64decode", False), ("base64chars", True)):
        for u, f in sorted(prog.functions.items()):
            if base(f["n"]).split("::")[-1] != name or not f.get("b"):
                continue
            n += 1
            rule = Code(rep, prog, f, tables(prog, f))
            rule.encode = enc
            for d, t in rule.tabs.items():
                if len(t) >= 128:
                    rep.instance("table", d)
                    for c, v in enumerate(t):
                        if chr(c) in ALPHABET and v != ALPHABET.index(chr(c)) or chr(c) not in ALPHABET and not (v or 0) & 128:
                            rep.violation(f["file"], f["l"], f["n"], "table", "the value of character %d is not that of base64" % c,
                                          key="table|%d" % c)
            st = State(ts=(frozenset(), frozenset(), frozenset(), ()))
            eng, outs, _ = run_root(prog, rule, f, st, rep=rep)
            for o in outs:
                rep.instance("outcome", "%s %s" % (f["n"], o[0]))
                if o[0] == "ret":
                    rule.result(eng, o[1], o[2])
                else:
                    rule.refusal(eng, o[1], o[2])
    if n < 2:
        rep.violation("src/base64.cpp", 1, "", "missing", "a direction of the conversion is missing", key="missing")
    rep.need("write", 6)
    rep.need("read", 6)
