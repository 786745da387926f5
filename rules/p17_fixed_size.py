"""Nothing is written beyond, or read behind, a place of fixed size."""
import re
from sa.lib import *
from sa.linear import Induction, const, lin, lsub

EXPLAIN = ("Every call that copies or formats bytes and every subscript, in every function of the library and the programs, "
           "whose target resolves (through pointers, references, casts and calls) to an object of a size the type fixes.  "
           "Path-sensitive evaluation collects what the path knows about lengths; a linear inequality derived from it must "
           "show that offset plus bytes stay within the size.  Texts copied by length must get their end.")

C0, C1 = ("c", 0), ("c", 1)
COPY = {"memcpy": (0, 1, 2), "memmove": (0, 1, 2), "memset": (0, None, 2), "strncpy": (0, 1, 2), "bcopy": (1, 0, 2),
        "std::copy_n": (2, 0, 1), "std::fill_n": (0, None, 1), "mempcpy": (0, 1, 2), "strlcpy": (0, 1, 2)}
TEXT = {"strcpy": (0, 1), "stpcpy": (0, 1), "strcat": (0, 1), "strncat": (0, 1)}
FORMAT = {"sprintf": (0, None, 1), "vsprintf": (0, None, 1), "snprintf": (0, 1, 2), "vsnprintf": (0, 1, 2)}
XIDLEN = {"gtrid_length": 64, "bqual_length": 64}       # what X/Open says about identifiers made elsewhere
LEN = ("strlen", "std::strlen", "__builtin_strlen", "std::char_traits::length")


def plain(n):
    n = base(n or "")
    if n.startswith("__builtin_"):
        n = n[10:].replace("___", "").replace("_chk", "")
    if n.startswith("std::mem") or n.startswith("std::str") or n in ("std::sprintf", "std::snprintf", "std::vsnprintf"):
        n = n[5:]
    return n


def is_site(n):
    return plain(n) in COPY or plain(n) in TEXT or plain(n) in FORMAT or plain(n) in ("std::copy", "std::fill")


def longest(fmt, args):
    """Most characters a format can make, or None."""
    n, i, pos = 0, 0, 0
    for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([a-zA-Z%])", fmt):
        n += m.start() - pos
        pos = m.end()
        conv, width, prec, mod = m.group(5), m.group(2), m.group(3), m.group(4) or ""
        if conv == "%":
            n += 1
            continue
        if "*" in (width, prec):
            return None
        bits = {"hh": 8, "h": 16, "l": 64, "ll": 64, "j": 64, "z": 64, "t": 64}.get(mod, 32)
        w, p = int(width or 0), int(prec) if prec else None
        if conv in "di":
            k = len(str(1 << (bits - 1))) + 1
        elif conv == "u":
            k = len(str(1 << bits))
        elif conv in "xX":
            k = bits // 4 + 2
        elif conv == "o":
            k = bits // 3 + 2
        elif conv == "c":
            k = 1
        elif conv in "fF":
            k = 311 + (6 if p is None else p)
        elif conv in "eEgG":
            k = 9 + (6 if p is None else p)
        elif conv == "p":
            k = 18
        elif conv == "s":
            a = args[i] if i < len(args) else None
            if p is not None:
                k = p
            elif a is not None and a[0] == "s":
                k = len(a[1])
            else:
                return None
        else:
            return None
        i += 1
        n += max(k, w, p or 0)
    return n + len(fmt) - pos


class Place(Induction, FuxRule):
    """ts = ends of texts that are still missing: ((array, offset), ...)"""
    bytes = True
    limit = 64
    unroll = 0
    widths = True

    def __init__(self, rep, prog, relevant, header):
        super().__init__(rep)
        self.prog = prog
        self.relevant = relevant
        self.header = header
        self.small = {}         # values read as unsigned integers of one or two bytes
        self.given = set()      # lengths that this function put into a transaction identifier

    def opaque(self, fn):
        if fn.get("lam"):
            return False
        if fn["u"] in self.relevant:
            return False
        return True

    def may_throw(self, call):
        return None

    # ---- where a pointer points
    def where(self, eng, v):
        """(object, bytes of it, bytes of an element, offset) of a pointer into an object of known size."""
        if not isinstance(v, tuple):
            return None
        f = lin(v)
        at = [a for a, k in f.items() if a is not None and k == 1 and (a[0] == "addr" or ("deref", a) in eng.arrays)]
        if len(at) != 1:
            return None
        off = {a: k for a, k in f.items() if a != at[0]}
        loc = at[0][1] if at[0][0] == "addr" else ("deref", at[0])
        while loc[0] == "idx":
            off = lsub(off, {a: -k for a, k in lin(loc[2]).items()})
            loc = loc[1]
        z = eng.arrays.get(loc)
        if z is None and loc in eng.objects:
            z = (eng.objects[loc], 0)
        if z is None or z[0] in (None, 0) :
            return None
        if z[1] and z[0] // z[1] <= 1 and loc[0] == "fld":
            return None         # the first element of as many as there are
        return loc, z[0], z[1], off

    # ---- linear reasoning
    def limits(self, eng, st, a):
        if a[0] == "range":
            return a[2], a[3]
        if a[0] == "conv" and not a[2]:
            return 0, (1 << 8 * a[1]) - 1
        lo, hi = super().limits(eng, st, a)
        if a[0] == "strlen":
            lo = max(lo or 0, 0)
        if a in self.small:
            lo = max(lo or 0, 0)
            hi = self.small[a] if hi is None else min(hi, self.small[a])
        return lo, hi

    def within(self, eng, st, w, n, line, what, size=None):
        """Offset at least 0, offset and bytes at most the size."""
        loc, z, ez, off = w
        self.rep.instance("site", "%s:%s" % (eng.curfile(), line))
        if not self.atleast0(eng, st, off):
            self.fail(eng, st, "before", "%s may start before a place of %d bytes" % (what, z), line)
        elif not self.atleast0(eng, st, lsub(lsub({None: z}, off), n)):
            self.fail(eng, st, "beyond", "%s may go beyond a place of %d bytes" % (what, z), line)

    def fail(self, eng, st, rule, msg, line=None, key=None, node=None):
        super().fail(eng, st, rule, msg, line, key or "%s|%s|%s" % (rule, (eng.cur() or {}).get("n"), line), node)

    # ---- sources
    def text(self, eng, st, v):
        """Length of the text at a pointer: a term, or None."""
        if v[0] == "s":
            return ("c", len(v[1]))
        if v[0] == "sym" and deref(v) in self.strings:
            return eng.lookup(st, ("fld", deref(v), "$size"))
        if v[0] == "addr":
            l = v[1]
            if l[0] == "idx" and l[2] == C0:
                s = st.env.get(("fld", l[1], "$size"))
                if s is None and l[1] in self.strings:
                    s = eng.lookup(st, ("fld", l[1], "$size"))
                if s is not None:
                    return s
            w = self.where(eng, v)
            if w is not None and w[2] == 1 and not [a for a in w[3] if a is not None]:
                return ("range", "text", 0, w[1] - w[3].get(None, 0) - 1)
        return ("strlen", v)

    strings = ()

    def end(self, eng, st, w, n, src):
        """A text copied by its length has no end yet."""
        if w is None or w[2] != 1 or src is None:
            return
        ln = self.text(eng, st, src)
        if ln is None:
            return
        k = const(n)
        if ln[0] == "range" and const(lsub(n, lin(ln))) != 0:
            r = self.where(eng, src)
            if r is None or r[2] != 1 or k is None or k != ln[3] or not self.shared(w[0]) and not w[0][0] == "var":
                return
            ln = ("c", k)
        if k == 0:
            return
        if const(lsub(n, lin(ln))) == 0:
            o = {a: k + (w[3].get(a, 0)) for a, k in n.items()}
            o.update({a: k for a, k in w[3].items() if a not in n})
            st.ts = st.ts + ((w[0], frozenset((a, k) for a, k in o.items() if k), eng.curfile(), eng.cur()["n"], eng.line),)

    def ended(self, st, loc, off):
        f = frozenset((a, k) for a, k in off.items() if k)
        st.ts = tuple(x for x in st.ts if not (x[0] == loc and x[1] == f))

    # ---- hooks
    def store(self, eng, st, loc, val, node):
        if loc[0] == "fld" and loc[2] in XIDLEN and val not in self.small:
            self.given.add(val)
        if loc[0] not in ("idx", "deref") or node is None:
            return
        w = self.where(eng, addr(loc))
        if w is None or not w[2]:
            return
        if val == C0:
            self.ended(st, w[0], w[3])
        z = ((node.get("a") or node.get("e") or {}).get("t") or {}).get("z") or w[2]
        self.within(eng, st, w, {None: z}, node.get("l"), "a write")

    def load(self, eng, st, loc, node):
        if loc[0] == "fld" and loc[2] in XIDLEN and node is not None:
            v = eng.lookup(st, loc)
            if v not in self.given and v[0] != "c":
                self.small[v] = XIDLEN[loc[2]]
        t = (node or {}).get("t") or {}
        if t.get("k") == "int" and t.get("z") in (1, 2) and not t.get("sg"):
            self.small[eng.lookup(st, loc)] = (1 << 8 * t["z"]) - 1
        if loc[0] != "idx" or node is None:
            return
        w = self.where(eng, addr(loc))
        if w is None or not w[2]:
            return
        off = w[3]
        self.within(eng, st, w, {None: (node.get("t") or {}).get("z") or w[2]}, node.get("l"), "a read")

    def call(self, eng, st, call):
        n = plain(call.name)
        a = call.args
        eng.line = call.line
        if n == "strnlen" and len(a) == 2:
            r = eng.fresh(st, n, call.line)
            st.facts[mk_lt(r, C0)] = False
            st.facts[mk_lt(r, mk_add(a[1], C1))] = True
            return [("ret", st, r)]
        if n in LEN and len(a) == 1:
            return [("ret", st, self.text(eng, st, a[0]))]
        if n.startswith("std::basic_string") and call.obj is not None:
            self.strings = set(self.strings) | {call.obj}
            m = n.split("::")[-1]
            if m in ("begin", "cbegin"):
                return [("ret", st, addr(mk_idx(call.obj, C0)))]
            if m in ("end", "cend"):
                return [("ret", st, addr(mk_idx(call.obj, eng.lookup(st, ("fld", call.obj, "$size")))))]
        if n in COPY and len(a) > 2:
            d, s, c = COPY[n]
            w = self.where(eng, a[d])
            if w is not None:
                k = lin(a[c])
                if n in ("std::copy_n", "std::fill_n"):
                    ez = self.pointee(call, d)
                    k = {x: y * ez for x, y in k.items()}
                self.within(eng, st, w, k, call.line, n + "()")
                if n != "strncpy":
                    if s is not None:
                        self.end(eng, st, w, k, a[s])
                    elif a[1] == C0 or n == "std::fill_n" and a[2] == C0:
                        st.ts = tuple(x for x in st.ts if x[0] != w[0])
                elif self.where(eng, a[d])[0] and not self.inheader(w[0]):
                    self.cut(eng, st, w, lin(self.text(eng, st, a[s])), k, call.line, n)
            if s is not None:
                r = self.where(eng, a[s])
                if r is not None and n != "strncpy":
                    k = lin(a[c])
                    if n == "std::copy_n":
                        ez = self.pointee(call, s)
                        k = {x: y * ez for x, y in k.items()}
                    self.within(eng, st, r, k, call.line, n + "() reading")
            self.clobber(eng, st, a[d], call)
            return [("ret", st, a[d])]
        if n in TEXT:
            w = self.where(eng, a[0])
            if w is not None and eng_sized(w):
                if n in ("strcat", "strncat"):
                    self.within(eng, st, w, {("unknown", "text there"): 1}, call.line, n + "()")
                else:
                    k = lin(mk_add(self.text(eng, st, a[1]), C1))
                    self.within(eng, st, w, k, call.line, n + "()")
            self.clobber(eng, st, a[0], call)
            return [("ret", st, a[0])]
        if n in FORMAT:
            d, z, f = FORMAT[n]
            w = self.where(eng, a[d])
            r = eng.fresh(st, n, call.line)
            st.facts[mk_lt(r, C0)] = False
            fmt = a[f] if len(a) > f else None
            most = longest(fmt[1], a[f + 1:]) if fmt is not None and fmt[0] == "s" and not n.startswith("v") else None
            if most is not None:
                st.facts[mk_lt(r, ("c", most + 1))] = True
            if w is not None:
                if z is None:
                    self.within(eng, st, w, {("unknown", "formatted text"): 1} if most is None else {None: most + 1}, call.line, n + "()")
                else:
                    self.within(eng, st, w, lin(a[z]), call.line, n + "()")
                    if not self.atleast0(eng, st, lin(a[z])):
                        self.fail(eng, st, "beyond", "the room given to %s() may be less than nothing" % n, call.line)
                    if most is None and fmt is not None and fmt[0] == "s" and re.fullmatch(r"%s", fmt[1]) and self.shared(w[0]):
                        self.cut(eng, st, w, lin(self.text(eng, st, a[f + 1])), lin(a[z]), call.line, n)
            self.clobber(eng, st, a[d], call)
            return [("ret", st, r)]
        if n in ("std::copy", "std::fill") and len(a) == 3:
            dst, cnt = (a[2] if n == "std::copy" else a[0]), lsub(lin(a[1]), lin(a[0]))
            w = self.where(eng, dst)
            if w is not None:
                self.within(eng, st, w, cnt, call.line, n + "()")
                self.clobber(eng, st, dst, call)
                return [("ret", st, dst)]
            return None
        return FuxRule.call(self, eng, st, call)

    def cut(self, eng, st, w, ln, room, line, n):
        """A text has to fit with its end."""
        if not self.atleast0(eng, st, lsub(lsub(room, ln), {None: 1})):
            self.fail(eng, st, "cut", "%s() stores a text that is too long in part" % n, line)

    def shared(self, loc):
        """Part of a record that others see (not a buffer of the function)."""
        return loc[0] in ("fld", "deref")

    def inheader(self, loc):
        return loc[0] == "fld" and loc[2] in self.header

    def pointee(self, call, i):
        x = (call.node.get("args") or [])[i]
        t = (x or {}).get("t") or {}
        if t.get("k") == "ref":
            t = t.get("p") or {}
        return (t.get("p") or {}).get("z") or 1

    def clobber(self, eng, st, v, call):
        if v[0] == "addr":
            eng.havoc(st, v[1][1] if v[1][0] == "idx" else v[1], call.line)


def eng_sized(w):
    return bool(w[2])


def check(prog, rep):
    hdr = set()
    for n, r in prog.records.items():
        fs = {f["n"] for f in r.get("fields", [])}
        if {"type", "subtype"} <= fs and all((f["t"] or {}).get("k") == "arr" for f in r["fields"] if f["n"] in ("type", "subtype")):
            hdr |= {"type", "subtype"}
    direct, passed = {}, {}
    for u, f in sorted(prog.functions.items()):
        if not f.get("b") or (f.get("rec") or "").startswith("Fbfr32") and not (f.get("rec") or "").startswith("Fbfr32fields"):
            continue
        for n in walk(f["b"]):
            if n["k"] == "call" and is_site(n.get("n")):
                direct[u] = f
                x = plain(n["n"])
                d = (COPY.get(x) or TEXT.get(x) or FORMAT.get(x) or ({"std::copy": 2}.get(x, 0),))[0]
                a = strip((n.get("args") or [None])[d]) if len(n.get("args") or ()) > d else None
                if a is not None and a["k"] == "ref" and a.get("dk") == "parm" and (a.get("dt") or {}).get("k") == "ptr":
                    if not f.get("externc"):
                        passed[u] = f
            elif n["k"] == "idx":
                t = (strip(n["e"]) or {}).get("t") or {}
                if t.get("k") == "arr":
                    direct[u] = f
            elif n["k"] == "decl":
                for v in n["v"]:
                    if (v.get("t") or {}).get("k") == "ptr" and v.get("init") is not None and decays(v["init"]):
                        direct[u] = f
    roots = dict(direct)
    cs = callers(prog)
    relevant = set(passed)
    for u in passed:
        for c in cs.get(u, ()):
            if prog.functions[c].get("b"):
                roots[c] = prog.functions[c]
    for u, f in sorted(roots.items()):
        if f.get("lam"):
            continue
        rule = Place(rep, prog, relevant - {u}, hdr)
        st = State(ts=())
        eng, outs, _ = run_root(prog, rule, f, st, rep=rep)
        for o in outs:
            if o[0] == "ret":
                for m, v in sorted(o[1].env.items(), key=repr):
                    if m[0] == "fld" and m[2] in XIDLEN and v in rule.given:
                        rep.instance("identifier", f["n"])
                        if not (rule.atleast0(eng, o[1], lin(v)) and rule.atleast0(eng, o[1], lsub({None: XIDLEN[m[2]]}, lin(v)))):
                            rep.violation(f["file"], f["l"], f["n"], "identifier", "the length of a part of a transaction identifier may be "
                                          "more than %d" % XIDLEN[m[2]], key="identifier|%s|%s" % (f["n"], m[2]), trace=o[1].trace())
                for loc, off, file, fn, line in o[1].ts:
                    rep.violation(file, line, fn, "no-end", "a text is stored without its end", key="no-end|%s|%s" % (fn, line),
                                  trace=o[1].trace())
    rep.need("site", 15)


def decays(e):
    return any(n["k"] == "cast" and n.get("ck") == "ArrayToPointerDecay" and strip(n["e"]).get("k") != "str" for n in walk(e))
