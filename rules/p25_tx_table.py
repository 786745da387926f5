"""Global transactions have identifiers and table entries of their own."""
from .txsim import *
from .p26_kinds import NAMES, conflicts

EXPLAIN = ("Path-sensitive simulation of every function of the shared transaction table (which entry is taken, that it "
           "was free, what is left in it, which entry a look-up returns and what was compared for it, which group is "
           "marked) and of the functions that make an identifier (bit fields of the number that do not overlap, the "
           "counter drawn atomically, every byte of it in the identifier).")

THIS = ("sym", "this")
FREE = ("c", -1)
COPIES = ("memcpy", "__builtin_memcpy", "memmove", "std::memcpy", "std::memmove", "std::copy_n", "std::copy")


class TableRule(FuxRule):
    """Events: ("clear", to, value, size), ("copy", to, from, size), ("set", place, value)"""
    limit = 300

    def opaque(self, fn):
        return False if fn.get("rec") == "transaction_table" else super().opaque(fn)

    def ev(self, st, e):
        st.ts = st.ts + (e,)

    def call(self, eng, st, call):
        n = base(call.name)
        a = call.args
        if n in ("memset", "std::memset", "__builtin_memset", "bzero", "std::fill_n"):
            to, v, z = (a[0], C0, a[1]) if n == "bzero" else (a[0], a[2], a[1]) if n == "std::fill_n" else a[:3]
            self.ev(st, ("clear", to, v, z, call.line))
            eng.havoc(st, deref(to) if to[0] != "addr" else to[1], call.line)
            return [("ret", st, to)]
        if n == "std::equal" and len(a) == 3:
            z = eng_diff(("range", a[0], a[1]))
            return [("ret", st, mk_eq(("call", "memcmp", (), (), a[0], a[2], z), C0))]
        if n in COPIES:
            to, fr, z = (a[2], a[0], a[1]) if n.endswith("copy_n") else (a[2], a[0], ("range", a[0], a[1])) \
                if n == "std::copy" else a[:3]
            val = eng.lookup(st, fr[1] if fr[0] == "addr" else deref(fr))
            self.ev(st, ("copy", to, fr, z, call.line, val))
            eng.havoc(st, deref(to) if to[0] != "addr" else to[1], call.line)
            return [("ret", st, to)]
        return super().call(eng, st, call)

    def store(self, eng, st, loc, val, node):
        if root(loc)[0] != "var":
            self.ev(st, ("set", loc, val, (node or {}).get("l", 0) if isinstance(node, dict) else 0))


def L(st, eng, loc):
    return eng.lookup(st, loc)


def known(eng, st, atom, want=True):
    if st.facts.get(atom) is want:
        return True
    try:
        return eng.decide(st, atom) is want
    except Exception:
        return False


def was(st, loc, val):
    """Some value of loc read on the path was val."""
    for f, v in st.facts.items():
        if v is True and f[0] == "==":
            for x, y in ((f[1], f[2]), (f[2], f[1])):
                if x[0] == "ld" and x[1] == loc and y == val:
                    return True
    return False


def wasnt(st, loc, val):
    for f, v in st.facts.items():
        if v is False and f[0] == "==":
            for x, y in ((f[1], f[2]), (f[2], f[1])):
                if x[0] == "ld" and x[1] == loc and y == val:
                    return True
    return False


def possible(eng, st):
    """False when the path contradicts that the table has no more entries than places."""
    ln, size = ("ld", fld("len"), 0), ("ld", fld("size"), 0)
    ts = {C0, C1}
    for f in st.facts:
        if f[0] == "<":
            ts |= {f[1], f[2]}
    return not any(known(eng, st, mk_lt(t, ln)) and known(eng, st, mk_lt(t, size), False) for t in ts if t not in (ln, size))


def arr(t):
    """Start of an array however its address is written."""
    if t and t[0] == "addr":
        t = t[1]
        if t[0] == "idx" and t[2] == C0:
            return t[1]
        return t
    return t


class Table:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.m = {}
        for u, f in prog.functions.items():
            if f.get("rec") == "transaction_table" and f.get("b"):
                self.m.setdefault(f["n"].split("::")[-1], []).append(f)
        rec = [r for n, r in prog.records.items() if n == "transaction_table"]
        if not rec:
            raise AnalysisBroken("the transaction table was not found")
        for need in ("start", "find", "join", "end", "operator[]"):
            if need not in self.m:
                raise AnalysisBroken("transaction_table::%s not found" % need)

    def fn(self, name, n=None):
        r = [f for f in self.m[name] if n is None or len(f["p"]) == n]
        if not r:
            raise AnalysisBroken("transaction_table::%s not found" % name)
        return r[0]

    def fail(self, rule, eng, st, what, text, fn):
        self.rep.violation(fn["file"], fn.get("l", 0), fn["n"], what, text, key="%s|%s" % (what, fn["n"]), trace=st.trace())

    def run(self, name, n=None):
        f = self.fn(name, n)
        rule = TableRule(self.rep)
        rule.prog = self.prog
        args = [("sym", "p:" + p["n"]) for p in f["p"]]
        eng, outs, _ = run_root(self.prog, rule, f, State(ts=()), args=args, rep=self.rep)
        outs = [o for o in outs if possible(eng, o[1])]
        return f, rule, eng, outs, args

    def entry(self, eng, st, pos):
        """The entry's location, as the table's own index operator gives it."""
        f = self.fn("operator[]")
        e = set()
        for s, v in eng.inline(f, st.copy(), THIS, [pos], {"k": "call", "l": f.get("l", 0), "args": []}):
            e.add(deref(v) if v[0] != "addr" else v[1])
        return e

    def places(self, eng, st, pos):
        ts = st.ts
        r = self.entry(eng, st, pos)
        st.ts = ts
        return r


def fld(name, of=("deref", THIS)):
    return ("fld", of, name)


def cleared(tab, eng, st, E):
    """Index of the event that empties the whole entry."""
    size = ("ld", fld("entry_size"), 0)
    for i, e in enumerate(st.ts):
        if e[0] == "clear" and e[2] == C0 and same(eng, st, e[1], E) and (e[3] == size or e[3] == L(st, eng, fld("entry_size"))):
            return i
    return None


def same(eng, st, ptr, E):
    loc = deref(ptr) if ptr[0] != "addr" else ptr[1]
    return loc in E


def inside(loc, E):
    return any(under(loc, e) for e in E)


def check_access(tab):
    f, rule, eng, outs, args = tab.run("operator[]")
    for o in outs:
        if o[0] != "ret":
            continue
        st = o[1]
        tab.rep.instance("index", "%s:%d" % (f["file"], f["l"]))
        if not known(eng, st, mk_lt(args[0], ("ld", fld("size"), 0))):
            tab.fail(rule, eng, st, "index-unchecked", "an entry beyond the end of the transaction table can be reached", f)
        v = o[2]
        loc = deref(v) if v[0] != "addr" else v[1]
        off = loc[2] if loc[0] == "idx" else loc
        if not (contains(loc, args[0]) and contains(loc, ("ld", fld("entry_size"), 0)) and off[0] == "op" and off[1] == "*"):
            tab.fail(rule, eng, st, "index-overlap", "entries of the transaction table are not a whole entry apart", f)


def check_start(tab, end_clears):
    f, rule, eng, outs, args = tab.run("start", 2)
    xid, group = args
    x = deref(xid)
    ln, size, mg = (("ld", fld(n), 0) for n in ("len", "size", "max_groups"))
    first = ("c", 0)
    for o in outs:
        st = o[1]
        if o[0] == "throw":
            tab.rep.instance("start-refused", f["n"])
            if st.ts:
                tab.fail(rule, eng, st, "refused-changes", "a refused transaction changes the table", f)
            if known(eng, st, mk_lt(group, mg), False) or known(eng, st, mk_lt(ln, size), False):
                pass
            else:
                tab.fail(rule, eng, st, "refused-free", "a transaction is refused although the table has room", f)
                continue
            if known(eng, st, mk_lt(group, mg), False):
                continue
        elif o[0] != "ret":
            continue
        E0 = tab.places(eng, st, first)
        fmt0 = [fld("formatID", fld("xid", e)) for e in E0]
        if (o[0] == "throw" or o[2] == ln) and known(eng, st, mk_lt(ln, ("c", 1)), False) and \
                not any(wasnt(st, l, FREE) for l in fmt0):
            tab.fail(rule, eng, st, "free-ignored", "a free entry is not used again", f)
        if o[0] == "throw":
            continue
        v = o[2]
        tab.rep.instance("start", "%s: entry %s" % (f["n"], show(v)))
        E = tab.places(eng, st, v)
        if not known(eng, st, mk_lt(group, mg)):
            tab.fail(rule, eng, st, "group-unchecked", "the group of a new transaction may be beyond the entry", f)
        newlen = L(st, eng, fld("len"))
        if v == ln:
            if newlen != mk_add(ln, ("c", 1)):
                tab.fail(rule, eng, st, "not-counted", "the new entry behind the last one is not counted", f)
            if not known(eng, st, mk_lt(ln, size)):
                tab.fail(rule, eng, st, "full", "an entry behind the end of the table is used", f)
        else:
            if not any(was(st, fld("formatID", fld("xid", e)), FREE) for e in E):
                tab.fail(rule, eng, st, "taken", "a new transaction gets an entry that is not free (entry %s)" % show(v), f)
            if newlen != ln:
                tab.fail(rule, eng, st, "length-changed", "reusing an entry changes the number of entries", f)
        c = cleared(tab, eng, st, E)
        if c is None and end_clears:
            c = 0           # a free entry is an empty one, and shared memory starts empty
        if c is None:
            tab.fail(rule, eng, st, "not-cleared", "the entry of a new transaction keeps what its former transaction left", f)
            continue
        for e in st.ts[:c]:
            if e[0] == "set" and inside(e[1], E):
                tab.fail(rule, eng, st, "cleared-late", "what was stored for the new transaction is cleared again", f)
        for name in ("formatID", "gtrid_length", "bqual_length"):
            want = ("ld", fld(name, x), 0)
            got = {L(st, eng, fld(name, fld("xid", e))) for e in E}
            if want not in got and ("sel", ("ld", x, 0), name) not in got:
                tab.fail(rule, eng, st, "identifier", "the entry of a new transaction does not hold its identifier (%s)"
                         % name, f)
        data = any(e[0] == "copy" and arr(e[1]) in [fld("data", fld("xid", y)) for y in E] and arr(e[2]) == fld("data", x)
                   and enough(tab.prog, e[3], x) for e in st.ts[c:]) or \
            any(e[0] == "set" and e[1] in [fld("xid", y) for y in E] for e in st.ts[c:]) or \
            any(e[0] == "copy" and same(eng, st, e[1], {fld("xid", y) for y in E}) and arr(e[2]) == x for e in st.ts[c:])
        if not data:
            tab.fail(rule, eng, st, "identifier-data", "the entry of a new transaction does not hold its identifier (data)", f)
        marks = [e for e in st.ts[c:] if e[0] == "set" and e[1][0] == "idx" and e[1][1] in [fld("groups", y) for y in E]]
        if [m[1][2] for m in marks if isc(m[2]) and m[2] != C0] != [group]:
            tab.fail(rule, eng, st, "group-mark", "a new transaction's entry does not name exactly the group that began it", f)
        for e in st.ts:
            if e[0] == "set" and not inside(e[1], E) and e[1] != fld("len"):
                tab.fail(rule, eng, st, "other-entry", "starting a transaction changes %s" % show(e[1]), f)


def enough(prog, z, x):
    if isc(z):
        r = [r for n, r in prog.records.items() if n == "xid_t"]
        a = [f["t"] for f in (r[0].get("fields") or []) if f["n"] == "data"] if r else []
        n = (a[0].get("n") or a[0].get("z")) if a else None
        return n is None or z[1] >= n
    ls = {("ld", fld("gtrid_length", x), 0), ("ld", fld("bqual_length", x), 0)}
    return z[0] == "op" and z[1] == "+" and {z[2], z[3]} == ls


def compared(eng, st, E, x):
    """Whether the path compared the whole identifiers: names of what was not."""
    miss = []
    names = ("formatID", "gtrid_length", "bqual_length")
    for n in names:
        ok = False
        for e in E:
            a, b = ("ld", fld(n, fld("xid", e)), 0), ("ld", fld(n, x), 0)
            if any(v is True and k[0] == "==" and {vers(k[1]), vers(k[2])} == {vers(a), vers(b)} for k, v in st.facts.items()):
                ok = True
        if not ok:
            miss.append(n)
    ok = False
    lens = {vers(("ld", fld(n, w), 0)): n for n in names[1:] for w in [x] + [fld("xid", e) for e in E]}
    bytes_ = set()
    for k, v in st.facts.items():
        if v is not True:
            continue
        for t in subterms(k):
            if isinstance(t, tuple) and len(t) > 4 and t[0] == "call" and str(t[1]).endswith("memcmp"):
                p = [y for y in t[2:] if isinstance(y, tuple) and y]
                if len(p) < 3:
                    continue
                two = [arr(y) for y in p[:2]]
                z = p[2]
                if not any(fld("data", x) == y for y in two) or not any(fld("data", fld("xid", e)) in two for e in E):
                    # the second part compared on its own
                    if any(contains(y, fld("data", x)) for y in two):
                        bytes_ |= {lens[vers(s)] for s in subterms(z) if isinstance(s, tuple) and vers(s) in lens}
                    continue
                if isc(z) and z[1] >= 128:
                    ok = True
                bytes_ |= {lens[vers(s)] for s in subterms(z) if isinstance(s, tuple) and vers(s) in lens}
    if bytes_ == set(names[1:]):
        ok = True
    if not ok:
        miss.append("data")
    return miss


def vers(t):
    return ("ld", t[1]) if isinstance(t, tuple) and t and t[0] == "ld" else t


def check_find(tab):
    f, rule, eng, outs, args = tab.run("find", 1)
    x = deref(args[0])
    ln = ("ld", fld("len"), 0)
    for o in outs:
        st = o[1]
        if [e for e in st.ts]:
            tab.fail(rule, eng, st, "find-changes", "looking a transaction up changes the table", f)
        if o[0] == "throw":
            tab.rep.instance("find-none", f["n"])
            E = tab.places(eng, st, C0)
            if known(eng, st, mk_lt(ln, ("c", 1)), False):
                looked = any(contains(k, e) for k in st.facts for e in E)
                if not looked:
                    tab.fail(rule, eng, st, "find-skips", "a transaction in the table is not found", f)
            continue
        if o[0] != "ret":
            continue
        tab.rep.instance("find", "%s: entry %s" % (f["n"], show(o[2])))
        E = tab.places(eng, st, o[2])
        miss = compared(eng, st, E, x)
        if miss:
            tab.fail(rule, eng, st, "find-" + miss[0], "an entry whose identifier was not compared as a whole (%s) is taken for the "
                     "transaction's" % ", ".join(miss), f)
        if not known(eng, st, mk_lt(o[2], ln)):
            tab.fail(rule, eng, st, "find-behind", "an entry behind the last one is taken for the transaction's", f)


def check_join(tab):
    f, rule, eng, outs, args = tab.run("join", 2)
    t, g = args
    for o in outs:
        st = o[1]
        if o[0] == "throw":
            if st.ts:
                tab.fail(rule, eng, st, "join-refused-changes", "a refused participation changes the table", f)
            continue
        if o[0] != "ret":
            continue
        tab.rep.instance("join", f["n"])
        E = tab.places(eng, st, t)
        marks = [e for e in st.ts if e[0] == "set"]
        ok = len(marks) == 1 and len(st.ts) == 1 and any(marks[0][1] == ("idx", fld("groups", e), g) for e in E) and \
            isc(marks[0][2]) and marks[0][2] != C0
        if not ok:
            tab.fail(rule, eng, st, "join-mark", "taking part marks something else than the group in the transaction's entry", f)
        for a, b, w in ((g, "max_groups", "group"), (t, "size", "transaction")):
            if not known(eng, st, mk_lt(a, ("ld", fld(b), 0))):
                tab.fail(rule, eng, st, "join-" + w, "taking part does not check the number of the %s" % w, f)
        if not same(eng, st, o[2], E):
            tab.fail(rule, eng, st, "join-other", "taking part hands back the entry of another transaction", f)


def check_end(tab):
    f, rule, eng, outs, args = tab.run("end", 1)
    clears = True
    for o in outs:
        st = o[1]
        if o[0] != "ret":
            if st.ts:
                tab.fail(rule, eng, st, "end-refused-changes", "a refused end changes the table", f)
            continue
        tab.rep.instance("end", f["n"])
        E = tab.places(eng, st, args[0])
        clears = clears and cleared(tab, eng, st, E) is not None
        if not any(L(st, eng, fld("formatID", fld("xid", e))) == FREE for e in E):
            tab.fail(rule, eng, st, "end-kept", "the entry of an ended transaction is not free", f)
        for e in st.ts:
            if e[0] == "set" and not inside(e[1], E):
                tab.fail(rule, eng, st, "end-other", "ending a transaction changes %s" % show(e[1]), f)
    return clears


# ------------------------------------------------------------------ identifiers
class IdRule(TableRule):
    opaque_names = {"getmib"}

    def __init__(self, rep):
        super().__init__(rep)
        self.assigned = {}

    def store(self, eng, st, loc, val, node):
        if loc[0] == "var":
            self.assigned.setdefault(str(loc), set()).add(val)

    def call(self, eng, st, call):
        n = base(call.name)
        if n.startswith(("__sync_", "__atomic_")) or ("fetch_add" in n) or \
                (n.startswith(("std::atomic", "std::__atomic")) and n.endswith(("operator++", "operator+="))):
            v = ("sym", "atomic:%d" % call.line)
            eng.killsym(st, v)
            self.ev(st, ("atomic", call.obj or call.args[0], tuple(call.args[1:] if not call.obj else call.args), call.line))
            return [("ret", st, v)]
        return super().call(eng, st, call)


def parts(t):
    if t[0] == "op" and t[1] in ("+", "|", "^"):
        return parts(t[2]) + parts(t[3])
    return [t] if t != C0 else []


def span(eng, st, t):
    """Bits a term can occupy: (lowest, highest + 1)."""
    if t[0] == "op" and t[1] == "<<" and isc(t[3]):
        lo, hi = span(eng, st, t[2])
        return lo + t[3][1], hi + t[3][1]
    if t[0] == "op" and t[1] == "*" and (isc(t[2]) or isc(t[3])):
        c, y = (t[2], t[3]) if isc(t[2]) else (t[3], t[2])
        if c[1] > 0 and c[1] & (c[1] - 1) == 0:
            lo, hi = span(eng, st, y)
            return lo + c[1].bit_length() - 1, hi + c[1].bit_length() - 1
    if t[0] == "op" and t[1] == "&" and (isc(t[2]) or isc(t[3])):
        c = t[3] if isc(t[3]) else t[2]
        if c[1] > 0:
            return (c[1] & -c[1]).bit_length() - 1, c[1].bit_length()
    if t[0] == "op" and t[1] == "%" and isc(t[3]) and t[3][1] > 0:
        return 0, (t[3][1] - 1).bit_length()
    if isc(t) and t[1] >= 0:
        return 0, t[1].bit_length()
    lo, hi, _ = eng.bounds(st, t)
    if lo is not None and hi is not None and lo >= 0:
        return 0, int(hi).bit_length()
    return 0, 64


def source(t):
    """What a bit field is made of."""
    s = set()
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == "sym" and str(x[1]).startswith(("atomic:", "AtomicExpr@")):
            s.add("number")
        elif isinstance(x, tuple) and x and x[0] == "ld":
            r = root(x[1])
            f = field_of(x[1])
            if f == "tv_sec" or f == "tv_nsec":
                s.add("time")
            elif f == "host":
                s.add("machine")
    return s


def check_number(tab):
    prog, rep = tab.prog, tab.rep
    gs = [f for f in prog.functions.values() if f["n"] == "mib::genuid" and f.get("b")]
    if not gs:
        raise AnalysisBroken("the function that makes identifiers was not found")
    f = gs[0]
    rule = IdRule(rep)
    rule.prog = prog
    eng, outs, _ = run_root(prog, rule, f, State(ts=()), rep=rep)
    for o in outs:
        if o[0] != "ret":
            continue
        st, v = o[1], o[2]
        rep.instance("number", "%s:%d" % (f["file"], f["l"]))
        if known(eng, st, mk_eq(v, C0)) or not known(eng, st, mk_eq(v, C0), False):
            tab.fail(rule, eng, st, "number-zero", "the number of an identifier can be zero", f)
        vals = [v]
        if v[0] == "sym" and str(v[1]).startswith("loop"):
            # assigned in an earlier round of a loop
            vals = sorted((x for k, xs in rule.assigned.items() if k in str(v[1]) for x in xs if not isc(x) and x != v), key=str) \
                or vals
        for v in vals:
            check_parts(tab, rule, eng, st, v, f)
        at = [e for e in st.ts if e[0] == "atomic"]
        for e in at:
            if not any(isc(y) and y[1] == 1 for y in e[2]) and e[2]:
                tab.fail(rule, eng, st, "number-step", "the number is not advanced by one", f)
            if root(deref(e[1]) if e[1][0] != "addr" else e[1][1])[0] == "var":
                tab.fail(rule, eng, st, "number-local", "the number is not drawn from the shared memory", f)
    return f


def check_parts(tab, rule, eng, st, v, f):
    ps = parts(v)
    used, src = 0, set()
    for p in ps:
        lo, hi = span(eng, st, p)
        m = ((1 << hi) - 1) & ~((1 << lo) - 1)
        if hi > 64:
            tab.fail(rule, eng, st, "number-cut", "a part of the number of an identifier is cut off (%s)" % show(p)[:80], f)
        if used & m:
            tab.fail(rule, eng, st, "number-overlap", "parts of the number of an identifier overlap, two transactions can "
                     "get the same (%s)" % show(p)[:80], f)
        used |= m
        src |= source(p)
    for w in ("number", "time", "machine"):
        if w not in src:
            tab.fail(rule, eng, st, "number-" + w, "identifiers are made without the %s" %
                     {"number": "atomically drawn number", "time": "time", "machine": "machine"}[w], f)


def check_identifier(tab, gen):
    prog, rep = tab.prog, tab.rep
    cg = callgraph(prog)
    makers = [f for u, f in prog.functions.items() if f.get("b") and gen["u"] in cg.get(u, ())]
    width = (gen.get("rt") or {}).get("z") or 8
    if not makers:
        raise AnalysisBroken("no function makes a transaction identifier")
    for f in makers:
        class R(IdRule):
            def call(self, eng, st, call):
                if call.fn is not None and call.fn["u"] == gen["u"]:
                    return [("ret", st, ("sym", "number"))]
                return super().call(eng, st, call)
        rule = R(rep)
        rule.prog = prog
        R.store = lambda self, eng, st, loc, val, node: self.ev(st, ("set", loc, val, 0)) \
            if loc[0] in ("fld", "idx") else None
        eng, outs, _ = run_root(prog, rule, f, State(ts=()), rep=rep)
        for o in outs:
            if o[0] != "ret":
                continue
            st = o[1]
            sets = {}
            for e in st.ts:
                if e[0] == "set":
                    sets[field_of(e[1]) if e[1][0] == "fld" else (field_of(e[1][1]), e[1][2])] = (e[1], e[2])
            copies = [e for e in st.ts if e[0] == "copy" and (field_of(arr(e[1])) == "data")]
            if not copies:
                if not (f.get("rt") or {}).get("k") == "rec":
                    continue
            rep.instance("identifier", "%s:%d" % (f["file"], f["l"]))
            fm = sets.get("formatID", (None, None))[1]
            if fm is None or not isc(fm) or fm[1] < 0:
                tab.fail(rule, eng, st, "format", "a new identifier is not marked as one", f)
            g = sets.get("gtrid_length", (None, None))[1]
            b = sets.get("bqual_length", (None, None))[1]
            n = None
            for e in copies:
                z = e[3]
                if z[0] == "range":
                    z = eng_diff(z)
                if isc(z) and contains(e[5], ("sym", "number")):
                    n = z[1]
            if n is None or n < width:
                tab.fail(rule, eng, st, "number-part", "a new identifier holds only a part of its number", f)
            elif g is None or not isc(g) or g[1] != n:
                tab.fail(rule, eng, st, "number-length", "the length of a new identifier is not that of its number", f)
            elif b is None or not isc(b) or b[1] < 0:
                tab.fail(rule, eng, st, "branch-length", "the branch qualifier of a new identifier has no length", f)
            else:
                for e in st.ts:
                    if e[0] != "clear" or e[1][0] != "addr" or not isc(e[3]):
                        continue
                    at = e[1][1] if e[1][1][0] == "idx" else ("idx", e[1][1], C0)
                    if field_of(at[1]) == "data" and isc(at[2]):
                        for i in range(at[2][1], at[2][1] + min(e[3][1], 256)):
                            sets[("data", ("c", i))] = True
                for i in range(g[1], g[1] + b[1]):
                    if ("data", ("c", i)) not in sets:
                        tab.fail(rule, eng, st, "branch-unset", "the branch qualifier of a new identifier is not set", f)


def eng_diff(z):
    a, b = z[1], z[2]
    if b[0] == "op" and b[1] == "+":
        if b[2] == a:
            return b[3]
        if b[3] == a:
            return b[2]
    if a[0] == "addr" and b[0] == "addr" and b[1][0] == "idx" and (b[1][1] == a[1] or arr(a) == b[1][1]):
        return b[1][2]
    return z


def check(prog, rep):
    conflicts(prog, rep, (NAMES["gttid"], "position in the table of groups"), ("src/tx.cpp", "src/trx.h", "src/trx.cpp"))
    tab = Table(prog, rep)
    check_access(tab)
    check_start(tab, check_end(tab))
    check_find(tab)
    check_join(tab)
    gen = check_number(tab)
    check_identifier(tab, gen)
    for what, n in (("start", 4), ("find", 2), ("join", 1), ("end", 1), ("number", 1), ("identifier", 1)):
        rep.need(what, n)
