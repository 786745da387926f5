"""Every part that treats fields by type treats each type the same."""
from .fmlbuf import *

EXPLAIN = ("Constant propagation of each of the eight field types (and, where they have one, of lengths on both sides of "
           "every rounding step) through everything that lays out, finds, steps over, hands out, compares, prints or "
           "converts a field; the byte offsets, sizes and access widths these arrive at are compared with each other "
           "and with the C type of the field.")

FLOATS = ("FLOAT", "DOUBLE")


class TypeRule(BufRule):
    def load(self, eng, st, loc, node):
        t = (node or {}).get("t") or {}
        if t.get("k") in ("int", "float"):
            st.ts = st.ts + (("read", self.place(eng, addr(loc)), t.get("z"), t.get("k") == "float", t.get("sg")),)

    def call(self, eng, st, call):
        n = base(call.name)
        if n in ("strcmp", "__builtin_strcmp", "memcmp", "__builtin_memcmp", "regexec", "std::strcmp", "std::memcmp", "strncmp"):
            st.ts = st.ts + (("compare", n.split("::")[-1], tuple(self.place(eng, x) if i < 2 else x for i, x in enumerate(call.args))),)
            return [("ret", st, eng.fresh(st, n, call.line))]
        if n == "fprintf" or n == "printf":
            st.ts = st.ts + (("print", tuple(call.args)),)
            return [("ret", st, eng.fresh(st, n, call.line))]
        if n.endswith("print_bytes") or n in ("fwrite", "fputs"):
            st.ts = st.ts + (("bytes", tuple(call.args), tuple(self.place(eng, x) for x in call.args)),)
            return [("ret", st, C0)]
        if n == "Fbfr32::fprint" and eng.stack:
            st.ts = st.ts + (("nested", self.place(eng, addr(call.obj)) if call.obj else None),)
            return [("ret", st, C0)]
        if n in ("Fname32", "fputc", "isprint"):
            return [("ret", st, eng.fresh(st, n, call.line))]
        if n == "regcomp":
            return [("ret", st, C0), ("ret", st.copy(), C1)]
        return super().call(eng, st, call)


def check(prog, rep):
    B = Buffer(prog, rep)
    B.rule = TypeRule(rep).start(prog)
    chain = B.chain()
    rep.instance("layout", "order of the types")
    if chain is None:
        B.viol(B.fn("first_byte"), None, "regions", "the fields of the types do not follow each other without gap or overlap")
        return
    hdr = {}
    for t in B.types:
        hdr[t] = B.header(t)
        f = B.fn("chg", 4)
        rep.instance("layout", "value of " + t)
        w = WIDTH[t]
        if hdr[t] is None or hdr[t] < 4 or w and (hdr[t] + w > B.entry(t, 0) or hdr[t] % w) or w is None and hdr[t] != 8:
            B.viol(f, None, "value-place", "the value of a %s field does not lie within its field" % t.lower(), t)
            hdr[t] = 8 if w is None or w > 4 else 4
    steps(B, hdr)
    stored(B, hdr)
    handed(B, hdr)
    compared(B, hdr)
    printed(B, hdr)
    searched(B, chain)
    converted(B)
    tables(B)
    for k in ("step", "store", "hand-out", "compare", "print", "search", "convert"):
        rep.need(k, 8)


def steps(B, hdr):
    """The next field starts where this one ends."""
    f = B.fn("next_")
    for t in B.types:
        for n in B.lens(t):
            B.rep.instance("step", "%s/%d" % (t, n))
            st, p = B.there(t, n)
            eng, outs = B.run(f, [p], st)
            want = mk_add(AT, ("c", B.entry(t, n)))
            good = 0
            for o in outs:
                if o[0] != "ret":
                    continue
                if o[2] == C0:
                    # nothing behind the last one
                    if not atleast0(o[1], lsub(lin(want), lin(was("len_"))), nf=lambda x: norm(B.rule, eng, x)):
                        B.viol(f, o[1], "step-ends", "stepping over a %s field ends before the last field" % t.lower(), t)
                    continue
                pl = B.rule.place(eng, o[2])
                good += 1
                if off(pl) is None or not same(off(pl), want):
                    B.viol(f, o[1], "step", "stepping over a %s field of %d bytes does not lead to the next field" % (t.lower(), n), t)
                elif not atleast0(o[1], lsub(lsub(lin(was("len_")), lin(want)), {None: 1}), nf=lambda x: norm(B.rule, eng, x)):
                    B.viol(f, o[1], "step-beyond", "stepping over the last %s field leads behind the fields" % t.lower(), t)
            if not good:
                B.viol(f, None, "step", "stepping over a %s field never leads to the next field" % t.lower(), t)


def stored(B, hdr):
    """A stored value is as long as its type, or as it says itself."""
    f = B.fn("chg", 4)
    for t in B.types:
        for n in B.lens(t):
            B.rep.instance("store", "%s/%d" % (t, n))
            eng, outs = B.chg(t, n, ("none",))
            ok = [o for o in outs if o[0] == "ret" and o[2] == C0]
            if not ok:
                B.viol(f, None, "store", "a %s field can not be stored" % t.lower(), t)
            for o in ok:
                ev = [e for e in o[1].ts if e[0] == "copy" and e[2] == (("deref", VALUE), C0)]
                if len(ev) != 1 or not same(ev[0][3], ("c", B.width(t, n))):
                    B.viol(f, o[1], "store-length", "the value of a %s field is not stored with the length of its type" % t.lower(), t)
                elif WIDTH[t] is None:
                    at = mk_sub(off(ev[0][1]), ("c", 8))
                    fl = [e for e in o[1].ts if e[0] == "set" and same(off(e[1]), mk_add(at, ("c", 4)))]
                    if not fl or not same(fl[-1][2], ("c", n)):
                        B.viol(f, o[1], "store-size", "the length of a %s field is not stored with it" % t.lower(), t)


def handed(B, hdr):
    """The value and length that are handed out are those that were stored."""
    FLEN, LOC = ("sym", "p:flen"), ("sym", "p:loc")
    for t in B.types:
        fid = fldid(B.num[t])
        for n in B.lens(t)[-2:]:
            w = ("c", B.width(t, n))
            place = (DATA, mk_add(AT, ("c", hdr[t])))
            B.rep.instance("hand-out", "%s/%d" % (t, n))
            kw = dict(found=("there",), oldlen=n, counted=C1)
            nn = State(ts=())
            for x in (FLEN, LOC):
                nn.facts[mk_eq(x, C0)] = False
            for name, args, st0 in (("find", [fid, C0, FLEN], nn), ("findlast", [fid, C0, FLEN], nn), ("len", [fid, C0], None),
                                    ("get", [fid, C0, LOC, C0], nn), ("getalloc", [fid, C0, C0], None)):
                f = B.fn(name, len(args))
                eng, outs = B.run(f, args, st0.copy() if st0 else None, **kw)
                ok = [o for o in outs if o[0] == "ret" and o[2] not in (("c", -1), C0)] if name not in ("get",) else \
                    [o for o in outs if o[0] == "ret" and o[2] == C0]
                if name == "getalloc":
                    ok = [o for o in ok if o[1].facts.get(mk_eq(o[2], C0)) is not True]
                if not ok:
                    B.viol(f, None, "hand-out", "a %s field that is present is not found" % t.lower(), t)
                for o in ok:
                    st, bad = o[1], None
                    if name in ("find", "findlast"):
                        if B.rule.place(eng, o[2])[0] != DATA or not same(off(B.rule.place(eng, o[2])), place[1]):
                            bad = "the pointer handed out is not that of the value"
                        elif not same(eng.lookup(st, deref(FLEN)), w):
                            bad = "the length handed out is not that of the value"
                    elif name == "len":
                        if not same(o[2], w):
                            bad = "the length handed out is not that of the value"
                    else:
                        ev = [e for e in st.ts if e[0] == "copy" and off(e[2]) is not None]
                        skip = 4 if t == "FML32" and name == "get" else 0     # the size of the receiving buffer stays
                        if not ev:
                            bad = "the value is not handed out"
                        elif not all(same(mk_sub(off(e[2]), e[1][1]), place[1]) for e in ev) or \
                                not all(const(lin(e[1][1])) in (0, skip) for e in ev):
                            bad = "the bytes handed out are not those of the value"
                        elif not any(same(mk_add(e[3], e[1][1]), w) for e in ev):
                            bad = "the number of bytes handed out is not the length of the value"
                    if bad:
                        B.viol(f, st, "hand-out", "%s field: %s" % (t.lower(), bad), t)


def typed(t, e, place):
    """Is the event a read of a value as the C type of the field?"""
    return e[0] == "read" and e[1][0] == place[0] and same(e[1][1], place[1]) and e[2] == WIDTH[t] and e[3] == (t in FLOATS)


def compared(B, hdr):
    """An occurrence is found by comparing the value as what it is."""
    f = B.fn("findocc", 3)
    for t in B.types:
        if t == "FML32":
            B.rep.instance("compare", t)
            continue
        place = (DATA, mk_add(AT, ("c", hdr[t])))
        for length in (0, 5):
            B.rep.instance("compare", "%s/%d" % (t, length))
            eng, outs = B.run(f, [fldid(B.num[t]), VALUE, ("c", length)], found=("there",), oldlen=length, counted=C1, onestep=True)
            ok = [o for o in outs if o[0] == "ret" and o[2] == C0]
            if not ok:
                B.viol(f, None, "compare", "no %s field is ever found by its value" % t.lower(), t)
            for o in ok:
                st = o[1]
                if WIDTH[t] is not None:
                    good = any(typed(t, e, place) for e in st.ts) and any(typed(t, e, (("deref", VALUE), C0)) for e in st.ts)
                else:
                    cmps = [e for e in st.ts if e[0] == "compare"]
                    kinds = ("regexec",) if t == "STRING" and length else ("strcmp",) if t == "STRING" else ("memcmp",)
                    good = any(e[1] in kinds and any(p[0] == DATA and same(p[1], place[1]) for p in e[2][:2]) and
                               (e[1] == "regexec" or (("deref", VALUE), C0) in e[2]) and
                               (e[1] != "memcmp" or e[2][2] == ("c", length)) for e in cmps)
                if not good:
                    B.viol(f, st, "compare", "the value of a %s field is not compared as its type" % t.lower(), t)
        if t == "CARRAY":
            eng, outs = B.run(f, [fldid(B.num[t]), VALUE, ("c", 5)], found=("there",), oldlen=6, counted=C1, onestep=True)
            for o in outs:
                if o[0] == "ret" and o[2] == C0:
                    B.viol(f, o[1], "compare", "carray fields of different lengths are taken as equal", t)


def printed(B, hdr):
    fs = [g for g in B.prog.functions.values() if g.get("b") and g["n"].startswith("Fbfr32::fprint(") and g["n"].endswith("operator()")]
    if not fs:
        raise AnalysisBroken("the printing of fields was not found")
    f = fs[0]
    for t in B.types:
        for n in B.lens(t)[-1:]:
            B.rep.instance("print", t)
            st, p = B.there(t, n)
            args = [p if x["t"].get("k") == "ptr" else C0 for x in f["p"]]
            eng, outs = B.run(f, args, st)
            place = (DATA, mk_add(AT, ("c", hdr[t])))
            for o in outs:
                if o[0] != "ret":
                    continue
                s = o[1]
                if t == "CHAR":
                    good = any(e[0] == "bytes" and any(x[0] == DATA and same(x[1], place[1]) for x in e[2]) and C1 in e[1] for e in s.ts) or \
                        any(typed(t, e, place) for e in s.ts)
                elif WIDTH[t] is not None:
                    good = any(typed(t, e, place) for e in s.ts)
                elif t == "FML32":
                    good = any(e[0] == "nested" and e[1] is not None and e[1][0] == DATA and same(e[1][1], place[1]) for e in s.ts)
                else:
                    want = ("c", n - 1 if t == "STRING" else n)
                    good = any(e[0] == "bytes" and any(x[0] == DATA and same(x[1], place[1]) for x in e[2]) and want in e[1] for e in s.ts)
                if not good:
                    B.viol(f, s, "print", "the value of a %s field is not printed as its type" % t.lower(), t)


def searched(B, chain):
    """Fields of a type are sought where that type's fields are, in steps of its size."""
    fs = [f for l in B.m.values() for f in l if B.rule.is_search(f)]
    if not fs:
        raise AnalysisBroken("the search for a field was not found")
    reg = B.regions()
    for f in fs:
        for t in B.types:
            B.rep.instance("search", t)
            seen = []

            class Cut(TypeRule):
                def call(s, eng, st, call):
                    if call.fn is not None and call.fn.get("rec") == "Fbfr32" and len(call.fn["p"]) == 4 and \
                            (call.fn["rt"].get("p") or {}).get("r") == "fieldhead" and len(eng.stack) == 1:
                        seen.append((call.fn, call.args, st))
                        return [("ret", st, C0)]
                    return super().call(eng, st, call)
            saved, B.rule = B.rule, Cut(B.rep).start(B.prog)
            eng, outs = B.run(f, [fldid(B.num[t]), C1])
            B.rule = saved
            if not seen:
                continue
            for g, a, st in seen:
                if a[0] != fldid(B.num[t]) or a[1] != C1 or not same(a[2], reg[t][0]) or not same(a[3], reg[t][1]):
                    B.viol(f, st, "search-region", "a %s field is not sought among the fields of its type" % t.lower(), t)
                z = step_of(B, g)
                w = B.entry(t, 0) if WIDTH[t] is not None else None
                if z is not None and z != w:
                    B.viol(f, st, "search-step", "%s fields are sought in steps of another type's size" % t.lower(), t)


def step_of(B, g):
    """Size of the elements a search goes over: a number, or None when it depends on the field."""
    sizes = set()
    for n in walk(g["b"]):
        if n["k"] == "un" and n.get("op") == "++":
            t = (n.get("t") or {})
            if t.get("k") == "ptr":
                sizes.add(t["p"].get("z"))
    return sizes.pop() if len(sizes) == 1 else None


def converted(B):
    """A conversion reads what it is given and makes what it is asked for."""
    f = B.prog.fn("Ftypcvt32")
    TO = ("sym", "p:tolen")

    class Cvt(FmlRule):
        trunc = False

        def load(self, eng, st, loc, node):
            t = (node or {}).get("t") or {}
            if loc == ("deref", ("sym", "p:fromval")) or root(loc) == ("deref", ("sym", "p:fromval")):
                st.ts = st.ts + (("from", t.get("z"), t.get("k") == "float"),)

        def call(self, eng, st, call):
            n = base(call.name)
            if n in ("std::copy_n", "memcpy", "__builtin_memcpy", "std::memcpy", "std::copy"):
                a = call.args
                src, z = (a[0], a[1]) if n == "std::copy_n" else (a[0], mk_sub(a[1], a[0])) if n == "std::copy" else (a[1], a[2])
                args = (call.node or {}).get("args") if hasattr(call, "node") else None
                x = args[0 if "copy" in n and "mem" not in n else 1] if args else None
                st.ts = st.ts + (("made", z, objtype(x)),)
                return [("ret", st, a[0])]
            if n in ("std::basic_string::assign", "std::basic_string::append") and len(call.args) == 2:
                args = (call.node or {}).get("args") or [None]
                x = strip(args[0]) if args[0] else None
                if x is not None and x["k"] == "cast":
                    x = strip(x["e"])
                st.ts = st.ts + (("made", call.args[1], objtype(x)),)
            if n in ("std::to_string",):
                st.ts = st.ts + (("text",),)
            return super().call(eng, st, call)

    def length(eng, st, p):
        """Length of the string a pointer to its first character belongs to."""
        loc = p[1] if p[0] == "addr" else deref(p)
        while loc[0] == "idx":
            loc = loc[1]
        return eng.lookup(st, ("fld", loc, "$size"))

    def objtype(x):
        """Type of the object a copied pointer points to."""
        x = strip(x) if x else None
        if x is not None and x["k"] == "un" and x.get("op") == "&":
            t = (strip(x["e"]) or {}).get("dt") or (strip(x["e"]) or {}).get("t") or {}
            return t.get("z"), t.get("k") == "float"
        return None

    rule = Cvt(B.rep).start(B.prog)
    for tf in B.types:
        for tt in B.types:
            B.rep.instance("convert", "%s to %s" % (tf, tt))
            args = [TO, ("c", B.num[tt]), ("sym", "p:fromval"), ("c", B.num[tf]), ("c", 5)]
            st = State(ts=())
            for x in (TO, ("sym", "p:fromval")):
                st.facts[mk_eq(x, C0)] = False
            eng, outs, _ = run_root(B.prog, rule, f, st, args=args, rep=B.rep)
            outs = [o for o in outs if o[0] == "ret"]
            ok = [o for o in outs if o[2] != C0]
            if "FML32" in (tf, tt):
                for o in ok:
                    B.viol(f, o[1], "convert-unknown", "a conversion from %s to %s is made up" % (tf.lower(), tt.lower()), tf + tt)
                for o in outs:
                    if o[2] == C0 and last_error(o[1]) != ("c", B.err["FEBADOP"]):
                        B.viol(f, o[1], "convert-error", "an impossible conversion is not reported as FEBADOP", tf + tt)
                continue
            if not ok:
                B.viol(f, None, "convert", "%s can not be converted to %s" % (tf.lower(), tt.lower()), tf + tt)
            for o in ok:
                s = o[1]
                if WIDTH[tf] is not None and not any(e[0] == "from" and e[1] == WIDTH[tf] and e[2] == (tf in FLOATS) for e in s.ts):
                    B.viol(f, s, "convert-from", "a %s value is not read as such when it is converted" % tf.lower(), tf)
                if tt in ("STRING", "CARRAY"):
                    d = lsub(lin(eng.lookup(s, deref(TO))), lin(length(eng, s, o[2])))
                    if const(d) != 1 and (tt == "STRING" or const(d) != 0):
                        B.viol(f, s, "convert-length", "the length given for a converted string is not that of the string with its end", tf + tt)
                if WIDTH[tt] is not None:
                    made = [e for e in s.ts if e[0] == "made"]
                    if not same(eng.lookup(s, deref(TO)), ("c", WIDTH[tt])):
                        B.viol(f, s, "convert-length", "the length given for a converted %s value is wrong" % tt.lower(), tt)
                    elif not made or not same(made[-1][1], ("c", WIDTH[tt])) or made[-1][2] not in (None, (WIDTH[tt], tt in FLOATS)):
                        B.viol(f, s, "convert-to", "a value converted to %s is not one" % tt.lower(), tt)


def tables(B):
    """Names of types in field tables."""
    names = {"short": "SHORT", "long": "LONG", "char": "CHAR", "float": "FLOAT", "double": "DOUBLE", "string": "STRING",
             "carray": "CARRAY", "fml32": "FML32"}
    for g in getattr(B.prog, "globals", {}).values():
        for x in walk(g.get("init") or {}):
            kids = [strip(y) for y in (x.get("args") or x.get("e") or []) if isinstance(y, dict)] if isinstance(x.get("args") or x.get("e"), list) else []
            if len(kids) == 2 and kids[0] and kids[0].get("k") == "str" and kids[0].get("v") in names:
                v = kids[1].get("v")
                B.rep.instance("type-name", kids[0]["v"])
                if isinstance(v, int) and v != B.num[names[kids[0]["v"]]]:
                    B.rep.violation(g.get("f", "fieldtbl32.h"), x.get("l", 0), g.get("n", ""), "type-name",
                                    "the type name %s stands for another type" % kids[0]["v"], key="type-name|" + kids[0]["v"])
