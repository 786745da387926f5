"""Values are handed out whole, within the room there is, and only when they are there."""
from .fmlbuf import *

EXPLAIN = ("Every function that hands out a value of a fielded buffer is simulated for each field type with the field "
           "present, absent, or followed by another one: the room given is a symbol, and every byte written must be "
           "under a comparison with it; on every path the error, the length reported and what was written must agree. "
           "Allocations are matched with what is written to them and with their failure, conversions with the type, "
           "value and length they are given and with the use of their result.")

LOC, MAX, ROOM, OC = ("sym", "p:loc"), ("sym", "p:maxlen"), ("sym", "room"), ("sym", "p:oc")
FIELD, VAL, LEN = ("sym", "p:fieldid"), ("sym", "p:value"), ("sym", "p:len")


class ValueRule(BufRule):
    allocs = True

    def call(self, eng, st, call):
        n = base(call.name)
        if n in ("malloc", "realloc", "calloc"):
            z = call.args[-1] if n != "calloc" else call.args[1] if call.args[0] == C1 else call.args[0]
            s0 = st.copy()
            s0.note(eng.curfile(), call.line, "%s fails" % n)
            self.ev(s0, "malloc", None, z)
            r = ("sym", "mem@%d" % call.line)
            eng.killsym(st, r)
            s1 = st.copy()
            self.ev(s1, "malloc", r, z)
            s1.facts[mk_eq(r, C0)] = False
            return [("ret", s0, C0), ("ret", s1, r)]
        if n == "free":
            self.ev(st, "free", call.args[0])
            return [("ret", st, C0)]
        return super().call(eng, st, call)


def nonnull(*xs):
    st = State(ts=())
    for x in xs:
        st.facts[mk_eq(x, C0)] = False
    return st


def outside(st, *what):
    """Events that write to the caller's memory."""
    return [e for e in st.ts if e[0] in ("copy", "set", "fill") and any(contains(e[1][0], x) for x in what)]


def sought(B, f, st, fid, oc, t):
    for e in st.ts:
        if e[0] == "search" and (e[2] != fid or e[3] != oc):
            B.viol(f, st, "sought", "not the field and occurrence asked for are sought", t)
            return


def check_get(B):
    f = B.fn("get", 4)
    for t in B.types:
        fid = fldid(B.num[t])
        for n in B.lens(t)[-2:]:
            w = ("c", B.width(t, n))
            B.rep.instance("get", "%s/%d" % (t, n))
            st = nonnull(LOC, MAX)
            st.env[deref(MAX)] = ROOM
            eng, outs = B.run(f, [fid, OC, LOC, MAX], st, found=("there", "none", "other"), oldlen=n)
            good = short = 0
            for o in outs:
                if o[0] != "ret":
                    continue
                s = o[1]
                there = any(e[0] == "search" and e[1] == "there" for e in s.ts)
                sought(B, f, s, fid, OC, t)
                if not there:
                    absent(B, f, s, o, ("c", -1), t, LOC, MAX)
                    continue
                w_ = outside(s, LOC)
                if o[2] == C0:
                    good += 1
                    if not atleast0(s, lsub(lin(ROOM), lin(w))):
                        B.viol(f, s, "room", "a %s value is handed out without comparing it with the room given" % t.lower(), t)
                else:
                    short += 1
                    if w_:
                        B.viol(f, s, "refused-writes", "a value is handed out although failure is returned", t)
                    if last_error(s) != ("c", B.err["FNOSPACE"]):
                        B.viol(f, s, "short-error", "lack of room is not reported as FNOSPACE", t)
                    if not atleast0(s, lsub(lsub(lin(w), lin(ROOM)), {None: 1})):
                        B.viol(f, s, "refused", "a %s value for which there is room is refused" % t.lower(), t)
                if not same(eng.lookup(s, deref(MAX)), w):
                    B.viol(f, s, "length", "the length reported for a %s value is not its length" % t.lower(), t)
                for e in w_:
                    k = const(lin(e[1][1]))
                    z = const(lin(e[3])) if e[0] != "set" else 8
                    if k is None or z is None or k < 0 or k + z > w[1]:
                        B.viol(f, s, "room", "more than the %s value is written" % t.lower(), t)
            if not good or not short:
                B.viol(f, None, "get", "a %s value is never handed out, or never refused for lack of room" % t.lower(), t)


def absent(B, f, s, o, fail, t, *out):
    if o[2] != fail:
        B.viol(f, s, "absent", "success for a field that is not present", t)
    elif last_error(s) != ("c", B.err["FNOTPRES"]):
        B.viol(f, s, "absent-error", "a field that is not present is not reported as FNOTPRES", t)
    elif outside(s, *out):
        B.viol(f, s, "absent-writes", "something is handed out for a field that is not present", t)


def check_absent(B):
    """Nothing is found where nothing is."""
    for name, args, fail in (("find", [OC, MAX], C0), ("len", [OC], ("c", -1)), ("getalloc", [OC, MAX], C0)):
        f = B.fn(name, len(args) + 1)
        for t in ("SHORT", "DOUBLE", "STRING"):
            fid = fldid(B.num[t])
            B.rep.instance("absent", "%s %s" % (name, t))
            st = nonnull(MAX)
            st.env[deref(MAX)] = ROOM
            eng, outs = B.run(f, [fid] + args, st, found=("there", "none", "other"), oldlen=8)
            for o in outs:
                if o[0] != "ret":
                    continue
                sought(B, f, o[1], fid, OC, t)
                if not any(e[0] == "search" and e[1] == "there" for e in o[1].ts):
                    absent(B, f, o[1], o, fail, t, MAX)
    f = B.fn("findlast", 3)
    N = ("sym", "count")
    for n in (C0, N):
        B.rep.instance("absent", "findlast")
        st = nonnull(LOC, MAX)
        if n == N:
            st.facts.update({mk_eq(N, C0): False, mk_lt(C0, N): True, mk_lt(N, C0): False, mk_lt(N, C1): False})
        fid = fldid(B.num["STRING"])
        eng, outs = B.run(f, [fid, LOC, MAX], st, counted=n, found=("there",), oldlen=8)
        for o in outs:
            if o[0] != "ret":
                continue
            s = o[1]
            if n == C0:
                absent(B, f, s, o, C0, "", LOC, MAX)
                continue
            last = mk_sub(N, C1)
            if o[2] == C0:
                B.viol(f, s, "last", "the last occurrence of a field is not found")
                continue
            sought(B, f, s, fid, last, "")
            if not same(eng.lookup(s, deref(LOC)), last):
                B.viol(f, s, "last", "the number of the last occurrence is not that of the value handed out")
    f = B.fn("pres", 2)
    fid = fldid(B.num["LONG"])
    B.rep.instance("absent", "pres")
    eng, outs = B.run(f, [fid, OC], found=("there", "none", "other"))
    for o in outs:
        sought(B, f, o[1], fid, OC, "")
        there = any(e[0] == "search" and e[1] == "there" for e in o[1].ts)
        if o[0] == "ret" and (o[2] == C0) == there:
            B.viol(f, o[1], "absent", "the presence of a field is not told")
    # counting stops at the first field of another number
    f = B.fn("occur", 1)
    B.rep.instance("absent", "occur")
    eng, outs = B.run(f, [fid], found=("there", "none", "other"), onestep=True)
    for o in outs:
        there = any(e[0] == "search" and e[1] == "there" for e in o[1].ts)
        sought(B, f, o[1], fid, C0, "")
        if o[0] == "ret" and o[2] != (C1 if there else C0):
            B.viol(f, o[1], "count", "the number of occurrences is not that of the fields")


def check_alloc(B):
    f = B.fn("getalloc", 3)
    saved, B.rule = B.rule, ValueRule(B.rep).start(B.prog)
    for t in B.types:
        for n in B.lens(t)[-2:]:
            w = ("c", B.width(t, n))
            for extra in (False, True):
                B.rep.instance("alloc", "%s/%d %s" % (t, n, extra))
                st = nonnull(MAX) if extra else State(ts=())
                if extra:
                    st.env[deref(MAX)] = ROOM
                eng, outs = B.run(f, [fldid(B.num[t]), OC, MAX if extra else C0], st, found=("there",), oldlen=n)
                good = 0
                for o in outs:
                    s = o[1]
                    if o[0] != "ret":
                        continue
                    m = [e for e in s.ts if e[0] == "malloc"]
                    if o[2] == C0:
                        if not m or m[-1][1] is not None:
                            B.viol(f, s, "alloc-refused", "a value that is present is not handed out", t)
                        elif last_error(s) != ("c", B.err["FMALLOC"]):
                            B.viol(f, s, "alloc-error", "lack of memory is not reported as FMALLOC", t)
                        continue
                    good += 1
                    if not m or m[-1][1] is None:
                        B.viol(f, s, "alloc-failed", "memory that was not got is used", t)
                        continue
                    want = mk_add(w, ROOM) if extra else w
                    if not same(m[-1][2], want):
                        B.viol(f, s, "alloc-size", "the memory got is not what was asked for and the value needs", t)
                    cp = [e for e in s.ts if e[0] == "copy" and e[1][0] == ("deref", m[-1][1])]
                    if not cp or not all(const(lin(e[1][1])) is not None and const(lin(e[1][1])) + (const(lin(e[3])) or 1 << 30) <= w[1] for e in cp):
                        B.viol(f, s, "alloc-size", "more than the value is written to the memory got", t)
                    if extra and not same(eng.lookup(s, deref(MAX)), w):
                        B.viol(f, s, "length", "the length reported for a value is not its length", t)
                if not good:
                    B.viol(f, None, "alloc", "no value is ever handed out", t)
    B.rule = saved


def check_next(B):
    f = B.fn("next", 4)
    for t in B.types:
        for n in B.lens(t)[-2:]:
            w = ("c", B.width(t, n))
            B.rep.instance("next", "%s/%d" % (t, n))
            st = nonnull(FIELD, OC, VAL, LEN)
            st.env[deref(LEN)] = ROOM
            st.env[deref(FIELD)] = C0
            st.env[deref(OC)] = C0
            for first in (("idx", ("fld", SELF, "data_"), C0), ("fld", SELF, "data_")):
                st.env[("fld", first, "fieldid")] = fldid(B.num[t])
                st.env[("fld", first, "flen")] = ("c", n)
            eng, outs = B.run(f, [FIELD, OC, VAL, LEN], st)
            good = 0
            for o in outs:
                if o[0] != "ret":
                    continue
                s = o[1]
                wr = [e for e in outside(s, VAL)]
                if o[2] == C0:
                    if wr:
                        B.viol(f, s, "end-writes", "a value is handed out behind the last field", t)
                    if not any(k[0] in ("<", "==") for k in s.facts):
                        B.viol(f, s, "end", "the fields end before the first one", t)
                    continue
                if o[2] == C1:
                    good += 1
                    if eng.lookup(s, deref(FIELD)) != fldid(B.num[t]):
                        B.viol(f, s, "next-field", "the field identifier handed out is not that of the field", t)
                    if not same(eng.lookup(s, deref(LEN)), w):
                        B.viol(f, s, "length", "the length reported for a %s value is not its length" % t.lower(), t)
                    if not wr:
                        B.viol(f, s, "next-value", "the value is not handed out", t)
                    if not atleast0(s, lsub(lin(ROOM), lin(w))):
                        B.viol(f, s, "room", "a %s value is handed out without comparing it with the room given" % t.lower(), t)
                else:
                    if wr:
                        B.viol(f, s, "refused-writes", "a value is handed out although failure is returned", t)
                    if last_error(s) != ("c", B.err["FNOSPACE"]):
                        B.viol(f, s, "short-error", "lack of room is not reported as FNOSPACE", t)
                    if not same(eng.lookup(s, deref(LEN)), w):
                        B.viol(f, s, "length", "the length needed for a value is not reported", t)
                for e in wr:
                    k, z = const(lin(e[1][1])), const(lin(e[3])) if e[0] != "set" else 8
                    if k is None or z is None or k < 0 or k + z > w[1]:
                        B.viol(f, s, "room", "more than the %s value is written" % t.lower(), t)
            if not good:
                B.viol(f, None, "next", "no field is ever handed out", t)
    # no place for the answer
    for a, b in ((C0, OC), (FIELD, C0)):
        B.rep.instance("next", "null")
        st = nonnull(*[x for x in (a, b) if x != C0])
        eng, outs = B.run(f, [a, b, VAL, LEN], st)
        for o in outs:
            if o[0] == "ret" and (o[2] != ("c", -1) or last_error(o[1]) != ("c", B.err["FEINVAL"])):
                B.viol(f, o[1], "next-null", "a missing argument is not refused as FEINVAL")


class CvtRule(ValueRule):
    """Calls between the functions of the interface and the buffer."""
    RES, RLEN, CVT, CLEN = ("sym", "result"), ("sym", "resultlen"), ("sym", "converted"), ("sym", "convertedlen")

    def answer(self, eng, st, call, what, good, lenp=None, lenv=None):
        s0, s1 = st.copy(), st.copy()
        a = (deref(addr(call.obj)) if call.obj is not None else None,) + tuple(call.args)
        lens = tuple(eng.lookup(st, deref(x)) if x == lenp else None for x in call.args)
        self.ev(s0, what, False, a, lens)
        self.ev(s1, what, True, a, lens)
        s0.note(eng.curfile(), call.line, "%s fails" % base(call.name))
        if lenp is not None and lenp != C0:
            s1.env[deref(lenp)] = lenv
        if good != C0:
            s1.facts[mk_eq(good, C0)] = False
        return [("ret", s0, C0 if good in (self.RES, self.CVT) else ("c", -1)), ("ret", s1, good)]

    def call(self, eng, st, call):
        n = base(call.name)
        root_ = eng.stack[0] if eng.stack else None
        if n == "Fbfr32::find":
            return self.answer(eng, st, call, "find", self.RES, call.args[2], self.RLEN)
        if n == "Ftypcvt32" and (root_ is None or root_["n"] != n):
            return self.answer(eng, st, call, "convert", self.CVT, call.args[0], self.CLEN)
        if n in ("Fbfr32::chg", "Fbfr32::findocc"):
            return self.answer(eng, st, call, n.split("::")[1], C0)
        if n == "Fbfr32::occur":
            self.ev(st, "occur", call.args[0])
            return [("ret", st, ("sym", "count"))]
        if n in ("Fbfr32::init", "Fbfr32::reinit", "Finit32") and (root_ is None or root_["n"] != n):
            p = call.args[0] if n == "Finit32" else addr(call.obj)
            z = call.args[-1]
            if n == "Fbfr32::reinit":
                self.ev(st, "init", p, z, True)
                return [("ret", st, C0)]
            s0, s1 = st.copy(), st.copy()
            self.ev(s0, "init", p, z, False)
            self.ev(s1, "init", p, z, True)
            s0.note(eng.curfile(), call.line, "the buffer is refused")
            return [("ret", s0, ("c", -1)), ("ret", s1, C0)]
        if n in ("Fbfr32::needed",):
            r = ("call", "needed", (), ()) + tuple(call.args)
            return [("ret", st, r)]
        if n in ("Fused32", "Fbfr32::used"):
            return [("ret", st, ("sym", "used"))]
        return super().call(eng, st, call)


def check_converted(B):
    """Values converted on the way in and out."""
    FB = ("c", 4096)
    TYPE = ("sym", "p:type")
    saved, B.rule = B.rule, CvtRule(B.rep).start(B.prog)
    R = CvtRule
    for t in B.types:
        fid, tn = fldid(B.num[t]), ("c", B.num[t])
        for name, args, act in (("CFadd32", [FB, fid, VAL, LEN, TYPE], "chg"), ("CFchg32", [FB, fid, OC, VAL, LEN, TYPE], "chg"),
                                ("CFfindocc32", [FB, fid, VAL, LEN, TYPE], "findocc")):
            f = B.prog.fn(name)
            B.rep.instance("convert-in", "%s %s" % (name, t))
            eng, outs = B.run(f, args)
            good = 0
            for o in outs:
                s = o[1]
                if o[0] != "ret":
                    continue
                cv = [e for e in s.ts if e[0] == "convert"]
                ac = [e for e in s.ts if e[0] == act]
                if any(not e[1] for e in cv + ac) and o[2] != ("c", -1):
                    B.viol(f, s, "convert-failed", "success although the value could not be converted or used", t)
                if not cv and ac:
                    B.viol(f, s, "convert-not", "a value of another type is used as it is", t)
                for e in cv:
                    if e[2][2] != tn or e[2][3:] != (VAL, TYPE, LEN):
                        B.viol(f, s, "convert-what", "not the value given is converted to the type of the field", t)
                for e in ac:
                    good += 1
                    if not cv or not cv[-1][1]:
                        B.viol(f, s, "convert-failed", "a value that could not be converted is used", t)
                        continue
                    i = 2 if act == "chg" else 1
                    if e[2][1] != fid or e[2][i + 1] != R.CVT or e[2][i + 2] != R.CLEN:
                        B.viol(f, s, "convert-use", "not the converted value and its length are used", t)
                    if act == "chg" and (e[2][2] != (OC if name == "CFchg32" else ("sym", "count"))) and \
                            not (name == "CFadd32" and e[2][2] == ("c", -1)):
                        B.viol(f, s, "convert-occurrence", "the value is not stored as the occurrence asked for", t)
            if not good:
                B.viol(f, None, "convert-in", "a converted value is never used", t)
        for lenp in (LEN, C0):
            B.rep.instance("convert-out", "CFfind32 " + t)
            f = B.prog.fn("CFfind32")
            st = nonnull(LEN)
            eng, outs = B.run(f, [FB, fid, OC, lenp, TYPE], st)
            good = 0
            for o in outs:
                s = o[1]
                if o[0] != "ret":
                    continue
                fi = [e for e in s.ts if e[0] == "find"]
                cv = [e for e in s.ts if e[0] == "convert"]
                if any(not e[1] for e in cv + fi):
                    if o[2] != C0:
                        B.viol(f, s, "convert-failed", "success although the value could not be found or converted", t)
                    continue
                if not fi or not cv or o[2] == C0:
                    if o[2] != C0:
                        B.viol(f, s, "convert-not", "a value that was not found and converted is handed out", t)
                    continue
                good += 1
                if fi[-1][2][1:3] != (fid, OC):
                    B.viol(f, s, "sought", "not the field and occurrence asked for are sought", t)
                if cv[-1][2][2:] != (TYPE, R.RES, tn, R.RLEN):
                    B.viol(f, s, "convert-what", "not the value found is converted to the type asked for", t)
                if o[2] != R.CVT or lenp == LEN and not same(eng.lookup(s, deref(LEN)), R.CLEN):
                    B.viol(f, s, "convert-use", "not the converted value and its length are handed out", t)
            if not good:
                B.viol(f, None, "convert-out", "no value is ever handed out", t)
            f = B.prog.fn("CFget32")
            B.rep.instance("convert-out", "CFget32 " + t)
            st = nonnull(LEN, LOC)
            st.env[deref(LEN)] = ROOM
            eng, outs = B.run(f, [FB, fid, OC, LOC, lenp, TYPE], st)
            good = 0
            for o in outs:
                s = o[1]
                if o[0] != "ret":
                    continue
                w_ = outside(s, LOC)
                ok = [e for e in s.ts if e[0] in ("find", "convert")]
                if o[2] != C0:
                    if w_:
                        B.viol(f, s, "refused-writes", "a value is handed out although failure is returned", t)
                    if ok and all(e[1] for e in ok):
                        if lenp == C0:
                            B.viol(f, s, "refused", "a value is refused although no limit was given", t)
                        elif last_error(s) != ("c", B.err["FNOSPACE"]):
                            B.viol(f, s, "short-error", "lack of room is not reported as FNOSPACE", t)
                        elif not atleast0(s, lsub(lsub(lin(R.CLEN), lin(ROOM)), {None: 1})):
                            B.viol(f, s, "refused", "a value for which there is room is refused", t)
                    continue
                good += 1
                if any(e[0] == "find" and e[2][1:3] != (fid, OC) for e in ok):
                    B.viol(f, s, "sought", "not the field and occurrence asked for are sought", t)
                if any(e[0] == "convert" and e[2][2:] != (TYPE, R.RES, tn, R.RLEN) for e in ok):
                    B.viol(f, s, "convert-what", "not the value found is converted to the type asked for", t)
                if any(not e[1] for e in ok) or not ok:
                    B.viol(f, s, "convert-failed", "success although the value could not be found or converted", t)
                    continue
                if lenp == LEN and not atleast0(s, lsub(lin(ROOM), lin(R.CLEN))):
                    B.viol(f, s, "room", "a converted value is handed out without comparing it with the room given", t)
                if lenp == LEN and not same(eng.lookup(s, deref(LEN)), R.CLEN):
                    B.viol(f, s, "length", "the length reported for a converted value is not its length", t)
                if len(w_) != 1 or w_[0][0] != "copy" or w_[0][2] != (deref(R.CVT), C0) or w_[0][1][1] != C0 or not same(w_[0][3], R.CLEN):
                    B.viol(f, s, "convert-use", "not the converted value is handed out", t)
            if not good:
                B.viol(f, None, "convert-out", "no value is ever handed out", t)
    for name, args in (("Ffinds32", [FB, fid, OC]), ("Fgets32", [FB, fid, OC, LOC])):
        f = B.prog.fn(name)
        B.rep.instance("convert-out", name)
        eng, outs = B.run(f, args, nonnull(LOC))
        for o in outs:
            ok = [e for e in o[1].ts if e[0] in ("find", "convert")]
            if o[0] != "ret":
                continue
            failed = C0 if name == "Ffinds32" else ("c", -1)
            if any(not e[1] for e in ok) and o[2] != failed:
                B.viol(f, o[1], "convert-failed", "success although the value could not be found or converted")
            if any(e[0] == "find" and e[2][1:3] != (fid, OC) for e in ok):
                B.viol(f, o[1], "sought", "not the field and occurrence asked for are sought")
            if any(e[0] == "convert" and e[2][2] != ("c", B.num["STRING"]) for e in ok):
                B.viol(f, o[1], "convert-what", "the value found is not converted to a string")
    check_buffers(B)
    B.rule = saved


# functions that do what the buffer's function of that name does: arguments are handed on as they are
SAME = {"Fchg32": "chg", "Fadd32": "chg", "Ffind32": "find", "Ffindlast32": "findlast", "Fpres32": "pres", "Foccur32": "occur",
        "Flen32": "len", "Fdel32": "del", "Fdelall32": "delall", "Fget32": "get", "Fnext32": "next", "Fgetalloc32": "getalloc",
        "Ffindocc32": "findocc", "Fcpy32": "cpy", "Fdelete32": "xdelete", "Fproj32": "proj", "Fprojcpy32": "projcpy",
        "Fupdate32": "update", "Fjoin32": "join", "Fojoin32": "ojoin", "Fconcat32": "concat", "Fwrite32": "write",
        "Fread32": "read", "Fused32": "used", "Funused32": "unused", "Fsizeof32": "size", "Fchksum32": "chksum"}


def check_handed_on(B):
    class On(BufRule):
        def call(self, eng, st, call):
            n = base(call.name)
            if call.fn is not None and call.fn.get("rec") == "Fbfr32":
                if n.split("::")[-1] in ("occur",) and "occur" != self.want:
                    return [("ret", st, ("sym", "count"))]
                self.ev(st, "on", n.split("::")[-1], addr(call.obj) if call.obj is not None else None, tuple(call.args))
                r = ("sym", "answer")
                eng.killsym(st, r)
                return [("ret", st, r)]
            return super().call(eng, st, call)
    saved = B.rule
    for name, m in sorted(SAME.items()):
        f = B.prog.fn(name)
        B.rep.instance("handed-on", name)
        B.rule = On(B.rep).start(B.prog)
        B.rule.want = m
        args, k = [], 0
        for i, p in enumerate(f["p"]):
            if (p["t"].get("p") or {}).get("r") == "Fbfr32":
                args.append(("c", 4096 * (i + 1)))
            elif p["n"] == "fieldid" and p["t"].get("k") == "int":
                args.append(fldid(B.num["LONG"]))
            else:
                args.append(("sym", "p:" + p["n"]))
        eng, outs = B.run(f, args)
        seen = False
        for o in outs:
            if o[0] != "ret":
                continue
            on = [e for e in o[1].ts if e[0] == "on" and e[1] == m]
            if not on:
                if o[2] is not None and o[2] not in (("c", -1), C0):
                    B.viol(f, o[1], "handed-on", "success although nothing was done")
                continue
            seen = True
            e = on[-1]
            want = tuple(args[1:])
            if name == "Fadd32":
                want = want[:1] + (("sym", "count"),) + want[1:]
            got = e[3]
            if name == "Fadd32" and len(got) == 4 and got[1] == ("c", -1):
                got = got[:1] + (("sym", "count"),) + got[2:]
            if e[2] != args[0] or got != want[:len(got)] or len(got) < len(want):
                B.viol(f, o[1], "handed-on", "not what was given is used")
            if o[2] != ("sym", "answer"):
                B.viol(f, o[1], "handed-on", "the result is not that of what was done")
        if not seen:
            B.viol(f, None, "handed-on", "nothing is done with a valid buffer and field")
    B.rule = saved


def check_buffers(B):
    """Buffers that are allocated are initialised, for the size that was allocated."""
    F, V, FB = ("sym", "p:F"), ("sym", "p:V"), ("c", 4096)
    need = ("call", "needed", (), (), F, V)
    for name, args in (("Falloc32", [F, V]), ("Frealloc32", [FB, F, V])):
        f = B.prog.fn(name)
        B.rep.instance("buffer", name)
        eng, outs = B.run(f, args)
        good = 0
        for o in outs:
            s = o[1]
            if o[0] != "ret":
                continue
            m = [e for e in s.ts if e[0] == "malloc"]
            i = [e for e in s.ts if e[0] == "init"]
            if o[2] == C0:
                if m and m[-1][1] is None and last_error(s) != ("c", B.err["FMALLOC"]):
                    B.viol(f, s, "buffer-error", "lack of memory is not reported as FMALLOC")
                elif not m and last_error(s) not in (("c", B.err["FEINVAL"]), ("c", B.err["FNOSPACE"])):
                    B.viol(f, s, "buffer-error", "a buffer is refused without telling why")
                if m and m[-1][1] is not None and name == "Falloc32" and not any(e[0] == "free" and e[1] == m[-1][1] for e in s.ts):
                    B.viol(f, s, "buffer-leak", "the memory of a buffer that is refused is lost")
                continue
            good += 1
            if not m or m[-1][1] is None or not same(m[-1][2], need):
                B.viol(f, s, "buffer-size", "the memory of a buffer is not what it needs")
                continue
            if o[2] != m[-1][1]:
                B.viol(f, s, "buffer-other", "not the buffer that was allocated is returned")
            if not i or i[-1][1] != m[-1][1] or not same(i[-1][2], m[-1][2]):
                B.viol(f, s, "buffer-init", "a buffer is not initialised for the memory it has")
            elif not i[-1][3]:
                B.viol(f, s, "buffer-init", "a buffer that could not be initialised is returned")
            if name == "Frealloc32" and not atleast0(s, lsub(lin(need), lin(("sym", "used")))):
                B.viol(f, s, "buffer-shrinks", "a buffer is made smaller than its fields")
        if not good:
            B.viol(f, None, "buffer", "no buffer is ever returned")


def check(prog, rep):
    B = Buffer(prog, rep)
    check_get(B)
    check_absent(B)
    check_alloc(B)
    check_next(B)
    check_converted(B)
    check_handed_on(B)
    rep.need("handed-on", 26)
    rep.need("get", 8)
    rep.need("absent", 9)
    rep.need("alloc", 8)
    rep.need("next", 8)
    rep.need("convert-in", 24)
    rep.need("convert-out", 16)
    rep.need("buffer", 2)
