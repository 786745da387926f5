"""Failing calls of the ATMI interface leave a documented error number, successful ones leave none."""
from sa.lib import *
from sa.effects import effects, STD_THROWS, STD_THROW_MEMBERS, zero_start

EXPLAIN = ("Path-sensitive simulation of every function of the ATMI interface: the value last stored in the thread's "
           "error number is followed through every path, with every function that can throw throwing each type its "
           "exception effects allow, every other interface function succeeding and failing as it is itself required "
           "to, and every result of the TX functions; at each exit the result returned and the error number must "
           "belong together. A constant table gives the error numbers of wrong arguments and of the causes the "
           "interface distinguishes; the names of the error numbers are checked by evaluating tpstrerror for each.")

TPE = dict(TPEABORT=1, TPEBADDESC=2, TPEBLOCK=3, TPEINVAL=4, TPELIMIT=5, TPENOENT=6, TPEOS=7, TPEPERM=8, TPEPROTO=9,
           TPESVCERR=10, TPESVCFAIL=11, TPESYSTEM=12, TPETIME=13, TPETRAN=14, TPGOTSIG=15, TPERMERR=16, TPEITYPE=17,
           TPEOTYPE=18, TPERELEASE=19, TPEHAZARD=20, TPEHEURISTIC=21, TPEEVENT=22, TPEMATCH=23, TPEDIAGNOSTIC=24,
           TPEMIB=25)
NAME = {v: k for k, v in TPE.items()}
CALLBACKS = {"tpsvrinit", "tpsvrdone", "tpsvrthrinit", "tpsvrthrdone", "tprminit"}
TX_OK, TX_OUTSIDE, TX_ROLLBACK, TX_MIXED, TX_HAZARD, TX_PROTOCOL, TX_ERROR, TX_FAIL = 0, -1, -2, -3, -4, -5, -6, -7
# what a result of the TX interface means for the transaction functions of ATMI
RM = {TX_ERROR: "TPERMERR", TX_FAIL: "TPERMERR"}
PROTO = {TX_PROTOCOL: "TPEPROTO"}
HEUR = {TX_MIXED: "TPEHEURISTIC", TX_HAZARD: "TPEHAZARD"}
TXMAP = {"tpopen": RM, "tpclose": {**RM, **PROTO}, "tpbegin": {**RM, **PROTO, TX_OUTSIDE: "TPETRAN"},
         "tpgetlev": PROTO, "tpabort": {**RM, **PROTO, **HEUR},
         "tpcommit": {**RM, **PROTO, **HEUR, TX_ROLLBACK: "TPEABORT"},
         "tpsuspend": {**RM, **PROTO}, "tpresume": {**RM, **PROTO}}
SYS = "TPEPROTO TPESYSTEM TPEOS "
DOCUMENTED = {k: set((SYS + v).split()) for k, v in {      # what each function may report
    "tpcancel": "TPEBADDESC TPETRAN", "tpsblktime": "TPEINVAL", "tpgblktime": "TPEINVAL",
    "tpacall": "TPEINVAL TPENOENT TPEITYPE TPELIMIT TPETRAN TPEBLOCK TPETIME TPGOTSIG",
    "tpgetrply": "TPEINVAL TPEOTYPE TPEBADDESC TPETIME TPESVCFAIL TPESVCERR TPEBLOCK TPGOTSIG TPETRAN TPEABORT",
    "tpcall": "TPEINVAL TPENOENT TPEITYPE TPEOTYPE TPELIMIT TPETRAN TPETIME TPESVCFAIL TPESVCERR TPEBLOCK TPGOTSIG "
              "TPEABORT",
    "tpadvertise": "TPEINVAL TPELIMIT TPEMATCH", "tpadvertisex": "TPEINVAL TPELIMIT TPEMATCH",
    "tpunadvertise": "TPEINVAL TPENOENT", "tpalloc": "TPEINVAL TPENOENT", "tprealloc": "TPEINVAL TPENOENT",
    "tptypes": "TPEINVAL", "tpimport": "TPEINVAL TPENOENT TPEITYPE TPEOTYPE", "tpexport": "TPEINVAL TPENOENT TPELIMIT",
    "tpinit": "TPEINVAL TPENOENT TPEPERM TPELIMIT", "tpterm": "", "tpappthrinit": "TPEINVAL TPENOENT TPEPERM TPELIMIT",
    "tpappthrterm": "", "tpopen": "TPERMERR", "tpclose": "TPERMERR", "tpbegin": "TPEINVAL TPETRAN TPERMERR",
    "tpgetlev": "", "tpabort": "TPEINVAL TPEHEURISTIC TPEHAZARD TPERMERR TPETRAN",
    "tpcommit": "TPEINVAL TPEHEURISTIC TPEHAZARD TPEABORT TPERMERR TPETRAN TPETIME TPEBLOCK",
    "tpsuspend": "TPEINVAL TPEABORT TPERMERR TPEHEURISTIC TPEHAZARD",
    "tpresume": "TPEINVAL TPEMATCH TPETRAN TPERMERR TPEHEURISTIC TPEHAZARD",
    "tpadmcall": "TPEINVAL TPEMIB TPENOENT TPEPERM",
    "tpenqueue": "TPEINVAL TPENOENT TPELIMIT TPETRAN TPETIME TPEBLOCK TPGOTSIG TPEDIAGNOSTIC"}.items()}
NOBLOCK = 0x1
INVALID = {     # arguments that are refused: name -> {parameter position: value}
    "tpalloc": ({0: 0},), "tprealloc": ({0: 0},), "tptypes": ({0: 0},), "tpimport": ({0: 0}, {2: 0}),
    "tpexport": ({0: 0}, {2: 0}, {3: 0}, {4: 2}), "tpgetrply": ({0: 0}, {1: 0}), "tpcall": ({0: 0}, {3: 0}),
    "tpacall": ({0: 0},), "tpbegin": ({1: 1},), "tpabort": ({0: 1},), "tpcommit": ({0: 1},),
    "tpsuspend": ({0: 0}, {1: 1}), "tpresume": ({0: 0}, {1: 1}), "tpsblktime": ({1: 0}, {1: 0x17}, {1: 0x23}),
    "tpgblktime": ({0: 0x10 * 5}, {0: 0x17}),
}


class Where:
    """Where the error number lives and which functions can change it."""

    def __init__(self, prog):
        eng, outs, _ = run_root(prog, FuxRule(), prog.fn("_tls_tperrno"), State(ts=()))
        if len(outs) != 1 or outs[0][2][0] != "addr":
            raise AnalysisBroken("the place of the error number was not found")
        self.loc = outs[0][2][1]
        d = self.loc[1]
        seeds = set()
        for u, f in prog.functions.items():
            for n in walk(f.get("b") or {}):
                if n.get("k") == "ref" and n.get("d") == d or n.get("n") == "_tls_tperrno":
                    seeds.add(u)
        self.reach = reaching(prog, seeds, lambda u: base(prog.functions[u]["n"]) in OPAQUE_DEFAULT)
        self.seeds = seeds
        fn = {base(f["n"]): u for u, f in prog.functions.items() if f.get("b")}
        for k, names in (("lookup", ("service_repository::get_queue",)), ("advertise", ("mib::advertise",))):
            us = [fn[x] for x in names if x in fn]
            if not us:
                raise AnalysisBroken(names[0] + " was not found")
            setattr(self, k, {base(prog.functions[u]["n"]) for u in reaching(prog, us)} |
                    ({base(prog.functions[u]["n"]) for u in closure(prog, us) if prog.functions[u].get("rec") ==
                     prog.functions[us[0]].get("rec")} if k == "lookup" else set()))


def closure(prog, us):
    cg, seen, work = callgraph(prog), set(), list(us)
    while work:
        u = work.pop()
        if u not in seen:
            seen.add(u)
            work += cg.get(u, ())
    return seen


class Contract(FuxRule):
    """ts = (error number, events with the most recent last, keys known to be in maps)"""
    limit = 30

    def __init__(self, rep, prog, where):
        super().__init__(rep)
        self.prog, self.where = prog, where
        self.ef = effects(prog)
        self.smalls = {}
        # the members of a fielded-buffer object that own memory
        self.own = {f["n"] for r in ("fux::fml32buf", "fux::fml32ptr") for f in
                    (prog.records.get(r) or {}).get("fields") or [] if not str(f["t"].get("s")).endswith("**")}

    def interface(self, fn):
        return fn.get("externc")

    def opaque(self, fn):
        if fn["u"] in self.where.seeds or fn.get("lam"):
            return False
        if self.interface(fn):
            return True
        if fn["u"] not in self.where.reach:
            return not self.small(fn)
        return super().opaque(fn)

    def small(self, fn, depth=0):
        """A short function that calls nothing but such functions."""
        if fn["u"] not in self.smalls:
            ns = [n for r in self.ef.roots(fn) for n in walk(r)]
            ok = bool(fn.get("b")) and len(ns) < 60 and depth < 4 and not any(
                n.get("k") in ("for", "while", "do", "rfor", "try", "throw", "lambda", "goto") for n in ns)
            for n in ns if ok else ():
                if n.get("k") in ("call", "ctor"):
                    g = self.prog.resolve(n["fn"], fn["unit"]) if n.get("fn") else None
                    if g is None and base(n.get("n") or "").startswith("std::"):
                        continue
                    if g is None or g is fn or g.get("externc") or not self.small(g, depth + 1):
                        ok = False
                        break
            self.smalls[fn["u"]] = ok
        return self.smalls[fn["u"]]

    def has(self, eng, st, call, n):
        """A map has the keys stored in it on this path."""
        last = n.split("::")[-1]
        if n.startswith(("std::map::", "std::unordered_map::")) and call.args and call.obj is not None:
            k = call.args[0]
            if k[0] == "addr":
                k = eng.lookup(st, k[1])
            if last == "operator[]":
                self.ev2(st, ("has", call.obj, k))
            elif last == "find" and ("has", call.obj, k) in st.ts[2]:
                v = eng.fresh(st, "found", call.line)
                self.ev2(st, ("found", v))
                return [("ret", st, v)]
            elif last in ("erase", "clear", "extract"):
                known = last == "erase" and ("has", call.obj, k) in st.ts[2]
                st.ts = st.ts[:2] + (tuple(x for x in st.ts[2] if x[:2] != ("has", call.obj)),)
                if known:
                    return [("ret", st, C1)]
        elif n in ("std::operator==", "std::operator!=") and st.ts[2]:
            a = [eng.lookup(st, x[1]) if x[0] == "addr" else x for x in call.args]
            if len(a) == 2 and any(("found", x) in st.ts[2] for x in a) and any("end" in show(x) for x in a):
                return [("ret", st, C0 if n.endswith("==") else C1)]
        return None

    def ev2(self, st, e):
        if e not in st.ts[2]:
            st.ts = st.ts[:2] + (st.ts[2] + (e,),)

    def seterr(self, st, v):
        st.ts = (v,) + st.ts[1:]

    def ev(self, st, *e):
        st.ts = (st.ts[0], st.ts[1] + (e,), st.ts[2])

    def store(self, eng, st, loc, val, node):
        if loc == self.where.loc:
            self.seterr(st, val)

    def post(self, eng, st, call, val):
        if val is None or isc(val) or val[0] == "addr":
            return
        if base(call.name).startswith("std::find"):
            st.facts[mk_eq(val, C0)] = False         # a place in a range
        elif call.name == "<indirect>" and (call.rt or {}).get("k") == "int" and not (call.rt or {}).get("sg"):
            st.facts[("<", val, C0)] = False         # a size

    def branch(self, eng, st, cond, truth, node):
        # sizes (P16) and descriptors (P07) are not negative: functions report failure by the constant -1
        if truth and cond[0] == "==" and st.ts[0] == C0 and any(isc(x) and x[1] < 0 for x in cond[1:]) and \
                not any(e[0] == "tx" and contains(cond, e[2]) for e in st.ts[1]):
            return False

    def throws(self, eng, call):
        f = eng.cur()
        n = call.node
        ts = self.ef.targets(n, f)
        out = set()
        for g in ts:
            out |= set(self.ef.leaving(g))
        name = base(call.name)
        if not ts:
            out |= set(STD_THROWS.get(name, ()))
            if name.startswith("std::") and "::" in name[5:] and not zero_start(n):
                out |= set(STD_THROW_MEMBERS.get(name.split("::")[-1], ()))
        return sorted(out)

    def keeping(self, eng, st, call):
        """A buffer that refers to the caller's memory goes on doing so."""
        keep = {l: v for l, v in st.env.items() if v == C0 and l[0] == "fld" and l[2] in self.own and
                l[1][0] == "fld" and l[1][2] in self.own}
        if not keep:
            return None
        out = eng.libcall(st, call, call.node) or eng.opaque_call(st, call, call.node)
        for s, x in out:
            s.env.update(keep)
            self.post(eng, s, call, x)
        return [("ret", s, x) for s, x in out]

    def call(self, eng, st, call):
        fn = call.fn
        n = base(call.name)
        if fn is not None and eng.can_inline(fn):
            return super().call(eng, st, call)
        for t in self.throws(eng, call):
            s = st.copy()
            self.ev(s, "throw", n, t)
            s.note(eng.curfile(), call.line, "%s throws %s" % (n, t))
            eng.thr.append((s, t))
        if fn is not None and fn.get("externc") and n.startswith(("tx_", "_tx_")):
            eng.opaque_call(st, call, call.node)
            v = eng.fresh(st, n, call.line)
            self.ev(st, "tx", n, v)
            self.rep.instance("tx-result", "%s:%d" % (eng.curfile(), call.line))
            return [("ret", st, v)]
        if fn is not None and fn.get("externc") and atmi(fn):
            self.rep.instance("interface-call", "%s:%d %s" % (eng.curfile(), call.line, n))
            out = []
            for ok in (True, False):
                s = st.copy()
                eng.opaque_call(s, call, call.node)
                if ok:
                    v = eng.fresh(s, n, call.line)
                    if pointer(fn):
                        s.facts[mk_eq(v, C0)] = False
                    else:
                        s.facts[("<", v, C0)] = False
                    self.seterr(s, C0)
                else:
                    v = C0 if pointer(fn) else ("c", -1)
                    self.seterr(s, ("sym", "error of " + n))
                    self.ev(s, "fails", n)
                    s.note(eng.curfile(), call.line, n + " fails")
                out.append(("ret", s, v))
            return out
        r = self.has(eng, st, call, n) if fn is None else None
        if r is None:
            r = super().call(eng, st, call)
        if r is not None:
            return r
        if fn is not None and fn["u"] in self.where.reach:
            self.seterr(st, ("sym", "error left by " + n))
        if n == "fux::ipc::qsend":      # leaves the header of the message as it is (P02)
            a, b = st.copy(), st.copy()
            self.ev(b, "full")
            b.note(eng.curfile(), call.line, "the queue is full")
            self.rep.instance("send", "%s:%d" % (eng.curfile(), call.line))
            return [("ret", a, C1), ("ret", b, C0)]
        return self.keeping(eng, st, call)

    def load(self, eng, st, loc, node):
        r = root(loc)
        if r is not None and r[0] == "deref" and r[1] == C0:
            self.ev(st, "null")


def pointer(f):
    return (f["rt"] or {}).get("k") == "ptr"


def atmi(f):
    return f["n"].startswith("tp") and (f["rt"] or {}).get("k") in ("int", "ptr") and f["n"] not in CALLBACKS and \
        f["n"] != "tpstrerror"


def failed(eng, st, f, v):
    """True, False or None (unknown)."""
    if pointer(f):
        return True if v == C0 else False if v[0] == "addr" else eng.decide(st, mk_eq(v, C0))
    return eng.decide(st, mk_lt(v, C0))


class Judge:
    def __init__(self, prog, rep, where):
        self.prog, self.rep, self.where = prog, rep, where
        self.rule = Contract(rep, prog, where)

    def run(self, f, args=None):
        st = State(ts=(("sym", "error of an earlier call"), (), ()))
        return run_root(self.prog, self.rule, f, st, args=args, rep=self.rep)

    def bad(self, f, st, rule, msg, key=""):
        self.rep.violation(f["file"], f["l"], f["n"], rule, "%s: %s" % (f["n"], msg), key="%s|%s%s" %
                           (rule, f["n"], key), trace=st.trace())

    def errs(self, eng, st, e):
        """Error numbers e can be: a set of numbers, or None when it is one a callee or a reply left."""
        if isc(e):
            return {e[1]}
        if e[0] == "sym" and e[1].startswith("error of ") and e[1] != "error of an earlier call":
            return None
        if e[0] == "sym" and e[1].startswith("error "):
            return {-99}
        if eng.decide(st, mk_eq(e, C0)) is False:
            return None
        return {0}

    def contract(self, f):
        eng, outs, _ = self.run(f)
        nok = nbad = 0
        for kind, st, v in outs:
            if kind != "ret":
                continue            # P11
            e = st.ts[0]
            fl = failed(eng, st, f, v)
            if fl is None and not pointer(f):        # a value: failure is reported by the constant -1
                fl = e != C0
            self.rep.instance("exit", f["n"])
            got = self.errs(eng, st, e)
            if fl is not False:
                nbad += 1
                if got is not None and not got <= set(NAME):
                    self.bad(f, st, "no-error", "the call can fail and leave %s" %
                             ("no error number" if got == {0} else "the error number as it was" if got == {-99}
                              else "the undocumented error number %s" % sorted(got)[0]))
                elif got is not None and not got <= {TPE[x] for x in DOCUMENTED.get(f["n"], TPE)}:
                    self.bad(f, st, "no-error", "the call can fail with %s, which is none of its errors" %
                             NAME[sorted(got)[0]], "|%d" % sorted(got)[0])
            if fl is not True:
                nok += 1
                if e != C0:
                    self.bad(f, st, "error-left", "the call can succeed and leave %s" %
                             ("an error number" if got is None or got != {-99} else "the error number as it was"))
            if fl is False:
                for ev in st.ts[1]:
                    if ev[0] in ("throw",) and self.swallowed(st, ev):
                        self.bad(f, st, "failure-hidden", "%s throws and the call reports success" % ev[1],
                                 "|" + ev[1])
            self.causes(f, eng, st, v, fl, got)
        return nok, nbad

    def swallowed(self, st, ev):
        return st.ts[1][-1] == ev

    def want(self, f, st, got, names, what, key):
        if got is not None and not got <= {TPE[n] for n in names}:
            self.bad(f, st, "wrong-error", "%s is reported as %s instead of %s" %
                     (what, NAME.get(sorted(got)[0], "error %d" % sorted(got)[0] if sorted(got)[0] >= 0
                                              else "what an earlier call left"), names[0]), key)

    def causes(self, f, eng, st, v, fl, got):
        n = f["n"]
        if n in TXMAP:
            tx = [e for e in st.ts[1] if e[0] == "tx"]
            if not tx or any(e[0] == "throw" for e in st.ts[1]):
                return
            fails = [e for e in tx if eng.decide(st, mk_eq(e[2], C0)) is not True]
            last = tx[-1]
            if n == "tpgetlev":
                if fl is not True and eng.decide(st, mk_eq(v, last[2])) is not True:
                    self.bad(f, st, "level", "the answer is not the one of the TX interface")
                if fl is False and eng.decide(st, mk_lt(v, C0)) is not False:
                    self.bad(f, st, "failure-hidden", "a negative result of the TX interface is an answer")
            elif fl is False and fails:
                self.bad(f, st, "failure-hidden", "%s fails and the call reports success" % fails[0][1])
            elif fl is True and not fails and st.ts[1][-1][0] != "fails" and got != {TPE["TPEINVAL"]}:
                self.bad(f, st, "success-hidden", "every call of the TX interface succeeds and the call fails")
            if fl is True and fails:
                for k, x in TXMAP[n].items():
                    if eng.decide(st, mk_eq(fails[-1][2], ("c", k))) is not False:
                        self.rep.instance("tx-error", "%s %d" % (n, k))
                        self.want(f, st, got, [x], "%s()=%d" % (fails[-1][1], k), "|%d" % k)
            return
        if fl is not True or not st.ts[1]:
            return
        ev = st.ts[1][-1]
        if ev[0] == "throw" and ev[2] == "std::out_of_range":
            for what, us, e in (("an unknown service", self.where.lookup, "TPENOENT"),
                                ("a full table", self.where.advertise, "TPELIMIT")):
                if ev[1] in us:
                    self.rep.instance("lookup-failure", n)
                    self.want(f, st, got, [e], what, "|" + e)
        if ev[0] == "full":
            p = [x for x in f["p"] if x["n"] == "flags"] or f["p"][-1:]
            fl = ("sym", "p:" + p[0]["n"])
            nb = None
            for k, t in list(st.facts.items()):
                if contains(k, fl) and contains(k, ("c", NOBLOCK)):
                    nb = eng.decide(st, k) if k[0] != "==" else None
            bit = mk_eq(mk_op("&", fl, ("c", NOBLOCK)), C0)
            z = eng.decide(st, bit)
            self.rep.instance("full-queue", n)
            self.want(f, st, got, ["TPETIME"] if z is True else ["TPEBLOCK"] if z is False else ["TPEBLOCK", "TPETIME"],
                      "a full queue", "|full")
            if z is None:
                self.bad(f, st, "wrong-error", "a full queue is reported without regard to TPNOBLOCK", "|flags")


def refused(prog, rep, j, f, a):
    args = [("sym", "p:" + p["n"]) for p in f["p"]]
    for i, x in a.items():
        args[i] = ("c", x)
    what = ", ".join("%s=%d" % (f["p"][i]["n"], x) for i, x in a.items())
    eng, outs, _ = j.run(f, args)
    rep.instance("refused-argument", "%s(%s)" % (f["n"], what))
    for kind, st, v in outs:
        if any(e[0] == "null" for e in st.ts[1]):
            j.bad(f, st, "null-used", "with %s the null pointer is used" % what, "|" + what)
        if kind != "ret" or any(e[0] == "throw" for e in st.ts[1]):
            continue
        fl = failed(eng, st, f, v)
        got = j.errs(eng, st, st.ts[0])
        if fl is not True:
            j.bad(f, st, "not-refused", "%s is not refused" % what, "|" + what)
        elif got != {TPE["TPEINVAL"]} and got is not None:
            j.bad(f, st, "wrong-error", "%s is reported as %s instead of TPEINVAL" %
                  (what, NAME.get(sorted(got)[0], "error %d" % sorted(got)[0])), "|" + what)
    for st, call in eng.noret:
        j.bad(f, st, "null-used", "with %s the process ends" % what, "|" + what)


def names(prog, rep):
    f = prog.fn("tpstrerror")
    for x, name in sorted(NAME.items()):
        eng, outs, _ = run_root(prog, FuxRule(rep), f, State(ts=()), args=[("c", x)], rep=rep)
        rep.instance("error-name", name)
        for kind, st, v in outs:
            if kind != "ret" or text(v) != name:
                rep.violation(f["file"], f["l"], f["n"], "error-name", "error number %d is called \"%s\" instead of %s" %
                              (x, text(v), name), key="error-name|%d" % x, trace=st.trace())


def text(v):
    for x in subterms(v):
        if x and x[0] in ("s", "str") and isinstance(x[1], str):
            return x[1]
    return show(v)


def check(prog, rep):
    where = Where(prog)
    j = Judge(prog, rep, where)
    fs = {}
    for u, f in sorted(prog.functions.items()):
        if f.get("externc") and f.get("b") and atmi(f):
            fs[f["n"]] = f
            ok, bad = j.contract(f)
            rep.instance("function", f["n"])
            if not ok and f["n"] != "tpenqueue":
                rep.violation(f["file"], f["l"], f["n"], "never-succeeds", f["n"] + " never succeeds")
    for n, l in sorted(INVALID.items()):
        if n not in fs:
            raise AnalysisBroken(n + " was not found")
        for a in l:
            refused(prog, rep, j, fs[n], a)
    names(prog, rep)
    rep.need("function", 28)
    rep.need("tx-error", 15)
    rep.need("full-queue", 1)
    rep.need("send", 1)
    rep.need("lookup-failure", 2)
