"""Resource managers are called as the XA specification and the transaction managers' protocol prescribe."""
from .txsim import *

EXPLAIN = ("Path-sensitive simulation of the transaction manager's service with every request and every answer of the "
           "resource manager (the operation called for each request, its arguments, and that its result is the one "
           "sent back; an unknown request calls nothing and is refused), and of the functions that associate a thread "
           "with a transaction (flags passed to the resource manager for begin, join, resume, suspend, end).")

TPSUCCESS = ("c", 0x04000000)
PHASE2 = ("xa_prepare_entry", "xa_commit_entry", "xa_rollback_entry")


class TmRule(Sim):
    """Events: (xa entry, arguments, result), ("put", field, value), ("return", ...)"""
    opaque_names = {"mib::data_lock", "getmib"}

    def call(self, eng, st, call):
        n = base(call.name)
        m = n.split("::")[-1]
        a = call.args
        if n == "fux::to_string" or n.endswith("fml32buf::ptrptr"):
            return [("ret", st, eng.fresh(st, m, call.line))]
        if n == "fux::to_xid":
            # depends on the text only
            return [("ret", st, ("sym", "xid of " + show(self.text(eng, st, a[0]))))]
        if n.startswith("fux::fml32buf::") and m == "get":
            return self.get(eng, st, call)
        if n.startswith("fux::fml32buf::") and m == "put":
            self.put(eng, st, call)
            return [("ret", st, call.obj and addr(call.obj) or C0)]
        if n == "fux::tpreturn" or n == "tpreturn":
            self.ev(st, ("return", a[0], call.line))
            return [("noret", st, None)]
        return super().call(eng, st, call)

    @staticmethod
    def text(eng, st, v):
        if v[0] == "addr":
            v = eng.lookup(st, v[1])
        elif v[0] == "recv":
            v = eng.lookup(st, v[1])
        return v

    def get(self, eng, st, call):
        a = call.args
        f = a[0]
        got = ("sym", "field %s" % show(f))
        self.ev(st, ("get", f, got))
        out = [("ret", st, got)]
        dflt = [x for x in a[2:]] if len(a) > 2 else []
        if dflt:
            d = st.copy()
            v = dflt[0]
            if v[0] == "addr":
                v = eng.lookup(d, v[1])
            self.ev(d, ("default", f, v))
            out.append(("ret", d, v))
        else:
            t = st.copy()
            t.note(eng.curfile(), call.line, "the request has no field %s" % show(f))
            out.append(("throw", t, "std::out_of_range"))
        return out

    def put(self, eng, st, call):
        v = call.args[2]
        if v[0] in ("addr", "recv"):
            v = eng.lookup(st, v[1])
        self.ev(st, ("put", call.args[0], v, call.line))

    def xa(self, eng, st, call, f):
        if f not in PHASE2:
            return super().xa(eng, st, call, f)
        self.rep.instance(f, "%s:%d" % (eng.curfile(), call.line))
        a = call.args
        v = ("sym", "result of " + f)
        x = self.text(eng, st, a[0]) if a[0][0] == "addr" else a[0]
        self.ev(st, (f, x, a[1], v, call.line, a[2]))
        return [("ret", st, v)]


def tm_protocol(prog, rep=None, viol=None):
    """(code of the request -> xa entry, field of the request code, field of the result, ...)"""
    f = find(prog, "TM")
    rule = TmRule(rep or Quiet(), prog)
    eng, outs, _ = run_root(prog, rule, f, State(ts=(False, ())), rep=rep)
    ends = [(o[1], "throw" if o[0] == "throw" else "ret") for o in outs] + \
        [(st, "noret") for st, c in eng.noret]
    res = {"codes": {}, "fcode": set(), "fresult": set(), "fxid": set(), "frmid": set(), "fflags": set()}

    def bad(rl, msg, st):
        if viol:
            viol(f["file"], f["l"], f["n"], rl, msg, "%s|TM|%s" % (rl, msg[:60]), st.trace())
    seenunknown = 0
    for st, how in ends:
        evs = st.ts[1]
        xas = [e for e in evs if e[0] in PHASE2]
        gets = {e[2]: e[1] for e in evs if e[0] == "get"}
        puts = [e for e in evs if e[0] == "put"]
        rets = [e for e in evs if e[0] == "return"]
        if how == "throw":
            continue        # the dispatcher answers with a failure (P08)
        if len(xas) > 1:
            bad("tm-twice", "one request makes several calls of the resource manager", st)
            continue
        if not rets and how == "ret":
            bad("tm-no-answer", "the transaction manager does not answer a request", st)
        if not xas:
            seenunknown += 1
            vals = [p for p in puts if not (p[2][0] == "sym" and str(p[2][1]).startswith("field"))]
            if not vals or any(isc(p[2]) and p[2][1] >= 0 or not isc(p[2]) for p in vals[-1:]):
                bad("tm-unknown", "a request for no known operation is not refused", st)
            continue
        e = xas[0]
        # the request code: the field value that the path has compared with a constant
        code = None
        for v, fl in gets.items():
            for k in st.facts:
                if k[0] == "==" and st.facts[k] and v in k[1:]:
                    c = [x for x in k[1:] if isc(x)]
                    if c:
                        code = (c[0][1], fl)
        if code is None:
            bad("tm-code", "%s is called whatever the request asks for" % e[0], st)
            continue
        if code[0] in res["codes"] and res["codes"][code[0]] != e[0]:
            bad("tm-code", "the request %d leads to different operations" % code[0], st)
        res["codes"][code[0]] = e[0]
        res["fcode"].add(code[1])
        for p in puts:
            if p[2] == e[3]:
                res["fresult"].add(p[1])
        if not any(p[2] == e[3] for p in puts):
            bad("tm-result", "the result of %s is not sent back" % e[0], st)
        elif rets and [x for x in puts if x[1] in res["fresult"]][-1][2] != e[3]:
            bad("tm-result", "another result than that of %s is sent back" % e[0], st)
        if rets and rets[0][1] != TPSUCCESS:
            bad("tm-answer", "the result is sent back as the answer of a service that failed", st)
        xid = [fl for v, fl in gets.items() if e[1] == ("sym", "xid of " + show(v))]
        if not xid:
            bad("tm-xid", "%s is called for another transaction than the one requested" % e[0], st)
        res["fxid"].update(xid)
        rm = [fl for v, fl in gets.items() if e[2] == v]
        res["frmid"].update(rm)
        fl = [fl for v, fl in gets.items() if e[5] == v]
        res["fflags"].update(fl)
        if not fl and e[5] != C0 and not any(d[0] == "default" and d[2] == e[5] for d in evs):
            bad("tm-flags", "%s is called with other flags than the request's" % e[0], st)
        if viol:
            viol.inst("tm-operation", "%d -> %s" % (code[0], e[0]))
    res["unknown"] = seenunknown
    if viol:
        have = set(res["codes"].values())
        for x in PHASE2:
            if x not in have:
                viol(f["file"], f["l"], f["n"], "tm-missing", "no request leads to " + x, None, [])
        if len(have) != len(res["codes"]):
            viol(f["file"], f["l"], f["n"], "tm-code", "several requests lead to the same operation", None, [])
        if not seenunknown:
            viol(f["file"], f["l"], f["n"], "tm-unknown", "requests for unknown operations are not refused", None, [])
        for k in ("fcode", "fresult", "fxid", "frmid"):
            if len(res[k]) != 1:
                viol(f["file"], f["l"], f["n"], "tm-" + k, "the operations use different fields of the request", None, [])
    return res


class Quiet:
    def instance(self, *a):
        pass
    count = stats = violation = instance


class Viol:
    def __init__(self, rep):
        self.rep = rep

    def __call__(self, file, line, fn, rule, msg, key, trace):
        self.rep.violation(file, line, fn, rule, msg, key, trace)

    def inst(self, a, b):
        self.rep.instance(a, b)


FLAGS = (
    # function, arguments, start state, entry, flags, what
    ("tx_begin", None, ("s1", "s2"), "xa_start_entry", 0, "begun", False),
    ("fux::tx_join", None, ("s1", "s2"), "xa_start_entry", TMJOIN, "joined", False),
    ("_tx_resume", "info", ("s1", "s2"), "xa_start_entry", TMRESUME, "resumed", False),
    ("_tx_resume", "null", ("s1", "s2"), "xa_start_entry", TMRESUME, "resumed", True),
    ("_tx_suspend", "info", ("s3", "s4"), "xa_end_entry", TMSUSPEND, "suspended", False),
    ("_tx_suspend", "null", ("s3", "s4"), "xa_end_entry", TMSUSPEND, "suspended", False),
    ("fux::tx_end", "false", ("s3", "s4"), "xa_end_entry", TMFAIL, "ended by a service that failed", False),
    ("fux::tx_end", "true", ("s3", "s4"), "xa_end_entry", TMSUCCESS, "ended by a service that succeeded", False),
    ("tx_commit", None, ("s3", "s4"), "xa_end_entry", TMSUCCESS, "committed", False),
    ("tx_rollback", None, ("s3", "s4"), "xa_end_entry", (TMSUCCESS, TMFAIL), "rolled back", False),
)


def flags(prog, rep):
    for name, how, states, entry, want, what, susp in FLAGS:
        f = find(prog, name)
        p = ("sym", "p:" + f["p"][0]["n"]) if f.get("p") else None
        args = {None: None, "info": [p], "null": [C0], "false": [C0], "true": [C1]}[how]
        want = want if isinstance(want, tuple) else (want,)
        for s in states:
            n = 0
            for kind, st, v, eng in simulate(prog, rep, f, s, args, Sim(rep, prog), susp):
                mine = [e for e in st.ts[1] if e[0] == entry][:1]
                for e in mine:
                    n += 1
                    rep.instance("xa-flags", "%s(%s) %s" % (base(name), how or "", s))
                    if e[2] is None or not isc(e[2]) or e[2][1] not in want:
                        rep.violation(f["file"], e[4], f["n"], "xa-flags", "a transaction is %s with the flags %s" %
                                      (what, show(e[2]) if e[2] is not None else "?"),
                                      key="xa-flags|%s|%s" % (base(name), how), trace=st.trace())
            if not n:
                rep.violation(f["file"], f["l"], f["n"], "xa-missing", "a transaction is %s without telling the resource "
                              "manager" % what, key="xa-missing|%s|%s" % (base(name), how))


def check(prog, rep):
    tm_protocol(prog, rep, Viol(rep))
    flags(prog, rep)
    rep.need("tm-operation", 3)
    rep.need("xa-flags", 10)
