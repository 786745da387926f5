"""Simulation of the TX functions shared by P22 and P23: one run per function and starting state."""
from sa.lib import *

CTX = ("sym", "p:$ctxt")
CTXL = ("deref", CTX)


class Ctx:
    """The per-thread transaction context: its fields are found by their types."""

    def __init__(self, prog):
        c = [(n, r) for n, r in prog.records.items() if any((x["t"] or {}).get("s") == "tx_info_t"
                                                            for x in r.get("fields") or [])]
        if len(c) != 1:
            raise AnalysisBroken("the transaction context was not found (%d candidates)" % len(c))
        self.name, r = c[0]
        fs = r["fields"]

        def one(what, pred):
            x = [f["n"] for f in fs if pred(f["t"] or {})]
            if len(x) != 1:
                raise AnalysisBroken("the %s of the transaction context was not found" % what)
            return x[0]
        self.state = ("fld", CTXL, one("state", lambda t: t.get("k") == "enum"))
        self.info = ("fld", CTXL, one("information", lambda t: t.get("s") == "tx_info_t"))
        self.gttid = ("fld", CTXL, one("table entry", lambda t: t.get("k") == "int" and t.get("z") == 2))
        self.group = ("fld", CTXL, one("group", lambda t: t.get("k") == "ptr"))
        self.format = ("fld", ("fld", self.info, "xid"), "formatID")

OLDGTTID = ("sym", "gttid of the transaction")
OLDXID = ("sym", "format of the transaction")
BADXID = ("c", -1)
STATES = ("s0", "s1", "s2", "s3", "s4")
S = {n: ("c", i) for i, n in enumerate(STATES)}
TX = dict(OK=0, OUTSIDE=-1, ROLLBACK=-2, MIXED=-3, HAZARD=-4, PROTOCOL_ERROR=-5, ERROR=-6, FAIL=-7, EINVAL=-8,
          COMMITTED=-9, NO_BEGIN=-100)
TMSUSPEND, TMSUCCESS, TMFAIL, TMRESUME, TMJOIN = 0x02000000, 0x04000000, 0x20000000, 0x08000000, 0x00200000
BEGIN_OK = object()


def is_branches(t):
    return "vector<branch" in str((t or {}).get("s") or "") or "vector<branch" in str(t)


class Sim(FuxRule):
    """ts = (association with the resource manager, events)"""
    limit = 400
    opaque_names = {"fux::to_string", "fux::to_xid", "mib::data_lock", "getmib"}

    def __init__(self, rep, prog):
        super().__init__(rep)
        self.prog = prog
        self.ctx = Ctx(prog)
        self.reaches_call = {base(prog.functions[u]["n"]) for u in
                             reaching(prog, {u for u, f in prog.functions.items()
                                             if base(f["n"]) in ("tpacall_group", "tpacall")})}
        cg = callgraph(prog)
        self.commands, self.collects, self.judges = set(), set(), set()
        for u, f in prog.functions.items():
            ps = f.get("p") or []
            if any(is_branches(p["t"]) for p in ps):
                if base(f["n"]) in self.reaches_call:
                    self.commands.add(u)
            elif is_branches(f.get("rt")) and f.get("b") and not f.get("rec") and \
                    f["file"].startswith("src/"):
                self.collects.add(u)

    def opaque(self, fn):
        if fn.get("rec") in ("transaction_table", "mib") or (fn.get("rec") or "").startswith("mibarr"):
            return True
        if fn["u"] in self.commands or fn["u"] in self.collects:
            return True
        return super().opaque(fn)

    def may_throw(self, call):
        return None

    def ev(self, st, e):
        st.ts = (st.ts[0], st.ts[1] + (e,)) + st.ts[2:]

    def call(self, eng, st, call):
        n = base(call.name)
        a = call.args
        rt = str(call.rt)
        t = call.rt or {}
        while t.get("k") in ("ref", "ptr"):
            t = t.get("p") or {}
        if t.get("s") == self.ctx.name:
            return [("ret", st, CTX)]
        if n == "fux::to_string":
            return [("ret", st, eng.fresh(st, "text", call.line))]
        if call.name == "<indirect>":
            f = self.slot(call)
            if f:
                return self.xa(eng, st, call, f)
        if call.fn is not None and call.fn["u"] in self.commands:
            self.rep.instance("branches-command", "%s:%d" % (eng.curfile(), call.line))
            func = [x for x in a if isc(x)]
            vec = [x for x, p in zip(a, call.fn["p"]) if is_branches(p["t"])]
            ok = st.copy()
            self.ev(ok, ("command", func[0] if func else None, vec[0] if vec else None, call.line))
            if vec:
                eng.havoc(ok, deref(vec[0]) if vec[0][0] != "addr" else vec[0][1], call.line)
            t = st.copy()
            self.ev(t, ("command", func[0] if func else None, vec[0] if vec else None, call.line))
            t.note(eng.curfile(), call.line, "%s throws" % n)
            return [("ret", ok, C0), ("throw", t, "std::runtime_error")]
        if call.fn is not None and call.fn["u"] in self.collects:
            self.rep.instance("collect", "%s:%d" % (eng.curfile(), call.line))
            t = st.copy()
            t.note(eng.curfile(), call.line, "%s throws" % n)
            ok = st.copy()
            self.ev(ok, ("collect", call.line))
            return [("ret", ok, eng.fresh(ok, "branches", call.line)), ("throw", t, "std::out_of_range")]
        if call.fn is not None and call.fn.get("rec") == "transaction_table" or n.startswith("transaction_table::"):
            m = n.split("::")[-1]
            ok = st.copy()
            t = st.copy()
            t.note(eng.curfile(), call.line, "%s throws" % n)
            if m == "start":
                self.rep.instance("entry-start", "%s:%d" % (eng.curfile(), call.line))
                g = eng.fresh(ok, "started", call.line)
                self.ev(ok, ("start", g, call.line))
                return [("ret", ok, g), ("throw", t, "std::out_of_range")]
            if m == "end":
                self.rep.instance("entry-end", "%s:%d" % (eng.curfile(), call.line))
                self.ev(ok, ("end", a[0], call.line))
                return [("ret", ok, C0)]
            if m == "join":
                self.rep.instance("entry-join", "%s:%d" % (eng.curfile(), call.line))
                self.ev(ok, ("join", a[0], call.line))
                return [("ret", ok, ("sym", "joined entry")), ("throw", t, "std::out_of_range")]
            if m == "find":
                self.ev(ok, ("find", a[0], call.line))
                return [("ret", ok, eng.fresh(ok, "found", call.line)), ("throw", t, "std::out_of_range")]
            return [("ret", ok, eng.fresh(ok, m, call.line))]
        return super().call(eng, st, call)

    def slot(self, call):
        v = call.obj
        f = field_of(v[1]) if v and v[:1] == ("ld",) else None
        return f if f and f.startswith("xa_") else None

    def xa(self, eng, st, call, f):
        self.rep.instance(f, "%s:%d" % (eng.curfile(), call.line))
        a = call.args
        ok, no = st.copy(), st.copy()
        v = eng.fresh(no, f, call.line)
        no.facts[mk_eq(v, C0)] = False
        no.note(eng.curfile(), call.line, "%s fails" % f)
        flags = a[-1] if a else None
        x = deref(a[0]) if a and a[0][0] != "addr" else (a[0][1] if a else None)
        fmt = eng.lookup(st, ("fld", x, "formatID")) if x is not None and f in ("xa_start_entry", "xa_end_entry") else None
        assoc = st.ts[0]
        if f == "xa_start_entry":
            if assoc:
                self.fail(eng, st, "started-twice", "a transaction is started in the resource manager while the thread is "
                          "in one already", call.line)
            ok.ts = (True,) + ok.ts[1:]
        elif f == "xa_end_entry":
            if assoc is False:
                self.fail(eng, st, "ended-outside", "a transaction is ended in the resource manager while the thread is in "
                          "none", call.line)
            ok.ts = (False,) + ok.ts[1:]
            if flags is None or not isc(flags) or not flags[1] & TMSUSPEND:
                no.ts = (False,) + no.ts[1:]
        self.ev(ok, (f, True, flags, fmt, call.line))
        self.ev(no, (f, False, flags, fmt, call.line))
        return [("ret", ok, C0), ("ret", no, v)]


def start_state(ctx, s, suspended=False):
    intx = s in ("s3", "s4")
    st = State(ts=(intx, ()))
    st.env[ctx.state] = S[s]
    st.env[ctx.format] = OLDXID if intx or suspended else BADXID
    st.env[ctx.gttid] = OLDGTTID if intx or suspended else ("c", 65535)
    st.env[ctx.group] = ("sym", "group")
    if s != "s0":
        st.facts[mk_eq(("sym", "group"), C0)] = False
    if intx or suspended:
        st.facts[mk_eq(OLDXID, BADXID)] = False
    return st


def find(prog, name, pred=None):
    r = [f for f in prog.functions.values() if f["n"] == name and f.get("b") and (pred is None or pred(f))]
    if not r:
        raise AnalysisBroken("%s not found" % name)
    return r[0]


def simulate(prog, rep, f, s, args=None, rule=None, suspended=False, st=None):
    rule = rule or Sim(rep, prog)
    st = st or start_state(rule.ctx, s, suspended)
    for x in args or ():
        if not isc(x):
            st.facts[mk_eq(x, C0)] = False
    eng, outs, _ = run_root(prog, rule, f, st, args=args, rep=rep)
    return [(o[0], o[1], o[2] if len(o) > 2 else None, eng) for o in outs]
