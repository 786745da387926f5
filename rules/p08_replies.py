"""Every request that asks for a reply is answered exactly once, with its own result."""
from sa.lib import *
from sa.engine import mk_op

EXPLAIN = ("Path-sensitive event sequences of the functions that end a service (return, forward) and of the dispatch "
           "loop, every send, queue lookup and data copy forked into success and exception: on each path that leaves "
           "the service a request that wants a reply was answered or forwarded exactly once (a failed attempt is "
           "followed by another), one that wants none got none; queue and descriptor are the request's, the result is "
           "a success only for a service success, the transaction branch was ended before with the same outcome; a "
           "forwarded request keeps reply queue, descriptor and transaction. In the loop every received request is "
           "executed, refused, put back or kept before the next is received. Requests carry the reply queue iff a "
           "reply is wanted.")

TPSUCCESS = ("c", 0x04000000)
TPTRAN = 0x10
NOTIME = ("c", 2)
TPNOREPLY = 0x4
TPNOTRAN = 0x8


def msgfld(st, l, f):
    for k, v in st.env.items():
        if k[0] == "fld" and k[2] == f and under(k, l):
            return v
    return None


def msgloc(a):
    return a[1] if a[0] in ("addr", "recv") else deref(a)


def origin(v, f):
    """Value loaded from field f of a message that was received (not written on the path)."""
    return isinstance(v, tuple) and len(v) > 1 and v[0] == "ld" and isinstance(v[1], tuple) and field_of(v[1]) == f


class Ending(FuxRule):
    """ts = (events, thrown, txended, freed)   events: ('send', fields...)"""
    limit = 200
    opaque_names = {"fux::tx::gttid", "checked_copy", "fux::ipc::msg::get_data", "mib::data_lock", "getmib", "get_queue",
                    "fux::tx_end", "fux::tx::transactional", "fux::ipc::qsend", "fux::ipc::msg::set_data", "tpfree",
                    "fux::atmi::set_tperrno", "fux::atmi::reset_tperrno", "fux::tx_join", "tpalloc", "fux::mem::tpfree"}
    want = ("p:data",)

    def __init__(self, rep, prog):
        super().__init__(rep)
        self.prog = prog

    def ev(self, st, e):
        st.ts = (st.ts[0] + (e,),) + st.ts[1:]

    def throw(self, st, what, eng, line):
        t = st.copy()
        t.ts = t.ts[:1] + (t.ts[1] + (what,),) + t.ts[2:]
        t.note(eng.curfile(), line, "%s throws" % what)
        return ("throw", t, "std::runtime_error")

    def use(self, eng, st, v, line):
        if v in st.ts[3]:
            self.bad(eng, st, "used-after-free", "data is used after it was freed", line)

    def bad(self, eng, st, rule, msg, line=None):
        if rule in self.report:
            self.fail(eng, st, rule, msg, line)

    def call(self, eng, st, call):
        n = base(call.name)
        a = call.args
        if n == "fux::tx::transactional":
            return [("ret", st, C0 if st.ts[2] is not None else ("sym", "transactional"))]
        if n == "fux::tx::gttid":
            return [("ret", st, ("sym", "gttid") if st.ts[2] is None else ("sym", "no gttid"))]
        if n == "fux::tx_end":
            self.rep.instance("branch-end", "%s:%d" % (eng.curfile(), call.line))
            ok = st.copy()
            ok.ts = ok.ts[:2] + (a[0],) + ok.ts[3:]
            return [("ret", ok, C0), self.throw(st, "tx_end", eng, call.line)]
        if n == "get_queue":
            ok = st.copy()
            return [("ret", ok, ("sym", "queue of the service")), self.throw(st, "get_queue", eng, call.line)]
        if n == "fux::ipc::msg::set_data":
            self.use(eng, st, a[0], call.line)
            ok = st.copy()
            self.ev(ok, ("data", call.obj, a[0], a[1]))
            res = [("ret", ok, C0)]
            if a[0] != C0:
                res.append(self.throw(st, "set_data", eng, call.line))
            return res
        if n in ("tpfree", "fux::mem::tpfree"):
            self.rep.instance("free", "%s:%d" % (eng.curfile(), call.line))
            if a[0] in st.ts[3]:
                self.bad(eng, st, "freed-twice", "data is freed twice", call.line)
            st.ts = st.ts[:3] + (st.ts[3] | {a[0]},)
            return [("ret", st, C0)]
        if n == "fux::ipc::qsend":
            self.rep.instance("send", "%s:%d" % (eng.curfile(), call.line))
            l = msgloc(a[1])
            f = {x: msgfld(st, l, x) for x in ("cd", "mtype", "rval", "rcode", "replyq", "gttid", "flags")}
            d = [e for e in st.ts[0] if e[0] == "data" and e[1] == l]
            e = ("send", a[0], tuple(sorted(f.items())), d[-1][2:] if d else None, st.ts[2], len(st.ts[1]), call.line,
                 l)
            t = self.throw(st, "qsend", eng, call.line)
            ok = st.copy()
            self.ev(ok, e)
            res = [("ret", ok, C1), t]
            if a[3] != NOTIME:
                full = st.copy()
                full.note(eng.curfile(), call.line, "the queue is full")
                res.append(("ret", full, C0))
            return res
        return super().call(eng, st, call)


def wants(eng, st, q):
    """Does the request want a reply on this path?"""
    d = eng.decide(st, mk_eq(q, ("c", -1)))
    return None if d is None else not d


def reqfield(st, eng, f):
    """The term of a field of the request being served, as the path read it."""
    for t in list(st.facts) + list(st.env.values()):
        if isinstance(t, tuple):
            for x in subterms(t):
                if x[:1] == ("ld",) and len(x) > 1 and isinstance(x[1], tuple) and field_of(x[1]) == f:
                    return x
    return None


def analyse(prog, rep, rules):
    """Run the endings; returns [(kind, fn, eng, state)]."""
    res = []
    for name in ("tpreturn", "tpforward"):
        f = None
        for g in prog.functions.values():
            if g["n"] == name and g.get("externc"):
                f = g
        if f is None:
            raise AnalysisBroken("no C function " + name)
        rule = Ending(rep, prog)
        rule.report = rules
        st = State(ts=((), (), None, frozenset()))
        eng, outs, fn = run_root(prog, rule, f, st, rep=rep)
        rep.instance("ending", name)
        for s, call in eng.noret:
            if call is not None and base(call.name) in ("abort", "std::abort", "std::terminate", "exit"):
                continue
            rep.count("exits")
            res.append((name, f, eng, s, rule))
        for o in outs:
            if o[0] == "ret":
                rep.count("exits")
                if "no-return" in rules:
                    rep.violation(f["file"], f["l"], f["n"], "no-return", "%s() returns to the service" % name,
                                  trace=o[1].trace())
    if not res:
        raise AnalysisBroken("the endings have no exits")
    return res


RULES = ("no-return", "reply-missing", "reply-unwanted", "reply-twice", "reply-address", "reply-result", "branch-first",
         "branch-result", "branch-left", "forward-address", "forward-transaction", "forward-type")


def check(prog, rep):
    for name, f, eng, st, rule in analyse(prog, rep, RULES):
        def bad(r, msg, line=None):
            rep.violation(f["file"], line or f["l"], f["n"], r, msg, trace=st.trace())
        sends = [e for e in st.ts[0] if e[0] == "send"]
        replies, forwards = [], []
        for e in sends:
            if e[1] == ("sym", "queue of the service"):
                forwards.append(e)
            elif origin(e[1], "replyq"):
                replies.append(e)
            else:
                bad("reply-address", "a reply goes to a queue that is not the caller's", e[6])
        done = len(replies) + len(forwards)
        if done > 1:
            bad("reply-twice", "a request is answered twice")
        q = replies[0][1] if replies else reqfield(st, eng, "replyq")
        w = wants(eng, st, q) if q is not None else None
        if replies and w is not True:
            bad("reply-unwanted", "a reply is sent although the caller asked for none", replies[0][6])
        if name == "tpforward" and not st.ts[1] and len(forwards) != 1:
            bad("reply-missing", "a request is dropped instead of being forwarded")
        if not done and w is not False and len(st.ts[1]) < 2:
            bad("reply-missing", "a request that wants a reply is left unanswered")
        ok = eng.decide(st, mk_eq(("sym", "p:rval"), TPSUCCESS)) if name == "tpreturn" else False
        for e in replies:
            fl = dict(e[2])
            for x in ("cd", "mtype"):
                if not origin(fl[x], "cd"):
                    bad("reply-address", "the reply does not carry the descriptor of its request (%s)" % x, e[6])
            if fl["rval"] is None:
                bad("reply-result", "a reply is sent without a result", e[6])
            elif eng.decide(st, mk_eq(fl["rval"], C0)) is not False and (ok is not True or e[5]):
                bad("reply-result", "a failed request is answered as a success", e[6])
            elif ok is True and not e[5] and eng.decide(st, mk_eq(fl["rval"], C0)) is not True and \
                    eng.decide(st, mk_eq(("sym", "p:flags"), C0)) is not False:
                bad("reply-result", "a successful request is answered as a failure", e[6])
            if not e[5] and name == "tpreturn":
                if fl["rcode"] != ("sym", "p:rcode"):
                    bad("reply-result", "the reply does not carry the return code of the service", e[6])
                if e[3] is None or e[3][0] != ("sym", "p:data") or e[3][1] != ("sym", "p:len"):
                    bad("reply-result", "the reply does not carry the data of the service", e[6])
        intx = eng.decide(st, ("==", ("sym", "transactional"), C0)) is False
        for e in sends:
            if e[5]:
                continue        # something failed before
            if intx and e[4] is None:
                bad("branch-first", "the caller gets its answer before the service's part of the transaction ended", e[6])
            if intx and e[4] is not None and name == "tpreturn":
                d = eng.decide(st, mk_eq(e[4], C0))
                if ok is not True and d is not True:
                    bad("branch-result", "the part of the transaction of a failed service ends as a success", e[6])
                if ok is True and d is not False:
                    bad("branch-result", "the part of the transaction of a successful service ends as a failure", e[6])
        if intx and st.ts[2] is None and not st.ts[1]:
            bad("branch-left", "the service's part of the transaction is not ended")
        if intx and name == "tpforward" and forwards and st.ts[2] is not None and not st.ts[1] and \
                eng.decide(st, mk_eq(st.ts[2], C0)) is not False:
            bad("branch-result", "the part of the transaction of a service that forwards may end as a failure")
        if not intx and st.ts[2] is not None and eng.decide(st, ("==", ("sym", "transactional"), C0)) is not False:
            bad("branch-first", "a transaction is ended although there may be none")
        for e in forwards:
            fl = dict(e[2])
            if not origin(fl["replyq"], "replyq") or not origin(fl["cd"], "cd"):
                bad("forward-address", "a forwarded request loses its caller's queue or descriptor", e[6])
            if not (origin(fl["mtype"], "mtype") or fl["mtype"] is not None and isc(fl["mtype"]) and fl["mtype"][1] > 0):
                bad("forward-type", "the message type of a forwarded request may be no valid one", e[6])
            if e[3] is None or e[3][0] != ("sym", "p:data") or e[3][1] != ("sym", "p:len"):
                bad("forward-address", "a forwarded request does not carry the data", e[6])
            g = fl["gttid"]
            if intx:
                if g != ("sym", "gttid"):
                    bad("forward-transaction", "a forwarded request loses the transaction", e[6])
                if fl["flags"] is None or eng.decide(st, mk_eq(mk_op("&", fl["flags"], ("c", TPTRAN)), C0)) is not False:
                    bad("forward-transaction", "a forwarded request is not marked as part of the transaction", e[6])
            elif eng.decide(st, ("==", ("sym", "transactional"), C0)) is True:
                if fl["flags"] is None or eng.decide(st, mk_eq(mk_op("&", fl["flags"], ("c", TPTRAN)), C0)) is not True:
                    bad("forward-transaction", "a forwarded request is marked as part of a transaction", e[6])
    dispatch(prog, rep)
    requests(prog, rep)
    deliveries(prog, rep)
    rep.need("outcome", 1)
    rep.need("ending", 2)
    rep.need("send", 2)
    rep.need("received", 1)
    rep.need("request", 1)


# ------------------------------------------------------------ the dispatch loop
class Dispatch(Ending):
    """ts = (state of the request, thrown, joined, freed)"""
    limit = 120
    report = ()

    def opaque(self, fn):
        n = base(fn["n"])
        if n.split("::")[-1] in ("tpreturn", "tpforward"):
            return True
        return fn["u"] not in self.relevant and not fn.get("lam") and fn.get("rec") != "fux::ipc::msg" or super().opaque(fn)

    def may_throw(self, call):
        return None

    def setst(self, st, v):
        st.ts = (v,) + st.ts[1:]

    def call(self, eng, st, call):
        n = base(call.name)
        a = call.args
        s = st.ts[0]
        if n == "fux::ipc::qrecv":
            self.rep.instance("received", "%s:%d" % (eng.curfile(), call.line))
            if s in ("pending", "called"):
                self.fail(eng, st, "request-dropped", "the next request is received although the last one was neither "
                          "executed nor answered", call.line)
            l = msgloc(a[1])
            eng.havoc(st, l, call.line)
            self.setst(st, "pending")
            st.ts = st.ts[:2] + (None,) + st.ts[3:]
            self.req, self.queue = l, a[0]
            return [("ret", st, C0)]
        if n == "fux::tx_join":
            t = self.throw(st, "tx_join", eng, call.line)
            st = st.copy()
            st.ts = st.ts[:2] + (a[0],) + st.ts[3:]
            return [("ret", st, C0), t]
        if n in ("setjmp", "_setjmp", "__sigsetjmp"):
            b = st.copy()
            self.setst(b, "answered")      # the service ended through tpreturn() or tpforward()
            b.note(eng.curfile(), call.line, "the service has ended")
            return [("ret", st, C0), ("ret", b, C1)]
        if call.name == "<indirect>" and len(a) == 1 and self.isinfo(call):
            self.rep.instance("service-call", "%s:%d" % (eng.curfile(), call.line))
            if s != "pending":
                self.fail(eng, st, "executed-twice", "a request is executed that was %s already" % s, call.line)
            tran = self.flag(eng, st)
            if tran is True and not origin(st.ts[2], "gttid"):
                self.fail(eng, st, "join", "a request of a transaction is executed outside of it", call.line)
            if tran is None:
                self.fail(eng, st, "join", "a request is executed without looking whether it is part of a transaction",
                          call.line)
            if tran is False and st.ts[2] is not None:
                self.fail(eng, st, "join", "a request outside of a transaction joins one", call.line)
            self.setst(st, "called")
            t = st.copy()
            t.note(eng.curfile(), call.line, "the service throws")
            return [("ret", st, C0), ("throw", t, "std::exception")]
        if n.split("::")[-1] in ("tpreturn", "tpforward"):
            self.rep.instance("answer", "%s:%d" % (eng.curfile(), call.line))
            if s == "answered":
                self.fail(eng, st, "answered-twice", "a request is answered that was answered already", call.line)
            if n.split("::")[-1] == "tpreturn" and (a[0] == TPSUCCESS or a[0] == C0 or not isc(a[0])):
                self.fail(eng, st, "reply-result", "a request that no service finished is answered as a success", call.line)
            t = self.throw(st, "tpreturn", eng, call.line)
            if n in ("tpreturn", "tpforward"):
                t = None        # the C function answers in any case
            self.setst(st, "answered")
            eng.noret.append((st, call))
            return [t] if t else []
        if n == "fux::ipc::msg::operator=" and call.obj is not None and a and msgloc(a[0]) == self.req:
            self.copied(st, call.obj)
        if n == "fux::ipc::qsend":
            if a[0] == self.queue and msgloc(a[1]) == self.req:
                self.rep.instance("put-back", "%s:%d" % (eng.curfile(), call.line))
                t = self.throw(st, "qsend", eng, call.line)
                st = st.copy()
                self.setst(st, "put back")
                return [("ret", st, C1), t]
            return [("ret", st, C1), self.throw(st, "qsend", eng, call.line)]
        return FuxRule.call(self, eng, st, call)

    def copied(self, st, l):
        if l[0] == "fld":
            st.ts = st.ts[:3] + (st.ts[3] | {("copied", l[1])},)

    def isinfo(self, call):
        for x in call.argn:
            e = strip(x)
            while e is not None and e.get("k") == "un" and e.get("op") == "&":
                e = strip(e["e"])
            t = (e or {}).get("t") or (e or {}).get("dt") or {}
            if "tpsvcinfo" in str(t):
                return True
        return False

    def flag(self, eng, st):
        for f, v in st.facts.items():
            if f[0] == "==" and f[2] == C0 and f[1][0] == "op" and f[1][1] == "&" and ("c", TPTRAN) in f[1][2:4] and \
                    any(origin(x, "flags") for x in f[1][2:4]):
                return not v
        return None

    def store(self, eng, st, loc, val, node):
        if loc[0] == "fld" and loc[2] == "reply_to_shutdown" and val == C1 and st.ts[0] == "pending":
            self.rep.instance("kept", "%s:%s" % (eng.curfile(), (node or {}).get("l")))
            self.setst(st, "kept for the end")
            x, own = loc[1], self.req[1] if self.req[0] == "fld" else None
            if x != own and ("copied", x) not in st.ts[3] and \
                    (own is None or eng.decide(st, mk_eq(ptr(x), ptr(own))) is not True):
                self.fail(eng, st, "kept-other", "the answer kept for the end may go to another request", (node or {}).get("l"))


def ptr(x):
    return x[1] if x[0] == "deref" else addr(x)


def dispatch(prog, rep):
    recv = {u for u, f in prog.functions.items() if base(f["n"]) == "fux::ipc::qrecv"}
    cg = callgraph(prog)
    loops = []
    for u, f in sorted(prog.functions.items()):
        if f["u"] in recv or not f.get("b"):
            continue
        for n in walk(f["b"]):
            if n["k"] == "call" and not n.get("n") and not n.get("fn") and len(n.get("args") or []) == 1 and \
                    "tpsvcinfo" in str(infotype(n["args"][0])):
                loops.append(u)
                break
    # the function that receives and (itself or below) calls the service
    reach = reaching(prog, set(loops))
    roots = [u for u in sorted(reach) if any(x in recv for x in closure(cg, u)) and prog.functions[u].get("b")]
    roots = [u for u in roots if not any(v != u and v in closure(cg, u) for v in roots)]
    if not roots:
        raise AnalysisBroken("no dispatch loop")
    for u in roots:
        f = prog.functions[u]
        rule = Dispatch(rep, prog)
        rule.relevant = (reach | reaching(prog, recv) | reaching(prog, set(loops))) & closure(cg, u) | set(loops)
        for x in closure(cg, u):
            g = prog.functions[x]
            if g.get("rec") in ("server_thread", "server_main") or g["file"] == f["file"] and not g.get("rec"):
                rule.relevant.add(x)
        rule.req = rule.queue = None
        eng, outs, fn = run_root(prog, rule, f, State(ts=("none", (), None, frozenset())), rep=rep)
        for o in outs:
            rep.count("exits")
            if o[0] == "ret" and o[1].ts[0] in ("pending", "called"):
                rep.violation(f["file"], f["l"], f["n"], "request-dropped", "the loop ends with a request that was "
                              "neither executed nor answered", trace=o[1].trace())
            if o[0] == "throw" and o[1].ts[0] == "called":
                rep.violation(f["file"], f["l"], f["n"], "request-dropped", "the loop is left by an exception of a "
                              "service, its caller is not answered", trace=o[1].trace())


def infotype(e):
    e = strip(e)
    while e is not None and e.get("k") == "un" and e.get("op") == "&":
        e = strip(e["e"])
    return (e or {}).get("t") or (e or {}).get("dt") or {}


def closure(cg, u):
    seen, work = set(), [u]
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            work += list(cg.get(x, ()))
    return seen


# ------------------------------------------------------------ requests
class Request(Ending):
    report = ()
    limit = 200

    def opaque(self, fn):
        return fn.get("rec") in ("service_repository", "mib") or (fn.get("rec") or "").startswith("mibarrptr<") or \
            super().opaque(fn) or base(fn["n"]) in ("tptypes",)

    def call(self, eng, st, call):
        n = base(call.name)
        if n == "fux::ipc::qsend":
            self.rep.instance("request", "%s:%d" % (eng.curfile(), call.line))
            l = msgloc(call.args[1])
            f = {x: msgfld(st, l, x) for x in ("replyq", "flags", "gttid")}
            fl = ("sym", "p:flags")
            rq = f["replyq"]
            nr = eng.decide(st, mk_eq(mk_op("&", fl, ("c", TPNOREPLY)), C0))
            if nr is None or rq is None:
                self.fail(eng, st, "reply-wanted", "a request is sent without looking whether a reply is wanted", call.line)
            elif nr is False and eng.decide(st, mk_eq(rq, ("c", -1))) is not True:
                self.fail(eng, st, "reply-wanted", "a request without a reply carries a reply queue", call.line)
            elif nr is True and not origin(rq, "rpid"):
                self.fail(eng, st, "reply-wanted", "a request that wants a reply does not carry the caller's queue",
                          call.line)
            tr = eng.decide(st, ("==", ("sym", "transactional"), C0))
            nt = eng.decide(st, mk_eq(mk_op("&", fl, ("c", TPNOTRAN)), C0))
            has = None if f["flags"] is None else eng.decide(st, mk_eq(mk_op("&", f["flags"], ("c", TPTRAN)), C0))
            if tr is False and nt is True:
                if has is not False or f["gttid"] != ("sym", "gttid"):
                    self.fail(eng, st, "request-transaction", "a request made in a transaction does not carry it",
                              call.line)
            elif (tr is True or nt is False) and has is not True:
                self.fail(eng, st, "request-transaction", "a request made outside of a transaction carries one", call.line)
            elif tr is None and nt is not False:
                self.fail(eng, st, "request-transaction", "a request is sent without looking for a transaction", call.line)
        return super().call(eng, st, call)


def requests(prog, rep):
    send = {u for u, f in prog.functions.items() if base(f["n"]) == "fux::ipc::qsend"}
    inside = reaching(prog, send)
    cg = callgraph(prog)
    mem = {u for u in inside if prog.functions[u].get("rec") == "client" and not isctor(prog.functions[u])}
    inner = set()
    for u in mem:
        inner |= (cg[u] & mem) - {u}
    roots = [u for u in sorted(mem) if u not in inner and not prog.functions[u].get("dtor")]
    for u in roots:
        rule = Request(rep, prog)
        run_root(prog, rule, prog.functions[u], State(ts=((), (), None, frozenset())), rep=rep)


# ------------------------------------------------------------ the caller's side
class Delivery(FuxRule):
    """ts = (message that was handed out or None, error number left)"""
    limit = 2000
    opaque_names = {"tptypes", "fux::ipc::msg::get_data", "getmib", "mib::accessers", "mib::mach", "checked_copy",
                    "fux::atmi::set_tperrno", "fux::atmi::reset_tperrno", "mib::data_lock"}

    def opaque(self, fn):
        r = fn.get("rec") or ""
        return r in ("service_repository", "mib", "responses") or r.startswith("mibarrptr<") or super().opaque(fn)

    def may_throw(self, call):
        return None

    def call(self, eng, st, call):
        n = base(call.name)
        if n == "fux::ipc::qrecv":
            eng.havoc(st, msgloc(call.args[1]), call.line)
            return [("ret", st, C0)]
        if n == "fux::ipc::msg::get_data":
            st.ts = (call.obj, st.ts[1])
            return [("ret", st, C0)]
        if n == "fux::atmi::set_tperrno":
            st.ts = (st.ts[0], call.args[0])
            return [("ret", st, C0)]
        if n == "fux::atmi::reset_tperrno":
            st.ts = (st.ts[0], C0)
            return [("ret", st, C0)]
        return super().call(eng, st, call)


def says(v, f):
    """Field f of a message, as received or kept."""
    return origin(v, f) or isinstance(v, tuple) and len(v) == 3 and v[0] == "sel" and v[2] == f


def deliveries(prog, rep):
    """What the caller is told is what the reply says."""
    take = {u for u, f in prog.functions.items() if base(f["n"]) == "fux::ipc::msg::get_data"}
    recv = {u for u, f in prog.functions.items() if base(f["n"]) == "fux::ipc::qrecv"}
    both = reaching(prog, take) & reaching(prog, recv)
    mem = {u for u in both if prog.functions[u].get("rec") == "client" and not isctor(prog.functions[u])}
    cg = callgraph(prog)
    inner = set()
    for u in mem:
        inner |= (cg[u] & mem) - {u}
    for u in sorted(mem - inner):
        f = prog.functions[u]
        rule = Delivery(rep)
        eng, outs, fn = run_root(prog, rule, f, State(ts=(None, None)), rep=rep)
        for o in outs:
            st = o[1]
            if o[0] != "ret" or st.ts[0] is None:
                continue
            rep.instance("outcome", f["n"])

            def bad(r, msg):
                rep.violation(f["file"], f["l"], f["n"], r, msg, trace=st.trace())
            rv = next((x for t in list(st.facts) + list(st.env.values()) if isinstance(t, tuple) for x in subterms(t)
                       if says(x, "rval")), None)
            good = None if rv is None else eng.decide(st, mk_eq(rv, C0))
            if eng.decide(st, mk_eq(o[2], C0)) is True:
                if good is not True:
                    bad("outcome", "a call ends as a success although the reply does not say so")
            else:
                if good is not False:
                    bad("outcome", "a call ends as a failure although the reply may say success")
                if st.ts[1] is None or not says(st.ts[1], "rval"):
                    bad("outcome", "the error of a failed call is not that of the reply")
            if not any(says(v, "rcode") for k, v in st.env.items() if k[0] in ("var", "fld", "deref", "idx") and not under(k, st.ts[0])):
                bad("outcome-code", "the return code of the service is not handed to the caller")
