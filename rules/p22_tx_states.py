"""The TX calls follow the state machine of the TX specification."""
from .txsim import *

EXPLAIN = ("Exhaustive simulation of every TX function (tx_*, suspending, resuming, joining and ending on behalf of a "
           "service) from each of the five states of the specification, with every outcome of the resource manager and "
           "of the shared transaction table: typestate of the thread's state, transaction identifier, table entry and "
           "association with the resource manager, compared at every exit with the transition table of the "
           "specification.")

INFO = ("sym", "p:info")
#   name, states in which it is allowed, key of the expected behaviour
FUNCS = (("tx_open", STATES), ("tx_close", ("s0", "s1", "s2")), ("tx_begin", ("s1", "s2")),
         ("tx_commit", ("s3", "s4")), ("tx_rollback", ("s3", "s4")), ("tx_info", STATES[1:]),
         ("_tx_suspend", ("s3", "s4")), ("_tx_resume", ("s1", "s2")), ("fux::tx_end", ("s3", "s4")),
         ("fux::tx_join", ("s1", "s2")))
ENTER = {"s1": "s3", "s2": "s4"}
LEAVE = {"s3": "s1", "s4": "s2"}
XAOPS = ("xa_open_entry", "xa_close_entry", "xa_start_entry", "xa_end_entry")


def sname(v):
    return STATES[v[1]] if v is not None and isc(v) and 0 <= v[1] < 5 else None


class Judge:
    def __init__(self, rep, ctx, f, s, how=""):
        self.rep, self.ctx, self.f, self.s, self.how = rep, ctx, f, s, how

    def bad(self, st, rule, msg):
        self.rep.violation(self.f["file"], self.f["l"], self.f["n"], rule, "%s%s in state %s: %s" %
                           (base(self.f["n"]), self.how, self.s.upper(), msg),
                           key="%s|%s%s|%s" % (rule, base(self.f["n"]), self.how, self.s), trace=st.trace())

    def load(self, eng, st):
        self.eng, self.st = eng, st
        self.to = sname(eng.lookup(st, self.ctx.state))
        self.fmt = eng.lookup(st, self.ctx.format)
        self.g = eng.lookup(st, self.ctx.gttid)
        self.ev = st.ts[1]
        self.ended = [e for e in self.ev if e[0] == "end"]
        self.started = [e for e in self.ev if e[0] == "start"]
        self.outside = eng.decide(st, mk_eq(self.fmt, BADXID))

    def invariant(self, suspended=False):
        """In a transaction exactly when the resource manager is, with identifier and table entry."""
        if self.to is None:
            self.bad(self.st, "state-unknown", "the next state is not one of the specification")
            return
        intx = self.to in ("s3", "s4")
        if intx != bool(self.st.ts[0]):
            self.bad(self.st, "state-association", "the thread is %s a transaction, the resource manager is %s" %
                     (("in", "not") if intx else ("not in", "in one")))
        if intx and (self.outside is True or self.g == ("c", 65535)):
            self.bad(self.st, "no-identifier", "the thread is in a transaction without identifier or table entry")
        if intx and self.started and not any(e[1] == self.started[-1][1] for e in self.ended) and \
                self.g != self.started[-1][1]:
            self.bad(self.st, "wrong-entry", "the thread works in another table entry than the one it started")
        if not intx and self.outside is not True and not suspended:
            self.bad(self.st, "identifier-left", "the thread is in no transaction but keeps an identifier")
        ends = [e[1] for e in self.ended]
        if len(set(ends)) != len(ends):
            self.bad(self.st, "ended-twice", "a table entry is ended twice")

    def unchanged(self, what, fmt, g=None):
        if self.to != self.s:
            self.bad(self.st, "state-changed", "%s but the state becomes %s" % (what, self.to))
        if self.eng.decide(self.st, mk_eq(self.fmt, fmt)) is not True:
            self.bad(self.st, "identifier-changed", "%s but the identifier changes" % what)
        if g is not None and self.g != g:
            self.bad(self.st, "entry-changed", "%s but the table entry changes" % what)


def val(eng, st, v):
    if v is None or isc(v):
        return None if v is None else v[1]
    for k in list(TX.values()) + [1]:
        if eng.decide(st, mk_eq(v, ("c", k))) is True:
            return k
    return v


def run(prog, rep, f, s, allowed, args=None, how="", suspended=False):
    rule = Sim(rep, prog)
    ctx = rule.ctx
    fmt0 = OLDXID if s in ("s3", "s4") or suspended else BADXID
    g0 = OLDGTTID if s in ("s3", "s4") or suspended else ("c", 65535)
    n = base(f["n"])
    isint = (f["rt"] or {}).get("k") == "int"
    j = Judge(rep, ctx, f, s, how)
    good = 0
    outs = simulate(prog, rep, f, s, args, rule, suspended)
    if not outs:
        raise AnalysisBroken("%s in %s has no outcome" % (n, s))
    for kind, st, v, eng in outs:
        j.load(eng, st)
        rc = val(eng, st, v) if kind == "ret" and isint else None
        rep.instance("transition", "%s%s %s" % (n, how, s))
        xa = [e for e in j.ev if e[0] in XAOPS]
        if s not in allowed:
            if isint and kind == "ret" and rc != TX["PROTOCOL_ERROR"]:
                j.bad(st, "protocol", "the call is not allowed but does not report a protocol error")
            if xa or j.started or j.ended or [e for e in j.ev if e[0] == "command"]:
                j.bad(st, "protocol-effect", "the call is not allowed but reaches the resource manager or the table")
            j.unchanged("the call is not allowed", fmt0, g0)
            good += 1
            continue
        failedxa = [e for e in xa if not e[1]]
        susp = suspended
        if n == "_tx_suspend" and args == [C0]:
            susp = True
        j.invariant(susp and j.to in ("s1", "s2"))
        # ---- what each call does when it succeeds or fails
        if n in ("tx_open", "tx_close"):
            want = {"tx_open": "s1" if s == "s0" else s, "tx_close": "s0"}[n]
            if rc == TX["OK"]:
                good += 1
                if j.to != want:
                    j.bad(st, "next-state", "success leads to %s instead of %s" % (j.to, want))
                if failedxa or not xa and not (n == "tx_close" and s == "s0"):
                    j.bad(st, "false-success", "success is reported but the resource manager was not %s" %
                          ("opened" if n == "tx_open" else "closed"))
            else:
                j.unchanged("the call fails", fmt0)
                if any(e[1] for e in xa):
                    j.bad(st, "false-failure", "failure is reported but the resource manager did what was asked")
        elif n in ("tx_begin", "_tx_resume", "fux::tx_join"):
            ok = rc == TX["OK"] if isint else kind == "ret"
            did = [e for e in xa if e[0] == "xa_start_entry" and e[1]]
            if ok:
                good += 1
                if j.to != ENTER[s]:
                    j.bad(st, "next-state", "success leads to %s instead of %s" % (j.to, ENTER[s]))
                if not did:
                    j.bad(st, "false-success", "success is reported but nothing was started in the resource manager")
                if n == "tx_begin" and len(j.started) != 1:
                    j.bad(st, "no-entry", "a transaction is begun without a table entry of its own")
                if n == "fux::tx_join" and j.g != ("sym", "p:gttid") and j.g != args_of(f):
                    j.bad(st, "wrong-entry", "the thread works in another table entry than the one it joins")
                if n == "_tx_resume" and not susp and not (j.g[0] == "sym" and "found" in j.g[1]):
                    j.bad(st, "wrong-entry", "the thread works in another table entry than the one it resumes")
            else:
                j.unchanged("the call fails", BADXID)
                if did:
                    j.bad(st, "false-failure", "failure is reported but the transaction was started")
                if n == "tx_begin" and [e[1] for e in j.started] != [e[1] for e in j.ended]:
                    j.bad(st, "entry-leak", "the call fails but the table entry it took stays in use")
        elif n in ("_tx_suspend", "fux::tx_end"):
            did = [e for e in xa if e[0] == "xa_end_entry"]
            if len(did) != 1:
                j.bad(st, "not-ended", "the association with the resource manager is ended %d times" % len(did))
                continue
            if n == "fux::tx_end" or did[0][1]:
                good += 1
                if j.to != LEAVE[s]:
                    j.bad(st, "next-state", "the call leads to %s instead of %s" % (j.to, LEAVE[s]))
            if n == "_tx_suspend":
                if (rc == TX["OK"]) != did[0][1]:
                    j.bad(st, "false-success" if rc == TX["OK"] else "false-failure",
                          "the result contradicts the resource manager's")
                if did[0][1] and args != [C0] and eng.decide(st, mk_eq(
                        eng.lookup(st, ("fld", ("fld", ("deref", ("sym", "p:" + f["p"][0]["n"])), "xid"), "formatID")),
                        OLDXID)) is not True:
                    j.bad(st, "identifier-lost", "the suspended transaction's identifier is not handed out")
            if j.ended or j.started:
                j.bad(st, "entry-ended", "the transaction goes on but its table entry is touched")
            if did[0][3] is not None and eng.decide(st, mk_eq(did[0][3], OLDXID)) is not True:
                j.bad(st, "other-transaction", "another transaction than the thread's is ended")
        elif n in ("tx_commit", "tx_rollback"):
            did = [e for e in xa if e[0] == "xa_end_entry"]
            if len(did) != 1:
                j.bad(st, "not-ended", "the association with the resource manager is ended %d times" % len(did))
            if rc == TX["PROTOCOL_ERROR"]:
                j.bad(st, "protocol", "the call is allowed but reports a protocol error")
            mine = [e for e in j.ended if e[1] == OLDGTTID]
            other = [e for e in j.ended if e[1] != OLDGTTID and e[1] not in [x[1] for x in j.started]]
            if other:
                j.bad(st, "other-entry", "another transaction's table entry is ended")
            if rc != TX["FAIL"] and len(mine) != 1:
                j.bad(st, "entry-leak", "the transaction is over but its table entry is ended %d times" % len(mine))
            if rc == TX["FAIL"] or kind == "throw":
                continue
            good += 1
            chained = s == "s4"
            if j.to not in ((("s2", "s4") if chained else ("s1",))):
                j.bad(st, "next-state", "the call leads to %s" % j.to)
            if chained:
                nobegin = isc(v) and v[1] <= TX["NO_BEGIN"] or \
                    v is not None and v[:2] == ("op", "+") and ("c", TX["NO_BEGIN"]) in v
                if j.to == "s2" and not nobegin and (isc(v) or v[:2] != ("sym", "phi:ret")):
                    j.bad(st, "not-chained", "in chained mode no new transaction is begun and that is not reported")
                if j.to == "s4" and nobegin:
                    j.bad(st, "false-failure", "a new transaction is begun but reported as not begun")
            elif j.started:
                j.bad(st, "chained", "a new transaction is begun in unchained mode")
        elif n == "tx_info":
            good += 1
            j.unchanged("asking", fmt0, g0)
            if rc not in (0, 1) or (rc == 1) != (j.outside is False):
                j.bad(st, "tx-info", "the answer %s does not tell whether the thread is in a transaction" % (rc,))
            p = ("sym", "p:" + f["p"][0]["n"])
            if args != [C0] and eng.decide(st, mk_eq(p, C0)) is not True and \
                    eng.lookup(st, ("fld", ("fld", ("deref", p), "xid"), "formatID")) != j.fmt:
                j.bad(st, "tx-info", "the information handed out is not the thread's")
    return good


def args_of(f):
    return ("sym", "p:" + f["p"][0]["n"]) if f.get("p") else None


def setters(prog, rep):
    """tx_set_*: valid values are stored, invalid ones refused; the control changes the state."""
    ctx = Ctx(prog)
    T = {"s1": "s2", "s3": "s4"}
    B = {b: a for a, b in T.items()}
    for name, field, good, wrong in (("tx_set_commit_return", "when_return", (0, 1), (2, -1, 77)),
                                     ("tx_set_transaction_control", "transaction_control", (0, 1), (2, -1, 77)),
                                     ("tx_set_transaction_timeout", "transaction_timeout", (0, 1, 3600), (-1, -3600))):
        f = find(prog, name)
        for s in STATES:
            for x in good + wrong:
                j = Judge(rep, ctx, f, s, "(%d)" % x)
                fmt0 = OLDXID if s in ("s3", "s4") else BADXID
                g0 = OLDGTTID if s in ("s3", "s4") else ("c", 65535)
                rule = Sim(rep, prog)
                st0 = start_state(ctx, s)
                loc = ("fld", ctx.info, field)
                st0.env[loc] = ("sym", "old value")
                for kind, st, v, eng in simulate(prog, rep, f, s, [("c", x)], rule, st=st0):
                    j.load(eng, st)
                    rep.instance("transition", "%s(%d) %s" % (name, x, s))
                    rc = val(eng, st, v)
                    now = eng.lookup(st, loc)
                    if s == "s0" or x in wrong:
                        want = "PROTOCOL_ERROR" if s == "s0" else "EINVAL"
                        if rc != TX[want]:
                            j.bad(st, "setting-refused", "the call returns %s instead of TX_%s" % (rc, want))
                        j.unchanged("the setting is refused", fmt0, g0)
                        if now != ("sym", "old value"):
                            j.bad(st, "setting-changed", "the setting is refused but changed")
                        continue
                    if rc != TX["OK"] or now != ("c", x):
                        j.bad(st, "setting", "a valid setting is not accepted or not stored")
                    if eng.decide(st, mk_eq(j.fmt, fmt0)) is not True or j.g != g0:
                        j.bad(st, "identifier-changed", "a setting changes the transaction")
                    to = s
                    if name == "tx_set_transaction_control":
                        to = (T if x == 1 else B).get(s, s)
                    if j.to != to:
                        j.bad(st, "next-state", "the setting leads to %s instead of %s" % (j.to, to))


def check(prog, rep):
    for name, allowed in FUNCS:
        f = find(prog, name)
        for s in STATES:
            variants = [(None, "", False)]
            if name in ("_tx_suspend", "tx_info"):
                variants = [([C0], "(null)", False), ([("sym", "p:" + f["p"][0]["n"])], "(info)", False)]
            if name == "_tx_resume":
                variants = [([("sym", "p:" + f["p"][0]["n"])], "(info)", False)]
                if s in ("s1", "s2"):
                    variants.append(([C0], "(null)", True))
            if name == "fux::tx_end":
                variants = [([C0], "(failed)", False), ([C1], "(done)", False)]
            if name == "fux::tx_join" and s not in ("s0", "s1", "s2"):
                continue        # only called for a thread that is in no transaction
            for args, how, susp in variants:
                if name == "fux::tx_join" and s == "s0":
                    continue
                if not run(prog, rep, f, s, allowed, args, how, susp):
                    rep.violation(f["file"], f["l"], f["n"], "never-succeeds", "%s%s in state %s never succeeds" %
                                  (base(f["n"]), how, s.upper()))
    setters(prog, rep)
    rep.need("transition", 90)
    for k, n in (("xa_start_entry", 1), ("xa_end_entry", 1), ("entry-start", 1), ("entry-end", 1)):
        rep.need(k, n)
