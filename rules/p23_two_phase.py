"""Two-phase commit: commit only after every branch agreed, everywhere or nowhere."""
from .p24_xa_dispatch import *
from .txsim import *
from sa.linear import Induction, const, lin, lsub
from .p26_kinds import D, G, conflicts

EXPLAIN = ("Typestate of the commit decision along every path of the functions that commit and roll back (commands given "
           "to the branches, what each pass over the branches has established about every one of them, which branches "
           "are carried over to the second phase) and of the functions that give a command to every branch (request, "
           "call descriptor and result of each branch, pessimistic until its own transaction manager has answered).")

XA_OK, XA_RDONLY, XA_HEURCOM = 0, 3, 7
TPNOTRAN, TPGETANY, TPNOBLOCK, TPNOREPLY = 8, 0x80, 1, 4
GOOD = {"prepare": (XA_OK, XA_RDONLY), "commit": (XA_OK, XA_HEURCOM), "rollback": ()}


def rectype(t):
    while t and t.get("k") in ("ref", "ptr", "rref"):
        t = t.get("p")
    return t or {}


class Branch:
    """The record describing a branch and its fields."""

    def __init__(self, prog):
        r = prog.records.get("branch")
        if not r:
            raise AnalysisBroken("the record of a branch was not found")
        names = [f["n"] for f in r["fields"]]
        self.result = "result" if "result" in names else names[-1]


def over_branches(s):
    """Does the loop go over branches?"""
    if s["k"] == "algo":
        return "branch" in str(rectype(s["fn"]["p"][0]["t"]).get("s"))
    if s["k"] == "rfor":
        return any(n["k"] == "decl" and any("vector<branch" in str(v.get("t")) for v in n["v"])
                   for n in walk(s.get("range") or {}))
    for n in walk(s.get("c") or {}):
        if "vector<branch" in str(n.get("t") or "") or "vector<branch" in str(n.get("at") or ""):
            return True
        o = strip(n.get("obj")) if n.get("obj") else None
        if o is not None and "vector<branch" in str(o.get("t") or "") + str(o.get("ct") or ""):
            return True
        if n["k"] == "call" and (n.get("n") or "").startswith("std::vector<branch"):
            return True
    return False


def looped_vector(eng, st, s):
    """Location of the vector a loop goes over, or None."""
    if s["k"] == "rfor":
        for n in walk(s.get("range") or {}):
            if n["k"] == "decl":
                for v in n["v"]:
                    l = st.env.get(("rb", v["d"]))
                    if l is not None:
                        return l
    for n in walk(s["args"] if s["k"] == "algo" else s.get("c") or {}):
        o = strip(n.get("obj")) if n.get("obj") else None
        if o is not None:
            for x, l in eng.lv(o, st.copy()):
                return l
    return None


class Decide(Sim):
    """ts = (association, events, (phase, vectors, what each pass established, ...))"""

    def __init__(self, rep, prog, br, codes):
        super().__init__(rep, prog)
        self.br, self.codes = br, codes

    def x(self, st):
        return dict(st.ts[2]) if len(st.ts) > 2 else {}

    def setx(self, st, **kw):
        d = self.x(st)
        d.update(kw)
        st.ts = st.ts[:2] + (tuple(sorted(d.items(), key=lambda i: i[0])),)

    def call(self, eng, st, call):
        n = base(call.name)
        if n.startswith("std::vector::") and n.split("::")[-1] in ("push_back", "emplace_back") and \
                call.obj is not None and over_branch_arg(call):
            d = self.x(st)
            if d.get("loop"):
                self.setx(st, pushed=True, anypush=call.obj)
            else:
                self.setx(st, anypush=call.obj)
            return None
        r = super().call(eng, st, call)
        if call.fn is not None and call.fn["u"] in self.commands and r:
            for o in r:
                self.command(eng, o[1], call)
        return r

    def command(self, eng, st, call):
        e = [e for e in st.ts[1] if e[0] == "command"][-1]
        code, vec = e[1], e[2]
        vec = vec[1] if vec and vec[0] == "addr" else deref(vec) if vec else None
        what = self.codes.get(code[1]) if code is not None and isc(code) else None
        what = {"xa_prepare_entry": "prepare", "xa_commit_entry": "commit", "xa_rollback_entry": "rollback"}.get(what)
        d = self.x(st)
        fn = eng.stack[-1]
        xe = [x for x in st.ts[1] if x[0] == "xa_end_entry"]
        done = [x for x in d.get("done", ())]
        if what is None:
            self.fail(eng, st, "unknown-command", "the branches are told to do something no transaction manager knows",
                      call.line)
        elif what == "prepare":
            if done:
                self.fail(eng, st, "prepare-late", "branches are asked to prepare after the decision", call.line)
            if not xe or not xe[-1][1]:
                self.fail(eng, st, "prepare-failed", "branches are asked to prepare although this thread's part did not "
                          "end well", call.line)
            self.setx(st, vec=vec, agreed=False, judged=False, covered=False, anypush=None, rdonly=False,
                      rdpushed=False)
        elif what == "commit":
            if d.get("phase") != "prepare":
                self.fail(eng, st, "commit-unprepared", "branches are told to commit without having been asked to prepare",
                          call.line)
            elif not d.get("judged"):
                self.fail(eng, st, "commit-unjudged", "branches are told to commit without looking at what they answered",
                          call.line)
            elif not d.get("agreed"):
                self.fail(eng, st, "commit-refused", "branches are told to commit although one of them may not have "
                          "agreed", call.line)
            self.told(eng, st, call, d, vec, what)
            self.setx(st, vec2=vec, agreed=False, judged=False)
        elif what == "rollback":
            if d.get("phase") == "prepare":
                self.told(eng, st, call, d, vec, what)
        if what in ("commit", "rollback"):
            if done:
                self.fail(eng, st, "two-decisions", "branches are told two decisions", call.line)
            done = tuple(done) + (what,)
        self.setx(st, phase=what, done=tuple(done))

    def told(self, eng, st, call, d, vec, what):
        if vec == d.get("vec"):
            if d.get("rdonly"):
                self.fail(eng, st, "told-finished", "branches that are finished (read only) are told to %s" %
                          {"commit": "commit", "rollback": "roll back"}[what], call.line)
            return
        if d.get("rdpushed") and vec == d.get("anypush"):
            self.fail(eng, st, "told-finished", "branches that are finished (read only) are told to %s" %
                      {"commit": "commit", "rollback": "roll back"}[what], call.line)
        if d.get("anypush") is not None and vec != d.get("anypush"):
            self.fail(eng, st, "told-others", "the decision is told to other branches than those that were asked",
                      call.line)
        elif not d.get("covered"):
            self.fail(eng, st, "branch-forgotten", "the decision is not told to every branch that is prepared", call.line)

    # ---- passes over the branches
    def loop_begin(self, eng, st, s):
        if over_branches(s):
            self.setx(st, pbad=False, pdrop=False)

    def iter_begin(self, eng, st, s):
        if over_branches(s):
            self.setx(st, loop=True, cur=None, pushed=False, lv=looped_vector(eng, st, s))

    def load(self, eng, st, loc, node):
        if loc[0] == "fld" and loc[2] == self.br.result:
            d = self.x(st)
            if d.get("loop") and d.get("cur") is None:
                self.setx(st, cur=loc)

    def iter_end(self, eng, st, s, how):
        if not over_branches(s):
            return
        d = self.x(st)
        ph = d.get("phase")
        target = d.get("vec2") if ph == "commit" else d.get("vec")
        if ph in ("prepare", "commit") and d.get("lv") == target:
            v = eng.lookup(st, d["cur"]) if d.get("cur") is not None else None
            good = [k for k in GOOD[ph] if v is not None and eng.decide(st, mk_eq(v, ("c", k))) is True]
            if not good:
                self.setx(st, pbad=True)
            if how == "break":
                self.setx(st, judged=True)       # the rest was not looked at
            if ph == "prepare":
                if good == [XA_RDONLY]:
                    self.setx(st, rdonly=True)
                    if d.get("pushed"):
                        self.setx(st, rdpushed=True)
                elif not d.get("pushed"):
                    gone = v is not None and eng.decide(st, mk_lt(v, ("c", 100))) is False
                    if not gone:
                        self.setx(st, pdrop=True)
        self.setx(st, loop=False, cur=None, pushed=False, lv=None)

    def loop_done(self, eng, st, s):
        if not over_branches(s):
            return
        d = self.x(st)
        ph = d.get("phase")
        target = d.get("vec2") if ph == "commit" else d.get("vec")
        lv = looped_vector(eng, st, s)
        if ph in ("prepare", "commit") and lv is not None and lv == target:
            self.setx(st, judged=True)
            if not d.get("pbad"):
                self.setx(st, agreed=True)
            if not d.get("pdrop"):
                self.setx(st, covered=True)


def over_branch_arg(call):
    if "branch" in str((call.node.get("obj") or {}).get("t") or {}):
        return True
    return any("branch" in str(rectype((a or {}).get("t")).get("s")) for a in call.argn)


def decisions(prog, rep, br, codes):
    for name in ("tx_commit", "tx_rollback"):
        f = find(prog, name)
        for s in ("s3", "s4"):
            rule = Decide(rep, prog, br, codes)
            st0 = start_state(rule.ctx, s)
            st0.ts = st0.ts + ((),)
            for kind, st, v, eng in simulate(prog, rep, f, s, None, rule, st=st0):
                d = rule.x(st)
                rep.instance("decision", "%s %s %s" % (name, s, "/".join(d.get("done", ())) or "-"))

                def bad(rl, msg):
                    rep.violation(f["file"], f["l"], f["n"], rl, msg, key="%s|%s" % (rl, name), trace=st.trace())
                if not isc(v or ("?",)):
                    rcs = [k for k in (0, -100) if eng.decide(st, mk_eq(v, ("c", k))) is not False]
                    rcs += [k for k in (-2, -102) if eng.decide(st, mk_eq(v, ("c", k))) is True]
                    if v[:2] == ("op", "+"):
                        rcs = [k for k in rcs if k <= -100 and eng.decide(st, mk_eq(v[2], C0)) is not False]
                else:
                    rcs = [v[1]]
                done = d.get("done", ())
                ok = any(k in (0, -100) for k in rcs)
                if TX["FAIL"] in rcs or kind == "throw":
                    continue            # no decision could be carried out, the outcome is reported as unknown
                if TX["PROTOCOL_ERROR"] in rcs and not st.ts[1]:
                    continue
                if not done:
                    if name == "tx_commit" and d.get("phase") == "prepare" and d.get("agreed") and nothing_left(eng, st, d):
                        continue
                    bad("no-decision", "%s ends without telling the branches to commit or to roll back" % name)
                    continue
                if name == "tx_rollback":
                    if done != ("rollback",):
                        bad("rollback-commits", "tx_rollback tells the branches to commit")
                    continue
                if ok and done[-1] != "commit":
                    bad("false-commit", "success is reported for a transaction that was rolled back")
                elif ok and not d.get("agreed"):
                    bad("commit-result", "success is reported although a branch may not have committed")
                if any(k in (-2, -102) for k in rcs) and done[-1] != "rollback":
                    bad("false-rollback", "a roll back is reported for a transaction that was committed")


def nothing_left(eng, st, d):
    if d.get("anypush") is None:
        return True
    return eng.decide(st, mk_eq(eng.lookup(st, ("fld", d["anypush"], "$size")), C0)) is True


class Command(TmRule):
    """ts = (False, events, (request fields set, per-branch facts))"""

    def __init__(self, rep, prog, br, proto):
        super().__init__(rep, prog)
        self.br, self.proto = br, proto
        self.codeparam = self.xidparam = None

    def opaque(self, fn):
        if fn["u"] == self.root:
            return False
        return fn["u"] in self.collects or FuxRule.opaque(self, fn) or base(fn["n"]) in ("tpgetrply", "tpcancel",
                                                                                          "tpacall_group", "tpacall")

    def x(self, st):
        return dict(st.ts[2])

    def setx(self, st, **kw):
        d = self.x(st)
        d.update(kw)
        st.ts = st.ts[:2] + (tuple(sorted(d.items(), key=lambda i: str(i[0]))),)

    def put(self, eng, st, call):
        v = call.args[2]
        if v[0] in ("addr", "recv"):
            v = eng.lookup(st, v[1])
        self.setx(st, **{"put%s" % (call.args[0],): v})

    def ev(self, st, e):
        pass            # only what this rule keeps

    def call(self, eng, st, call):
        n = base(call.name)
        a = call.args
        if n == "fux::to_string":
            x = a[0]
            return [("ret", st, ("sym", "text of " + show(x)))]
        if n in ("tpacall_group", "tpacall"):
            self.rep.instance("branch-request", "%s:%d" % (eng.curfile(), call.line))
            d = self.x(st)
            self.request(eng, st, call, d)
            self.setx(st, asked=True)
            ok, no = st.copy(), st.copy()
            cd = eng.fresh(ok, "cd", call.line)
            ok.facts[mk_lt(cd, C0)] = False
            ok.facts[mk_eq(cd, ("c", -1))] = False
            no.note(eng.curfile(), call.line, "the request cannot be sent")
            return [("ret", ok, cd), ("ret", no, ("c", -1))]
        if n == "tpgetrply":
            self.rep.instance("branch-reply", "%s:%d" % (eng.curfile(), call.line))
            cdloc = a[0][1] if a[0][0] == "addr" else deref(a[0])
            fl = a[-1]
            if not isc(fl) or fl[1] & TPGETANY:
                self.fail(eng, st, "any-reply", "a branch is given the reply to whatever call is answered first", call.line)
            if isc(fl) and fl[1] & TPNOBLOCK:
                self.fail(eng, st, "no-wait", "the reply of a branch is not waited for", call.line)
            ok, no = st.copy(), st.copy()
            for k in list(self.x(ok)):
                if k.startswith("put"):
                    self.drop(ok, k)
            self.setx(ok, replied=cdloc[1] if cdloc[0] == "fld" else cdloc)
            self.setx(no, replied=None, noreply=True)
            no.note(eng.curfile(), call.line, "no reply arrives")
            return [("ret", ok, C0), ("ret", no, ("c", -1))]
        if n == "tpcancel":
            return [("ret", st, C0), ("ret", st.copy(), ("c", -1))]
        return super().call(eng, st, call)

    def drop(self, st, k):
        d = self.x(st)
        d.pop(k, None)
        st.ts = st.ts[:2] + (tuple(sorted(d.items(), key=lambda i: str(i[0]))),)

    def request(self, eng, st, call, d):
        fcode, fxid = [next(iter(self.proto[k])) for k in ("fcode", "fxid")]
        want = d.get("put%s" % (fcode,))
        if want is None or want != self.codeparam:
            self.fail(eng, st, "wrong-command", "a branch is asked to do something else than what was decided", call.line)
        x = d.get("put%s" % (fxid,))
        if x is None or x != ("sym", "text of " + show(self.xidparam)):
            self.fail(eng, st, "wrong-transaction", "a branch is told about another transaction", call.line)
        for ff in self.proto["fflags"]:
            if d.get("put%s" % (ff,)) != C0:
                self.fail(eng, st, "request-flags", "a branch is asked to prepare, commit or roll back with flags other than none",
                          call.line)
        fl = call.args[-1]
        if not isc(fl) or not fl[1] & TPNOTRAN:
            self.fail(eng, st, "in-transaction", "the transaction manager is called inside the transaction it ends",
                      call.line)
        if isc(fl) and fl[1] & TPNOREPLY:
            self.fail(eng, st, "no-reply", "the transaction manager is asked not to answer", call.line)
        g = call.args[0]
        if d.get("loop") and not (g[0] == "ld" and field_of(g[1]) in ("grpno",)):
            self.fail(eng, st, "wrong-group", "the request goes to another group than the branch's", call.line)
        if g[0] == "ld" and field_of(g[1]):
            self.setx(st, group=g[1][1])

    def store(self, eng, st, loc, val, node):
        if loc[0] != "fld" or loc[2] != self.br.result or root(loc)[0] == "var" and not self.x(st).get("loop"):
            return
        d = self.x(st)
        self.rep.instance("branch-result", "%s:%s" % (eng.curfile(), (node or {}).get("l")))
        ln = (node or {}).get("l")
        fres = next(iter(self.proto["fresult"]))
        if isc(val):
            if val[1] in (XA_OK, XA_RDONLY, XA_HEURCOM):
                self.fail(eng, st, "presumed-done", "a branch counts as done without its answer", ln)
        elif val == ("sym", "field %s" % show(fres)):
            if d.get("replied") is None:
                self.fail(eng, st, "stale-answer", "a branch is given an answer although none arrived for it", ln)
            elif d["replied"] != loc[1]:
                self.fail(eng, st, "other-answer", "a branch is given the answer to another branch's request", ln)
        else:
            self.fail(eng, st, "made-up-answer", "the result of a branch does not come from its answer", ln)
        self.setx(st, set=True)

    def iter_begin(self, eng, st, s):
        if over_branches(s):
            self.setx(st, loop=True, asked=False, replied=None, set=False, group=None, noreply=False)

    def iter_end(self, eng, st, s, how):
        if not over_branches(s):
            return
        d = self.x(st)
        if d.get("asked"):
            if not d.get("set"):
                self.fail(eng, st, "unset-result", "a branch is left with the result of an earlier phase", s["l"])
            self.setx(st, everasked=True)
        if how != "next":
            self.fail(eng, st, "branch-skipped", "the remaining branches are not told", s["l"])
        if d.get("replied") is not None and not d.get("set"):
            self.fail(eng, st, "answer-lost", "the answer of a branch is ignored", s["l"])
        self.setx(st, loop=False, asked=False, replied=None, set=False, group=None, noreply=False)


def commands(prog, rep, br, proto):
    sim = Sim(Quiet(), prog)
    n = 0
    for u in sorted(sim.commands):
        f = prog.functions[u]
        ps = f["p"]
        direct = any(x.get("k") == "call" and base(x.get("n") or "") in ("tpacall_group", "tpacall")
                     for x in walk(f["b"]))
        if f.get("lam"):
            continue
        n += 1
        rule = Command(rep, prog, br, proto)
        rule.root = u
        for p in ps:
            t = p["t"] or {}
            if "xid" in str(rectype(t).get("s")).lower():
                rule.xidparam = ("sym", "p:" + p["n"]) if t.get("k") == "ptr" else ("addr", deref(("sym", "p:" + p["n"])))
            elif t.get("k") in ("int", "enum"):
                rule.codeparam = ("sym", "p:" + p["n"])
        if rule.codeparam is None or rule.xidparam is None:
            raise AnalysisBroken("the parameters of %s were not recognised" % f["n"])
        outs = run_root(prog, rule, f, State(ts=(False, (), ())), rep=rep)[1]
        if not any(o[0] == "ret" and rule.x(o[1]).get("everasked") for o in outs):
            rep.violation(f["file"], f["l"], f["n"], "not-told", "no branch is told the command")
    if not n:
        raise AnalysisBroken("the function that gives commands to the branches was not found")


class Marks(Induction, FuxRule):
    """Every group marked in the transaction's entry becomes a branch.
    ts = (index looked at, marks loaded, group asked for, pushed, loop with marks, something recognised)"""
    limit = 200
    opaque_names = {"mib::data_lock", "getmib"}

    def __init__(self, rep, prog):
        super().__init__(rep)
        self.loops = {}

    def opaque(self, fn):
        return (fn.get("rec") or "").startswith("mib") or fn.get("rec") == "transaction_table" and \
            base(fn["n"]).split("::")[-1] in ("find", "operator[]") or super().opaque(fn)

    def may_throw(self, call):
        return None

    def x(self, st):
        return dict(st.ts)

    def setx(self, st, **kw):
        d = self.x(st)
        d.update(kw)
        st.ts = tuple(sorted(d.items(), key=lambda i: i[0]))

    def load(self, eng, st, loc, node):
        if loc[0] == "idx" and loc[1][0] == "fld" and loc[1][2] == "groups":
            self.rep.instance("mark", "%s:%s" % (eng.curfile(), (node or {}).get("l")))
            if not self.x(st).get("loop"):
                return
            self.setx(st, at=loc[2], mark=loc)
        if loc[0] == "fld" and loc[2] in ("max_groups", "len") and node is not None:
            v = eng.lookup(st, loc)
            b = self.x(st).get("bounds") or ()
            if v not in b:
                self.setx(st, bounds=b + (v,))

    def call(self, eng, st, call):
        n = base(call.name)
        m = n.split("::")[-1]
        rec = (call.fn or {}).get("rec") or ""
        if rec.startswith("mibarrptr") and m in ("at", "operator[]"):
            self.setx(st, asked=call.args[0])
            return [("ret", st, ("addr", mk_idx(("deref", ("sym", rec)), call.args[0])))]
        if rec == "transaction_table" and m in ("find", "operator[]"):
            return [("ret", st, ("sym", "found") if m == "find" else ("addr", ("deref", ("sym", "entry"))))]
        if n.startswith("std::vector") and m in ("push_back", "emplace_back") and over_branch_arg(call):
            self.setx(st, pushed=True)
            return None
        return super().call(eng, st, call)

    def has_marks(self, s):
        k = id(s)
        if k not in self.loops:
            # a loop that pushes branches
            self.loops[k] = s.get("k") in ("for", "while", "do") and any(
                n["k"] == "call" and base(n.get("n") or "").split("::")[-1] in ("push_back", "emplace_back")
                for n in walk(s["b"]))
        return self.loops[k]

    def iter_begin(self, eng, st, s):
        if self.has_marks(s):
            self.setx(st, loop=True, at=None, mark=None, asked=None, pushed=False)

    def bad(self, eng, st, s, rl, msg):
        self.rep.violation(eng.curfile(), s["l"], eng.cur()["n"], rl, msg, key=rl, trace=st.trace())

    def iter_end(self, eng, st, s, how):
        if not self.has_marks(s):
            return
        d = self.x(st)
        if d.get("mark") is not None:
            v = eng.lookup(st, d["mark"])
            marked = eng.decide(st, mk_lt(C0, v))
            if marked is None:
                marked = {True: False, False: True}.get(eng.decide(st, mk_eq(v, C0)))
            if not d.get("pushed") and marked is not False:
                self.bad(eng, st, s, "group-left-out", "a group that takes part in the transaction is not made a branch")
            if d.get("pushed"):
                if marked is False:
                    self.bad(eng, st, s, "group-made-up", "a group that does not take part is made a branch")
                if d.get("asked") is not None and d["asked"] != d["at"]:
                    self.bad(eng, st, s, "other-group", "the branch is another group than the one that takes part")
            K = self.turns(s)
            form = lin(d["at"])
            if set(form) <= {K, None} and form.get(K) == 1:
                self.setx(st, counter=d["at"])
                if form.get(None, 0) != 0:
                    self.bad(eng, st, s, "group-left-out", "the groups are not looked at from the first on")
            elif form and set(form) <= {K, None} and K in form and abs(form[K]) != 1:
                self.bad(eng, st, s, "group-left-out", "not every group is looked at")
            elif not d["at"] == C0:
                pass
            if how != "next":
                self.bad(eng, st, s, "group-left-out", "the remaining groups are not looked at")
        elif how == "next" and d.get("pushed"):
            self.bad(eng, st, s, "group-made-up", "a group is made a branch without looking whether it takes part")
        self.setx(st, loop=False, at=None, mark=None, asked=None, pushed=False)

    def loop_done(self, eng, st, s):
        if not self.has_marks(s):
            return
        d = self.x(st)
        K = self.turns(s)
        if d.get("counter") is None:
            return
        ok = False
        for b in d.get("bounds") or ():
            if eng.decide(st, mk_lt(d["counter"], b)) is False or eng.decide(st, mk_lt(K, b)) is False or \
                    eng.decide(st, mk_eq(d["counter"], b)) is True:
                ok = True
        if not ok:
            self.bad(eng, st, s, "group-left-out", "the last groups are not looked at")


def marks(prog, rep):
    sim = Sim(Quiet(), prog)
    for u in sorted(sim.collects):
        f = prog.functions[u]
        run_root(prog, Marks(rep, prog), f, State(ts=()), rep=rep)
    rep.need("mark", 1)


def check(prog, rep):
    conflicts(prog, rep, (G, D), ("src/tx.cpp", "src/trx.h", "src/trx.cpp"))
    marks(prog, rep)
    proto = tm_protocol(prog)
    br = Branch(prog)
    for k in ("fcode", "fxid", "fresult"):
        if len(proto[k]) != 1:
            raise AnalysisBroken("the transaction manager's protocol was not recognised (%s)" % k)
    decisions(prog, rep, br, proto["codes"])
    commands(prog, rep, br, proto)
    rep.need("decision", 4)
    rep.need("branch-request", 1)
    rep.need("branch-reply", 1)
    rep.need("branch-result", 2)
