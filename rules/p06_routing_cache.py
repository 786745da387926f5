"""Changes of the advertised services are announced and never missed by a caller's cache."""
from sa.lib import *

EXPLAIN = ("Typestate of the caller's per-service queue list (unknown, cleared, filled, fresh) over every path of the "
           "queue lookup, with the lock state, plus flow of the values stored in the list: a queue is handed out only "
           "on paths where the stored revision was compared equal to the shared one or the list was cleared and "
           "refilled under the lock from matching entries and the revision read no later than that; the queue handed "
           "out matches the requested group and the index is below the list size. Writers: every normal exit of a "
           "function that changes an advertisement's identity has changed the revision of that service.")


class Reader(LockRule):
    """ts = (locks, (cleared, fresh, late))"""
    limit = 300

    def __init__(self, rep, prog):
        super().__init__(rep, frozenset())
        self.res = LockResult()
        self.rootu = "reader"
        self.prog = prog
        self.late = set()

    def opaque(self, fn):
        return base(fn["n"]) in ("mib::find_service", "getmib", "userlog")

    def may_throw(self, call):
        return None

    def locked(self, st):
        return any(k[0] == "sem" and v > 0 for k, v in st.ts[0])

    def setx(self, st, **kw):
        d = dict(zip(("cleared", "fresh", "filled", "late"), st.ts[1]))
        d.update(kw)
        st.ts = (st.ts[0], (d["cleared"], d["fresh"], d["filled"], d["late"]))

    def x(self, st, n):
        return st.ts[1][("cleared", "fresh", "filled", "late").index(n)]

    @staticmethod
    def isrev(t):
        if t[0] != "ld":
            return False
        l = t[1]
        if field_of(l) == "revision":
            return True
        return l[0] == "deref" and l[1][0] == "ld" and field_of(l[1][1]) == "mib_revision"

    @staticmethod
    def iscached(t):
        return t[0] == "ld" and field_of(t[1]) == "cached_revision"

    def load(self, eng, st, loc, node):
        if self.isrev(("ld", loc)) and self.x(st, "filled") and not self.locked(st):
            self.setx(st, late=True)
        if eng.locrec.get(loc) == "advertisement" and not self.locked(st):
            self.fail(eng, st, "refresh-locked", "advertisements are read without the table lock",
                      (node or {}).get("l"))

    def branch(self, eng, st, cond, truth, node):
        if cond[0] == "==" and truth and \
                (self.isrev(cond[1]) and self.iscached(cond[2]) or self.isrev(cond[2]) and self.iscached(cond[1])):
            self.setx(st, fresh=True)

    def store(self, eng, st, loc, val, node):
        line = (node or {}).get("l") or (eng.cur() or {}).get("l")
        if eng.locrec.get(loc) == "service_entry" and field_of(loc) == "cached_revision":
            self.rep.instance("revision-recorded", "%s:%s" % (eng.curfile(), line))
            if val == C0 and root(loc)[0] == "var":
                return
            if not self.isrev(val):
                self.fail(eng, st, "revision-source", "the recorded revision is not the shared one", line)
                return
            if not self.x(st, "cleared"):
                self.fail(eng, st, "refresh-complete", "the revision is recorded without refilling the list", line)
                return
            if self.x(st, "late"):
                self.fail(eng, st, "revision-race",
                          "the revision is read after the lock was released: a change in between is missed", line)
                return
            for k, v in st.facts.items():
                if k[0] == "<" and not v and k[2][0] == "ld" and field_of(k[2][1]) == "len" and k[1][0] == "op" \
                        and k[1][1] == "+" and isc(k[1][3]) and k[1][3][1] > 0:
                    self.fail(eng, st, "refresh-complete", "the refill stops before the last advertisement", line)
            self.setx(st, fresh=True)

    def call(self, eng, st, call):
        o = call.obj
        if o is not None and isinstance(o, tuple) and call.fn is None and field_of(o) == "queues" and \
                eng.locrec.get(o) == "service_entry":
            m = base(call.name).split("::")[-1]
            if m == "clear":
                self.setx(st, cleared=True, fresh=False)
            elif m in ("push_back", "emplace_back", "insert"):
                self.push(eng, st, call)
            elif m in ("operator[]", "at", "begin", "empty", "size", "front", "back"):
                self.rep.instance("list-use", "%s:%d %s" % (eng.curfile(), call.line, m))
                if root(o)[0] != "var" and not self.x(st, "fresh"):
                    self.fail(eng, st, "stale-list", "the cached queue list is used without comparing its revision",
                              call.line)
                if m == "operator[]":
                    self.inrange(eng, st, call, o)
                if m in ("front", "back") and eng.decide(st, mk_lt(C0, eng.lookup(st, ("fld", o, "$size")))) is not True:
                    self.fail(eng, st, "list-range", "the first queue of a possibly empty list is used", call.line)
        return super().call(eng, st, call)

    def inrange(self, eng, st, call, o):
        i = call.args[0]
        size = eng.lookup(st, ("fld", o, "$size"))
        if i[0] == "op" and i[1] == "%" and i[3] == size and eng.decide(st, mk_eq(size, C0)) is False:
            return
        if eng.decide(st, mk_lt(i, size)) is True:
            return
        if isc(size) and size[1] > 0 and i[0] == "op" and i[1] == "%" and i[3] == size or i == C0 and \
                eng.decide(st, mk_eq(size, C0)) is False:
            return
        self.fail(eng, st, "list-range", "the queue list is indexed without proof that the index is inside", call.line)

    def push(self, eng, st, call):
        self.rep.instance("list-fill", "%s:%d" % (eng.curfile(), call.line))
        if not self.locked(st):
            self.fail(eng, st, "refresh-locked", "the queue list is filled without the table lock", call.line)
        if not self.x(st, "cleared"):
            self.fail(eng, st, "refresh-complete", "the queue list is extended without being cleared", call.line)
        self.setx(st, filled=True)
        vals = {}
        for a in call.args:
            l = a[1] if a[0] in ("addr", "recv") else None
            for k, v in st.env.items():
                if k[0] == "fld" and (k[1] == l):
                    vals[k[2]] = v
            if l is None and a[0] == "ld":
                vals["msqid" if "msqid" in show(a) else "grpno"] = a

        def elems(v, f):
            return {x[1][1] for x in subterms(v) if x[:1] == ("ld",) and len(x) > 1 and isinstance(x[1], tuple)
                    and field_of(x[1]) == f and eng.locrec.get(x[1]) == "advertisement"}
        e1 = elems(vals.get("msqid", ()), "queue")
        e2 = elems(vals.get("grpno", ()), "server")
        if not e1 or "msqid" not in vals or not e2:
            self.fail(eng, st, "list-values", "the stored queue or group does not come from the advertisement", call.line)
            return
        if e1 != e2:
            self.fail(eng, st, "list-values", "queue and group come from different advertisements", call.line)
        for el in e1:
            for k, v in st.facts.items():
                if v and k[0] == "==" and any(x[0] == "ld" and x[1] == ("fld", el, "service") for x in k[1:3]):
                    y = k[2] if k[1][0] == "ld" and k[1][1] == ("fld", el, "service") else k[1]
                    if "mib_service" in show(y) or "find_service" in show(y):
                        return
        self.fail(eng, st, "list-values", "an advertisement of another service enters the list", call.line)


class Writer(FuxRule):
    """ts = (identity changed, revisions bumped)"""
    limit = 200

    def opaque(self, fn):
        r = fn.get("rec") or ""
        if r.startswith("mibarrptr<") or r in ("service", "advertisement") or fn.get("lam"):
            return False
        if r == "mib" and base((fn["rt"] or {}).get("s") or "").startswith("mibarrptr"):
            return False
        return not (fn["u"] in self.helpers)

    def store(self, eng, st, loc, val, node):
        rec, f = eng.locrec.get(loc), field_of(loc)
        if root(loc)[0] == "var" and "@" in str(root(loc)[1]):
            return
        ch, bumped, svc = st.ts
        if rec == "advertisement" and f in ("service", "queue", "server"):
            if f == "service" and not isc(val):
                svc = val
            st.ts = (True, bumped, svc)
            self.rep.instance("identity-write", "%s:%s %s" % (eng.curfile(), (node or {}).get("l"), f))
        elif rec == "service" and f == "revision":
            old = eng.lookup(st, loc)
            d = mk_sub(val, old)
            if isc(d) and d[1] > 0:
                st.ts = (ch, bumped | {loc}, svc)
            else:
                self.fail(eng, st, "revision-monotonic", "a service revision is set to something other than a later one",
                          (node or {}).get("l"))


def check(prog, rep):
    # readers: entry points of the cache
    own = {u for u, f in prog.functions.items() if f.get("rec") == "service_repository" and f.get("b")}
    prog.rec("service_repository")
    cg = callgraph(prog)
    inner = set()
    for u in own:
        inner |= cg[u] & own - {u}
    roots = [prog.functions[u] for u in sorted(own - inner) if not isctor(prog.functions[u])]
    for f in roots:
        rule = Reader(rep, prog)
        eng, outs, fn = run_root(prog, rule, f, State(ts=(frozenset(), (False, False, False, False))), rep=rep)
        for o in outs:
            rep.count("exits")
            if o[0] != "ret":
                continue
            st, v = o[1], o[2]
            if (f["rt"] or {}).get("k") == "void":
                continue
            if not rule.x(st, "fresh"):
                rep.violation(f["file"], f["l"], f["n"], "stale-list",
                              "a queue is handed out without comparing revisions", trace=st.trace())
            grp = [("sym", "p:" + p["n"]) for p in f["p"] if (p["t"] or {}).get("k") == "int"]
            if v[0] == "ld" and field_of(v[1]) == "msqid" and grp:
                g = grp[0]
                el = v[1][1]
                ok = eng.decide(st, mk_eq(g, ("c", -1))) is True
                for k, t in st.facts.items():
                    if t and k[0] == "==" and g in k[1:3]:
                        other = k[2] if k[1] == g else k[1]
                        if other[0] == "ld" and other[1] == ("fld", el, "grpno"):
                            ok = True
                rep.instance("group-match", show(v)[-60:])
                if not ok:
                    rep.violation(f["file"], f["l"], f["n"], "group-match",
                                  "a call addressed to a group may go to a queue of another group", trace=st.trace())
            else:
                rep.violation(f["file"], f["l"], f["n"], "group-match",
                              "the queue handed out is not one of the list", trace=st.trace())
    # writers
    direct = set()
    for u, f in prog.functions.items():
        for n in walk(f.get("b") or {}):
            if n["k"] in ("bin", "un") and (n["k"] == "un" or n["op"].endswith("=")) and n.get("op") != "==":
                m = n
                while m is not None and m["k"] == "bin" and m["op"] == "=":
                    if mem_rec(m) [0] == "advertisement" and mem_rec(m)[1] in ("service", "queue", "server"):
                        direct.add(u)
                    m = strip(m["b"])
    callersof = callers(prog)
    helpers = set()
    work, seen = sorted(direct), set()
    while work:
        u = work.pop(0)
        if u in seen:
            continue
        seen.add(u)
        f = prog.functions[u]
        rule = Writer(rep)
        rule.helpers = helpers
        eng, outs, fn = run_root(prog, rule, f, State(ts=(False, frozenset(), None)), rep=rep)
        bad = None
        for o in outs:
            if o[0] != "ret":
                continue
            ch, bumped, svc = o[1].ts
            if not ch:
                continue
            rep.instance("announced", "%s" % f["n"])
            if not bumped:
                bad = (o[1], "leaves after changing an advertisement without changing the service's revision")
            elif svc is not None and not any(contains(l, svc) for l in bumped):
                bad = (o[1], "changes the revision of another service than the one advertised")
        if bad:
            cs = callersof.get(u, set()) - {u}
            if cs and not f.get("externc") and (f.get("internal") or f.get("rec")) and u not in helpers and len(helpers) < 6 \
                    and all(prog.functions[c].get("rec") == f.get("rec") for c in cs):
                helpers.add(u)       # decide it where it is used
                work += sorted(cs)
                for c in cs:
                    seen.discard(c)
                continue
            rep.violation(f["file"], f["l"], f["n"], "announce", bad[1], trace=bad[0].trace())
    rep.need("list-fill", 1)
    rep.need("announced", 1)
    rep.need("revision-recorded", 1)
