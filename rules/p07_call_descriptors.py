"""Call descriptors: one live request, one reply."""
from sa.lib import *

EXPLAIN = ("Path-sensitive key-set typestate of the table of outstanding calls: lookups fork into present and absent, "
           "insertions, erasures and stored replies are tracked per key term, received messages per message object. "
           "On every exit of the calling, receiving and cancelling functions: a failed call left no new key, a "
           "successful one returns exactly its new key, taken from the positive sequence; a reply is handed out only "
           "for a key known present that is the one asked for (or any was accepted) and gone afterwards; a message for "
           "another key is kept under it or that key is known absent; cancelling succeeds exactly when a key was erased.")

MAPS = ("std::map", "std::unordered_map")


def is_map(n):
    return n.startswith(("std::map::", "std::unordered_map::"))


class Table(FuxRule):
    """ts = (keys: frozenset((term, 'P'|'A'|'N')), erased: bool, msgs: frozenset((loc, state, arg)), out)"""
    limit = 250
    fork_stl = True
    opaque_names = {"tptypes", "fux::ipc::msg::get_data", "fux::ipc::msg::set_data", "getmib", "mib::accessers",
                    "mib::mach", "fux::tx::gttid", "fux::tx::transactional", "checked_copy",
                    "fux::atmi::set_tperrno", "fux::atmi::reset_tperrno", "mib::data_lock"}

    def opaque(self, fn):
        r = fn.get("rec") or ""
        return r == "service_repository" or r.startswith("mibarrptr<") or r == "mib" or super().opaque(fn)

    def __init__(self, rep, prog, kind):
        super().__init__(rep)
        self.prog = prog
        self.kind = kind
        self.sites = set()
        self.map = None

    # ---- typestate access
    def keys(self, st):
        return dict(st.ts[0])

    def setkey(self, st, k, v):
        d = dict(st.ts[0])
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        st.ts = (frozenset(d.items()),) + st.ts[1:]

    def forget(self, eng, st, k):
        """The symbol k starts a new life unless the program still holds its old value."""
        self.setkey(st, k, None)
        eng.killsym(st, k)
        for l, v in list(st.env.items()):
            if isinstance(v, tuple) and contains(v, k) or contains(l, k):
                if l[0] in ("fld", "idx") and contains(l, k):
                    del st.env[l]
                elif v == k or v == ("status", k):
                    st.env[l] = ("sym", "earlier")

    def erase(self, st, k, line, eng):
        d = dict(st.ts[0])
        for x in list(d):
            if x != k and d[x] == "P" and eng.decide(st, mk_eq(x, k)) is True:
                d[x] = "A"
        d[k] = "A"
        st.ts = (frozenset(d.items()), st.ts[1] | {k}) + st.ts[2:]

    def status(self, eng, st, k):
        d = dict(st.ts[0])
        if k in d:
            return d[k]
        for x, v in sorted(d.items(), key=repr):
            if eng.decide(st, mk_eq(x, k)) is True:
                return v
        return None

    def msgs(self, st):
        return dict(st.ts[2])

    def setmsg(self, st, loc, v):
        d = dict(st.ts[2])
        if v is None:
            d.pop(loc, None)
        else:
            d[loc] = v
        st.ts = st.ts[:2] + (frozenset(d.items()),) + st.ts[3:]

    # ---- the table
    def table(self, eng, obj):
        return isinstance(obj, tuple) and obj[0] == "fld" and eng.locrec.get(obj) in self.owners

    def entryof(self, eng, loc, f):
        """Key of the entry whose member f is at loc."""
        if loc[0] == "fld" and loc[2] == f and loc[1][0] == "fld" and loc[1][2] == "second" and \
                loc[1][1][0] == "idx" and self.table(eng, loc[1][1][1]):
            return loc[1][1][2]
        return None

    def elem(self, st, m, k):
        """The pair an iterator points to."""
        p = ("idx", m, k)
        st.env[("fld", p, "first")] = k
        sl = ("fld", ("fld", p, "second"), "status")
        if sl not in st.env:
            st.env[sl] = ("status", k)
        return addr(p)

    def entry(self, m, k):
        return ("fld", ("idx", m, k), "second")

    def insert(self, eng, st, k, line):
        self.rep.instance("insert", "%s:%s" % (eng.curfile(), line))
        seq = False
        for x in subterms(k):
            if x[:1] == ("ld",) and len(x) > 1 and isinstance(x[1], tuple) and field_of(x[1]) in self.counters:
                seq = True
        if isc(k) and k[1] > 0:
            seq = True          # the counter starts over
        if not seq:
            self.fail(eng, st, "resurrected", "a descriptor that is not outstanding (cancelled or already answered) is "
                      "entered into the table again", line)
            return
        lo = eng.bounds(st, k)[0]
        self.setkey(st, k, "N")

    def keyval(self, eng, st, a):
        """Value of a key argument passed by reference."""
        if a[0] == "addr":
            self.load(eng, st, a[1], None)
            return eng.lookup(st, a[1])
        if a[0] == "recv":
            self.load(eng, st, a[1], None)
            return eng.lookup(st, a[1])
        if a[0] == "ld" or a[0] == "sym":
            return ("ld", deref(a), 0)
        return a

    def itval(self, eng, st, a, node=None):
        if isinstance(a, tuple) and a[0] in ("addr", "recv"):
            v = eng.lookup(st, a[1])
            if v[0] not in ("iter", "iend") and self.map is not None and a[1][0] == "var" and \
                    ("loop" in str(v[1]) if v[0] == "sym" else False):
                v = ("iter", self.map, ("sym", "walk@%s" % str(a[1][1])))
                del st.env[a[1]]
                self.forget(eng, st, v[2])
                st.env[a[1]] = v
            return v
        if isinstance(a, tuple) and a[0] == "val":
            return a[1]
        return a

    def call(self, eng, st, call):
        n = base(call.name)
        m = n.split("::")[-1]
        o = call.obj
        if is_map(n) and self.table(eng, o):
            self.sites.add((eng.curfile(), call.line, m))
            self.map = o
            if m in ("find", "count", "contains"):
                k = self.keyval(eng, st, call.args[0])
                hit = {"find": ("iter", o, k), "count": C1, "contains": C1}[m]
                miss = {"find": ("iend", o), "count": C0, "contains": C0}[m]
                s = self.status(eng, st, k)
                res = []
                if s in ("P", "N", None):
                    a = st.copy()
                    if s is None:
                        self.setkey(a, k, "P")
                    res.append(("ret", a, hit))
                if s in ("A", None):
                    b = st.copy()
                    if s is None:
                        self.setkey(b, k, "A")
                    res.append(("ret", b, miss))
                return res
            if m in ("end", "cend"):
                return [("ret", st, ("iend", o))]
            if m in ("begin", "cbegin"):
                k = ("sym", "walk@%s:%d" % (eng.curfile().split("/")[-1], call.line))
                self.forget(eng, st, k)
                return [("ret", st, ("iter", o, k))]
            if m in ("operator[]", "at"):
                k = self.keyval(eng, st, call.args[0])
                if m == "operator[]" and self.status(eng, st, k) not in ("P", "N"):
                    self.insert(eng, st, k, call.line)
                self.elem(st, o, k)
                return [("ret", st, addr(self.entry(o, k)))]
            if m in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
                k = None
                if m in ("emplace", "try_emplace", "insert_or_assign") and call.args:
                    k = self.keyval(eng, st, call.args[0])
                elif call.args:
                    a = call.args[0]
                    l = a[1] if a[0] in ("addr", "recv") else None
                    v = self.itval(eng, st, a)
                    if v[0] == "obj" and v[2]:
                        k = self.keyval(eng, st, v[2][0])
                    elif l is not None and ("fld", l, "first") in st.env:
                        k = st.env[("fld", l, "first")]
                    elif v[0] == "pairof":
                        k = v[1]
                if k is None:
                    raise AnalysisBroken("%s:%s: key of %s not understood" % (eng.curfile(), call.line, m))
                if self.status(eng, st, k) not in ("P", "N"):
                    self.insert(eng, st, k, call.line)
                return [("ret", st, ("pairof", ("iter", o, k)))]
            if m == "erase":
                self.rep.instance("erase", "%s:%s" % (eng.curfile(), call.line))
                v = self.itval(eng, st, call.args[0])
                if v[0] == "iter":
                    self.erase(st, v[2], call.line, eng)
                    return [("ret", st, ("iend", o))]
                k = self.keyval(eng, st, call.args[0])
                s = self.status(eng, st, k)
                res = []
                if s in ("P", "N", None):
                    a = st.copy()
                    if s is None:
                        self.setkey(a, k, "P")
                    self.erase(a, k, call.line, eng)
                    res.append(("ret", a, C1))
                if s in ("A", None):
                    b = st.copy()
                    self.setkey(b, k, "A")
                    res.append(("ret", b, C0))
                return res
            if m in ("size", "empty"):
                return None
            if m == "clear":
                self.fail(eng, st, "resurrected", "all outstanding calls are dropped", call.line)
                return None
            return None
        if m in ("operator==", "operator!=", "operator->", "operator*") and ("iterator" in n.lower() or n.startswith("std::")):
            av = [self.itval(eng, st, a) for a in ([addr(o)] if o is not None and isinstance(o, tuple) and o[0] != "callee" else [])
                  + list(call.args)]
            if len(av) == 2 and all(isinstance(a, tuple) and a[0] in ("iter", "iend") for a in av) and m in ("operator==", "operator!="):
                if av[0] == av[1]:
                    r = C1
                elif {av[0][0], av[1][0]} == {"iter", "iend"}:
                    it = av[0] if av[0][0] == "iter" else av[1]
                    if it[2][0] == "sym" and self.status(eng, st, it[2]) is None:
                        # an iterator that walks the table
                        a, b = st.copy(), st.copy()
                        self.setkey(a, it[2], "P")
                        ne = C1 if m == "operator!=" else C0
                        return [("ret", a, ne), ("ret", b, mk_not(ne) if isc(ne) else ne)]
                    r = C0
                else:
                    return None
                return [("ret", st, r if m == "operator==" else mk_not(r))]
            if len(av) == 1 and isinstance(av[0], tuple) and av[0][0] == "iter":
                return [("ret", st, self.elem(st, av[0][1], av[0][2]))]
        if n == "std::find_if" and len(call.args) == 3 and call.args[2][0] in ("lam", "addr", "recv"):
            it = self.itval(eng, st, call.args[0])
            lam = self.itval(eng, st, call.args[2])
            lf = self.prog.resolve(lam[1], eng.cur()["unit"]) if lam[0] == "lam" else None
            if it[:1] == ("iter",) and lf is not None:
                res = [("ret", st.copy(), ("iend", it[1]))]
                a = st.copy()
                k = ("sym", "walk@%s:%d" % (eng.curfile().split("/")[-1], call.line))
                self.forget(eng, a, k)
                self.setkey(a, k, "P")
                for s2, v in eng.inline(lf, a, lam[2], [self.elem(a, it[1], k)], call.node):
                    s2 = eng.assume(s2, v, True)
                    if s2 is not None:
                        res.append(("ret", s2, ("iter", it[1], k)))
                return res
        if m == "operator++" and o is not None and self.itval(eng, st, addr(o))[0:1] == ("iter",):
            it = eng.lookup(st, o)
            k = ("sym", "walk@" + str(root(o)[1]))
            del st.env[o]
            self.forget(eng, st, k)
            self.forget(eng, st, it[2])
            st.env[o] = ("iter", it[1], k)
            eng.logmod(o)
            return [("ret", st, addr(o))]
        if call.fn is not None and call.fn.get("b") and call.fn["u"] not in self.relevant and not call.fn.get("lam") and \
                (call.fn["rt"] or {}).get("k") in ("int", "enum", "bool", "void") and \
                call.fn.get("rec") in self.users:
            # a helper that does not touch the table or a message
            return [("ret", st, eng.fresh(st, n, call.line))]
        if n in ("fux::ipc::qrecv",) and len(call.args) >= 2:
            l = self.msgloc(call.args[1])
            eng.havoc(st, l, call.line)
            self.setmsg(st, l, ("received", None))
            self.rep.instance("receive", "%s:%s" % (eng.curfile(), call.line))
            return [("ret", st, C0)]
        if n == "fux::ipc::qsend":
            self.rep.instance("send", "%s:%s" % (eng.curfile(), call.line))
            a, b, t = st.copy(), st.copy(), st.copy()
            l = self.msgloc(call.args[1])
            for s in (a, b):
                s.ts = s.ts[:3] + (s.ts[3] | {("sent" if s is a else "unsent", None)},)
            rq, cd = self.msgfld(eng, a, l, "replyq"), self.msgfld(eng, a, l, "cd")
            a.ts = a.ts[:3] + (frozenset({("sent", rq, cd)}),)
            b.note(eng.curfile(), call.line, "the request is not sent")
            t.note(eng.curfile(), call.line, "sending the request throws")
            return [("ret", a, C1), ("ret", b, C0), ("throw", t, "std::system_error")]
        if n == "fux::ipc::msg::get_data":
            l = call.obj
            self.rep.instance("deliver", "%s:%s" % (eng.curfile(), call.line))
            self.deliver(eng, st, l, call.line)
            return [("ret", st, C0)]
        return super().call(eng, st, call)

    def msgloc(self, a):
        return a[1] if a[0] in ("addr", "recv") else deref(a)

    def msgfld(self, eng, st, l, f):
        for k, v in st.env.items():
            if k[0] == "fld" and k[2] == f and under(k, l):
                return v
        return None

    def cdof(self, eng, st, l):
        return self.msgfld(eng, st, l, "cd")

    # ---- messages
    def load(self, eng, st, loc, node):
        if loc[0] == "fld" and loc[2] == "first" and loc[1][0] == "idx":
            st.env[loc] = loc[1][2]
        e = self.entryof(eng, loc, "status")
        if e is not None and loc not in st.env:
            st.env[loc] = ("status", e)
        if loc[0] == "fld" and loc[2] == "cd":
            d = self.msgs(st)
            for l, (s, k) in d.items():
                if s == "taken" and under(loc, l):
                    st.env[loc] = k
                    return
            if loc not in st.env and any(under(loc, l) for l in d):
                v = eng.lookup(st, loc)
                st.env[loc] = v

    def store(self, eng, st, loc, val, node):
        e = self.entryof(eng, loc, "status")
        if e is not None or loc[0] == "fld" and loc[2] == "second" and loc[1][0] == "idx" and self.table(eng, loc[1][1]):
            k = e if e is not None else loc[1][2]
            for f in list(st.facts):
                for x in subterms(f):
                    if x[:1] == ("status",) and (x[1] == k or eng.decide(st, mk_eq(x[1], k)) is not False):
                        del st.facts[f]
                        break
            for l in list(st.env):
                x = self.entryof(eng, l, "status")
                if x is not None and (x == k or eng.decide(st, mk_eq(x, k)) is not False):
                    st.env[l] = ("sym", "status?")
        if val[0] != "recv":
            return
        src = val[1]
        line = (node or {}).get("l") or (eng.cur() or {}).get("l")
        if loc[0] == "fld" and src[0] == "fld" and eng.locrec.get(loc) == "fux::ipc::msg":
            loc, src = loc[1], src[1]       # the whole message
        # a message is stored under a key
        if loc[0] == "fld" and loc[1][0] == "fld" and loc[1][2] == "second" and loc[1][1][0] == "idx" and \
                self.table(eng, loc[1][1][1]) and src in self.msgs(st):
            k = loc[1][1][2]
            self.rep.instance("keep", "%s:%s" % (eng.curfile(), line))
            cd = self.cdof(eng, st, src)
            if cd != k and (cd is None or eng.decide(st, mk_eq(cd, k)) is not True):
                self.fail(eng, st, "wrong-descriptor", "a reply is kept under another descriptor than its own", line)
            self.setmsg(st, src, ("kept", ("fld", loc[1], "status")))
            return
        # a stored message is taken
        if src[0] == "fld" and src[1][0] == "fld" and src[1][2] == "second" and src[1][1][0] == "idx" and \
                self.table(eng, src[1][1][1]):
            k = src[1][1][2]
            self.rep.instance("take", "%s:%s" % (eng.curfile(), line))
            if not self.isbuffered(eng, st, src[1], k):
                self.fail(eng, st, "not-received", "the stored reply of a descriptor is used without a reply being there",
                          line)
            self.setmsg(st, loc, ("taken", k))

    def isbuffered(self, eng, st, ent, k):
        return eng.decide(st, mk_eq(("status", k), C0)) is False or eng.decide(st, mk_eq(("status", k), C1)) is True

    def deliver(self, eng, st, l, line):
        d = self.msgs(st)
        s = d.get(l)
        if s is None:
            self.fail(eng, st, "not-received", "data is handed out of a message that was not received", line)
            return
        # the field as the code will see it
        loc = None
        for k in st.env:
            if k[0] == "fld" and k[2] == "cd" and under(k, l):
                loc = k
        cd = s[1] if s[0] == "taken" else (st.env.get(loc) if loc else None)
        if cd is None or self.status(eng, st, cd) not in ("P", "A") or \
                self.status(eng, st, cd) == "A" and not self.was_erased(eng, st, cd):
            self.fail(eng, st, "unknown-descriptor", "a reply is handed out without knowing that its descriptor is "
                      "outstanding", line)
        want = ("ld", deref(("sym", "p:cd")), 0)
        any_ = eng.decide(st, mk_eq(mk_anyflag(), C0))
        if any_ is not False:
            if cd is None or (cd != want and eng.decide(st, mk_eq(cd, want)) is not True):
                self.fail(eng, st, "other-reply", "a reply for another descriptor than the requested one is handed out "
                          "although only that one was accepted", line)
        self.setmsg(st, l, ("delivered", cd))

    def was_erased(self, eng, st, k):
        return k in st.ts[1] or any(eng.decide(st, mk_eq(x, k)) is True for x in st.ts[1])

    def dtor(self, eng, st, ty, loc, line):
        d = self.msgs(st)
        if loc in d:
            self.dropped(eng, st, loc, d[loc], line)
            s = d[loc]
            self.setmsg(st, loc, None)
            if s[0] == "delivered":
                st.ts = st.ts[:3] + (st.ts[3] | {("delivered", s[1])},)
            # terms of the dead message
            dd = {k: v for k, v in st.ts[0] if not any(under(x[1], loc) for x in subterms(k)
                  if x[:1] == ("ld",) and len(x) > 1 and isinstance(x[1], tuple)) or s[0] == "delivered"}
            st.ts = (frozenset(dd.items()),) + st.ts[1:]

    def dropped(self, eng, st, loc, s, line):
        if s[0] == "kept":
            v = eng.lookup(st, s[1])
            if not isc(v) or v[1] == 0:
                self.fail(eng, st, "lost-reply", "a reply is kept without being marked as received", line)
            return
        if s[0] not in ("received", "taken"):
            return
        cd = self.cdof(eng, st, loc) if s[0] == "received" else s[1]
        if cd is not None and self.status(eng, st, cd) == "A":
            return
        for f, v in st.facts.items():
            if v and f[0] == "==" and any(x[0] == "ld" and field_of(x[1]) == "cat" and under(x[1], loc) for x in f[1:3]):
                return          # the notice that the block time has passed
            if v and f[0] == "==" and ("cat" in show(f)) and f[2] == C_UNBLOCK:
                return
        self.fail(eng, st, "lost-reply", "a reply is dropped although its descriptor may be outstanding", line)


MAXC = ("c", 2147483647)
C_UNBLOCK = ("c", 2)
ANYFLAG = None


def mk_anyflag():
    from sa.engine import mk_op
    return mk_op("&", ("sym", "p:flags"), ("c", ANYFLAG))


def table_owner(prog):
    """The class that holds the outstanding calls: a map by descriptor of entries with a message."""
    res = {}
    for k, r in prog.records.items():
        for f in r.get("fields") or []:
            t = base((f["t"] or {}).get("r") or "")
            full = (f["t"] or {}).get("r") or ""
            if t in MAPS and full.split("<", 1)[1].startswith("int,"):
                el = full.split(",")[1].strip()
                er = prog.records.get(el)
                if er and any(((x["t"] or {}).get("r")) == "fux::ipc::msg" for x in er.get("fields") or []):
                    res[k] = f["n"]
    return res


def check(prog, rep):
    global ANYFLAG
    owners = table_owner(prog)
    if len(owners) != 1:
        raise AnalysisBroken("expected one table of outstanding calls, found %s" % sorted(owners))
    ANYFLAG = 0x80
    own = {u for u, f in prog.functions.items() if f.get("rec") in owners and f.get("b") and not isctor(f)}
    counters = {f["n"] for k in owners for f in prog.rec(k)["fields"] if (f["t"] or {}).get("k") == "int"}
    cg = callgraph(prog)
    inside = reaching(prog, own)
    # the members of the class that uses the table, entered from outside
    users = {prog.functions[u].get("rec") for u in inside if cg[u] & own and prog.functions[u].get("rec") not in owners}
    users.discard(None)
    mem = {u for u, f in prog.functions.items() if f.get("rec") in users and f.get("b") and not isctor(f) and
           (cg[u] & own or u in inside)}
    inner = set()
    for u in mem:
        inner |= (cg[u] & mem) - {u}
    roots = [prog.functions[u] for u in sorted(mem) if u not in inner and not f_dtor(prog.functions[u])]
    recv = reaching(prog, {u for u, f in prog.functions.items() if base(f["n"]) == "fux::ipc::qrecv"})
    send = reaching(prog, {u for u, f in prog.functions.items() if base(f["n"]) == "fux::ipc::qsend"})
    msgs = reaching(prog, {u for u, f in prog.functions.items() if f.get("rec") == "fux::ipc::msg"})
    for f in roots:
        kind = "receive" if f["u"] in recv else "issue" if f["u"] in send else "cancel"
        rule = Table(rep, prog, kind)
        rule.relevant, rule.users = inside | recv | send | msgs, users
        rule.owners, rule.counters = set(owners), counters
        cnt = []
        for r in prog.rec(f["rec"])["fields"]:
            if ((r["t"] or {}).get("r")) in owners:
                cnt += [(c, ("fld", ("fld", deref(("sym", "this")), r["n"]), c)) for c in sorted(counters)]
        st = State(ts=(frozenset(), frozenset(), frozenset(), frozenset()))
        for c, l in cnt:
            # invariant of the counter, checked again on every exit
            st.facts[("<", ("ld", l, 0), C0)] = False
            st.facts[("==", ("ld", l, 0), MAXC)] = False
        eng, outs, fn = run_root(prog, rule, f, st, rep=rep)
        rep.instance("root", "%s (%s)" % (f["n"], kind))
        for s in rule.sites:
            rep.instance("table-operation", "%s:%s %s" % s)
        for o in outs:
            rep.count("exits")
            exit_check(prog, rep, rule, eng, f, kind, o)
            for c, l in cnt:
                v = eng.lookup(o[1], l)
                if v == ("ld", l, 0):
                    continue
                if eng.decide(o[1], mk_lt(v, C0)) is not False or eng.decide(o[1], mk_eq(v, MAXC)) is not False and \
                        eng.decide(o[1], mk_lt(v, MAXC)) is not True:
                    rep.violation(f["file"], f["l"], f["n"], "counter-range", "the descriptor counter can leave its "
                                  "positive range", trace=o[1].trace())
    for k in ("insert", "erase", "deliver", "keep", "take", "receive", "send"):
        rep.need(k, 1)


def f_dtor(f):
    return f.get("dtor") or base(f["n"]).split("::")[-1].startswith("~")


def exit_check(prog, rep, rule, eng, f, kind, o):
    st = o[1]
    v = o[2] if o[0] == "ret" else None
    def bad(r, msg):
        rep.violation(f["file"], f["l"], f["n"], r, msg, trace=st.trace())
    new = [k for k, s in st.ts[0] if s == "N"]
    fails = v is None or eng.decide(st, mk_eq(v, ("c", -1))) is True
    sent = [x for x in st.ts[3] if x[0] == "sent"]
    if kind == "issue":
        if fails:
            if new:
                bad("descriptor-leak", "a call that fails leaves its descriptor outstanding")
            if sent:
                bad("sent-as-failure", "a request that was sent is reported as a failure")
            return
        if not sent:
            bad("not-sent", "success is reported for a request that was not sent")
            return
        _, rq, cd = sent[0]
        if cd is None or cd != v and eng.decide(st, mk_eq(cd, v)) is not True:
            bad("other-descriptor", "the descriptor returned is not the one the request carries")
            return
        if rq is None:
            bad("other-descriptor", "the request carries no reply queue")
            return
        wants = eng.decide(st, mk_eq(rq, ("c", -1)))
        if wants is not True and not any(k == v or eng.decide(st, mk_eq(k, v)) is True
                                     for k, s in st.ts[0] if s in ("N", "P")):
            bad("other-descriptor", "the descriptor returned for a call that is answered is not outstanding")
        for k in new:
            if k != v and eng.decide(st, mk_eq(k, v)) is not True:
                bad("descriptor-leak", "a descriptor other than the returned one stays outstanding")
        return
    if new:
        bad("resurrected", "a descriptor is entered that no call returned")
    if kind == "cancel":
        if (f["rt"] or {}).get("k") == "void" or v is None:
            return
        cd = ("sym", "p:" + (f["p"][0]["n"] if f["p"] else "cd"))
        gone = any(k == cd or eng.decide(st, mk_eq(k, cd)) is True for k in st.ts[1])
        if eng.decide(st, mk_eq(v, C0)) is True and not gone:
            bad("cancel", "cancelling succeeds although no outstanding call ended")
        if fails and st.ts[1]:
            bad("cancel", "cancelling is reported as failed although the call ended")
        return
    # receive
    d = [x for x in st.ts[3] if x[0] == "delivered"]
    if v is None:
        return
    if not d:
        if eng.decide(st, mk_eq(v, ("c", -1))) is not True:
            bad("no-reply", "success is reported although no reply was handed out")
        return
    cd = d[0][1]
    if cd is None:
        return
    if rule.status(eng, st, cd) != "A":
        bad("still-outstanding", "the descriptor of a reply that was handed out stays outstanding")
    out = eng.lookup(st, deref(("sym", "p:cd")))
    if out != cd and eng.decide(st, mk_eq(out, cd)) is not True:
        bad("other-reply", "the descriptor reported is not the one of the reply")
