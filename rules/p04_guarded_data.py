"""Data shared between processes or threads is touched only under its lock."""
from sa.lib import *

EXPLAIN = ("Guarded-data analysis: every write to a structural field of the shared tables (any field of a table "
           "header, advertisement, service, queue, accesser, group or transaction entry, and the identity of a server "
           "entry) and every use of a lock-protected container is an access that needs its lock. Lock state is tracked "
           "along every path; an access without the lock makes the lock a requirement on the function's callers, "
           "propagated through the call graph up to the entry points, where an undischarged requirement is a "
           "violation naming the access and the call chain.")

ASSUME = None

# record -> fields exempt from the table lock, with the reason
TABLES = {
    "advertisement": {},
    "service": {},
    "queue": {},
    "group": {},
    "transaction": {},
    "transaction_table": {},
    # the owner's own receive deadline, read by the monitor only as a hint
    "accesser": {"rpid_timeout"},
    # life-cycle mark and process id: written by the one process that starts, is or stops the server
    "server": {"state", "pid"},
}
# record -> {container fields} -> protecting mutex of the same record
CONTAINERS = {
    "Fbfr32fields": ({"id_to_name", "name_to_id"}, "mutex"),
    "server_main": ({"advertisements"}, "mutex"),
}
SEM = ("sem", "the table lock")


def is_table(rec):
    if not rec:
        return False
    return rec in TABLES or rec.startswith("mibarr<")


class R(LockRule):
    def __init__(self, rep, reach):
        super().__init__(rep, reach)
        self.events = []     # (kind, what, needs, held, line, file, trace)
        self.res = LockResult()
        self.rootu = None

    def holds(self, st, need):
        for k, v in st.ts[0]:
            if v > 0:
                if need == SEM and k[0] == "sem":
                    return True
                if k == need:
                    return True
        return False

    def access(self, eng, st, need, what, line):
        self.rep.instance("guarded-access", "%s:%s %s" % (eng.curfile(), line, what))
        if not self.holds(st, need):
            self.events.append(("access", what, need, line, eng.curfile(), st.trace(), eng.stack[-1]["n"]))

    def chain(self, eng, loc):
        l = loc
        while True:
            if l[0] == "fld":
                r = eng.locrec.get(l)
                if r:
                    yield r, l[2], l
                l = l[1]
            elif l[0] == "idx":
                l = l[1]
            else:
                return

    def store(self, eng, st, loc, val, node):
        if root(loc)[0] == "var" and "@" in str(root(loc)[1]):
            return      # a local object
        for rec, f, l in self.chain(eng, loc):
            if is_table(rec) and f not in TABLES.get(rec, ()):
                self.access(eng, st, SEM, "write of %s.%s" % (rec, f), (node or {}).get("l") or eng.cur()["l"])
                return

    def container_use(self, eng, st, loc, line, what):
        for rec, f, l in self.chain(eng, loc):
            if rec in CONTAINERS and f in CONTAINERS[rec][0]:
                self.access(eng, st, ("mutex", "%s::%s" % (rec, CONTAINERS[rec][1])), "%s of %s.%s" % (what, rec, f), line)
                return

    def call(self, eng, st, call):
        n = base(call.name)
        if call.obj is not None and isinstance(call.obj, tuple) and call.fn is None:
            self.container_use(eng, st, call.obj, call.line, n.split("::")[-1] + "()")
        if n in ("memset", "memcpy", "memmove", "std::copy_n", "std::copy", "strcpy", "strncpy") and call.argn:
            i = {"std::copy_n": 2, "std::copy": 2}.get(n, 0)
            if i < len(call.argn):
                e = call.argn[i]
                while e is not None and e["k"] in ("cast", "ewc", "ld"):
                    e = e["e"]
                t = (e or {}).get("t") or {}
                t = t.get("p") or {}
                if is_table(t.get("r")):
                    self.access(eng, st, SEM, "write of a %s entry" % t["r"], call.line)
        # pieces of a table entry handed out for writing
        pts = (call.node or {}).get("pt") or []
        for i, a in enumerate(call.args):
            pt = pts[i] if i < len(pts) else None
            if pt and pt.get("k") in ("ref", "ptr") and not (pt.get("p") or {}).get("c") and a[0] == "addr":
                if (pt.get("p") or {}).get("k") == "rec" and call.fn is not None and call.fn.get("b"):
                    continue      # decided inside the callee
                for rec, f, l in self.chain(eng, a[1]):
                    if is_table(rec) and f not in TABLES.get(rec, ()) and root(a[1])[0] != "var":
                        self.access(eng, st, SEM, "write of %s.%s" % (rec, f), call.line)
                        break
        if call.fn is not None:
            self.note_call(eng, st, call.fn["u"], call.line)
        for a in call.args:
            if a[0] == "lam":
                self.note_call(eng, st, a[1], call.line)
            elif a[0] == "recv":
                v = eng.lookup(st, a[1])
                if v[0] == "lam":
                    self.note_call(eng, st, v[1], call.line)
            elif a[0] == "addr" and a[1][0] == "var":
                v = st.env.get(a[1])
                if v and v[0] == "lam":
                    self.note_call(eng, st, v[1], call.line)
        return super().call(eng, st, call)

    def note_call(self, eng, st, u, line):
        f = eng.prog.resolve(u, eng.cur()["unit"]) if eng.cur() else eng.prog.functions.get(u)
        if f is None or f["u"] in self.reach:
            return
        held = frozenset(k for k, v in st.ts[0] if v > 0)
        self.events.append(("call", f["u"], held, line, eng.curfile(), st.trace(), eng.stack[-1]["n"]))

    def dtor(self, eng, st, ty, loc, line):
        super().dtor(eng, st, ty, loc, line)
        for d in dtor_of(eng.prog, ty):
            self.note_call(eng, st, d, line)


def private_mib(fn):
    """The function works on a table it has built in its own heap."""
    return any(n["k"] == "ctor" and base(n.get("n")) == "mib::mib" and len(n.get("args") or []) == 2
               for n in walk(fn.get("b") or {}))


def check(prog, rep):
    fx = lock_effects(prog)
    U = fx.unbalanced
    cg = callgraph(prog)
    rev = {}
    for u, vs in cg.items():
        for v in vs:
            rev.setdefault(v, set()).add(u)
    ent = entries(prog)
    for r in list(TABLES) + list(CONTAINERS):
        prog.rec(r)
    # candidates: functions mentioning a guarded field or table type
    touch = set()
    guarded = {(r, f["n"]) for r in TABLES for f in prog.rec(r)["fields"] if f["n"] not in TABLES[r]}
    for r in prog.records:
        if r.startswith("mibarr<"):
            guarded |= {(r, f["n"]) for f in prog.records[r]["fields"]}
    for r, (fs, m) in CONTAINERS.items():
        guarded |= {(r, f) for f in fs}
    for u, f in prog.functions.items():
        if not f.get("b"):
            continue
        for n in walk(f["b"]):
            if n["k"] == "mem" and (n.get("rec"), n["n"]) in guarded:
                touch.add(u)
                break
            if n["k"] == "call" and base(n.get("n")) in ("memset", "memcpy"):
                touch.add(u)
                break
    thr = [g for g, d in prog.globals.items() if d.get("qn") == "fux::threaded"]
    if not thr:
        raise AnalysisBroken("anchor vanished: the 'threaded' switch")
    runs = {}

    def run(u):
        if u in runs:
            return runs[u]
        fn = prog.functions[u]
        rule = R(rep, U)
        rule.rootu = u
        st = State(ts=LOCK0)
        for g in thr:
            st.env[("var", g)] = C1
        run_root(prog, rule, fn, st, rep=rep)
        seen = {}
        for e in rule.events:
            k = (e[0], e[1], e[2])
            if k not in seen or len(seen[k][5]) > len(e[5]):
                seen[k] = e
        runs[u] = list(seen.values())
        return runs[u]

    # owner objects under construction are not shared yet
    ctors = {u for u, f in prog.functions.items() if f.get("rec") and
             (base(f["n"]).split("::")[-1] == base(f["rec"]).split("::")[-1]) and
             (f["rec"] in CONTAINERS or f["rec"] == "mib")}
    requires = {}
    work = []
    for u in sorted(touch):
        if u in U or u in ctors:
            continue
        for e in run(u):
            if e[0] == "access":
                r = requires.setdefault(u, {})
                if e[2] not in r:
                    r[e[2]] = (e[1], e[4], e[3], e[6], e[5], (prog.functions[u]["n"],))
                    work.append(u)
    reported = set()
    while work:
        g = work.pop(0)
        gf = prog.functions[g]
        for need, (what, file, line, fname, tr, chain) in list(requires[g].items()):
            rep.instance("requirement", "%s needs %s" % (gf["n"], need[1]))
            if g in ent:
                if base(gf["n"]) == "main" and private_mib(gf):
                    continue
                rep.violation(file, line, fname, "unguarded",
                              "%s without %s (reached from %s)" % (what, need[1], gf["n"]),
                              key="unguarded|%s|%s" % (fname, what), trace=tr)
                continue
            for v in sorted(rev.get(g, ())):
                if v in ctors or v == g:
                    continue
                vf = prog.functions[v]
                if private_mib(vf):
                    continue
                if v in U:
                    continue
                evs = [e for e in run(v) if e[0] == "call" and e[1] == g]
                refs = not evs and any(n["k"] == "ref" and n.get("dk") == "fn" and n.get("fn") and
                                       prog.resolve(n["fn"], vf["unit"]) is gf for n in walk(vf.get("b") or {}))
                for e in evs:
                    rep.instance("call-of-requiring", "%s -> %s" % (vf["n"], gf["n"]))
                    ok = any(k == need or (need == SEM and k[0] == "sem") for k in e[2])
                    if not ok:
                        r = requires.setdefault(v, {})
                        if need not in r:
                            r[need] = (what, file, line, fname, tr + e[5], chain + (vf["n"],))
                            work.append(v)
                if refs:
                    rep.violation(file, line, fname, "unguarded", "%s without %s (in a thread or callback started by %s)"
                                  % (what, need[1], vf["n"]), key="unguarded|%s|%s" % (fname, what), trace=tr)
    rep.need("guarded-access", 40)


ASSUME = [
    "Fields exempt from the table lock: the receive deadline of a process's own slot; the life-cycle mark and process id of a server entry.",
    "Table construction inside the constructors is serialised by the segment's initialisation state word.",
    "A table object built in the heap of a program is private to that program.",
]
