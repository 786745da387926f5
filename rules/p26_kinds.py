"""Numbers of different kinds (positions in different tables, identifiers, descriptors) are never mixed up."""
from sa.lib import *
from sa.units import Units, holder, peel

EXPLAIN = ("Unification-based inference of the kind of every number in the program (position in which table, group number, "
           "server identifier, queue/semaphore/memory identifier, call descriptor, process, field identifier, occurrence, "
           "result code of which interface) over assignments, comparisons, arguments, results, record fields, elements of "
           "containers and values sent in the same message field; context sensitive by generic function summaries.")

NAMES = {"FLDID32": "field identifier", "FLDOCC32": "occurrence number", "gttid": "position in the table of transactions",
         "pid_t": "process identifier", "key_t": "IPC key"}
Q, M, S, P, D = "message queue identifier", "shared memory identifier", "semaphore identifier", "process identifier", \
    "call descriptor"
G, V = "group number", "server identifier"
LIB = {"msgget": {0: "IPC key", None: Q}, "msgsnd": {0: Q}, "msgrcv": {0: Q}, "msgctl": {0: Q},
       "shmget": {0: "IPC key", None: M}, "shmat": {0: M}, "shmctl": {0: M},
       "semget": {0: "IPC key", None: S}, "semop": {0: S}, "semtimedop": {0: S}, "semctl": {0: S},
       "getpid": {None: P}, "getppid": {None: P}, "fork": {None: P}, "kill": {0: P}, "waitpid": {0: P, None: P}}
RESULTS = {"Fldno32": "field number", "Fldtype32": "field type"}
TABLES = ("group", "server", "queue", "service", "advertisement", "accesser")


class Seeds:
    def __init__(self, prog):
        self.prog = prog
        self.hits = {}
        # what the administrative fields are documented to hold
        self.sent = {}
        for n, kd in (("TA_GRPNO", G), ("TA_RMID", G), ("TA_SRVID", V), ("TA_RQID", Q)):
            if "FLDID32 " + n not in prog.macros:
                raise AnalysisBroken("the field %s was not found" % n)
            self.sent[prog.macros["FLDID32 " + n]] = kd

    def used(self, n, j):
        self.hits[(n, j)] = self.hits.get((n, j), 0) + 1

    def compatible(self, a, b):
        # an occurrence number may be the position of what is reported
        if "occurrence number" in (a, b):
            return (a if b == "occurrence number" else b).startswith("position")
        return False

    def typename(self, td):
        return NAMES.get(td)

    def table(self, rec):
        if rec and rec.startswith("mibarr<") or rec and rec.startswith("mibarrptr<"):
            t = rec[rec.index("<") + 1:rec.rindex(">")].split("::")[-1].strip()
            return "position in the table of %ss" % t
        return None

    def field(self, rec, name, prog):
        if rec.startswith("mibarr<") and name in ("len", "size"):
            return self.table(rec)
        if rec == "group" and name == "grpno":
            return G
        if rec == "server" and name == "srvid":
            return V
        if rec == "queue" and name == "msqid":
            return Q
        if rec == "transaction_table" and name in ("len", "size"):
            return NAMES["gttid"]
        for f in (prog.records.get(rec) or {}).get("fields") or ():
            if f["n"] == name:
                return self.typename(f.get("td"))
        return None

    def index(self, rec, name):
        if rec == "transaction" and name == "groups":
            return "position in the table of groups"
        return None

    def result(self, f):
        n = base(f["n"])
        if n in ("tpacall",):
            return D
        if n in RESULTS:
            return RESULTS[n]
        return self.typename(f.get("rtd"))

    def param(self, f, i):
        n = base(f["n"])
        if n == "tpcancel" and i == 0 or n == "tpgetrply" and i == 0:
            return D
        if n == "Fmkfldid32":
            return ("field type", "field number")[i]
        if f.get("rec") == "transaction_table" and n.split("::")[-1] == "operator[]":
            return NAMES["gttid"]
        t = self.table(f.get("rec"))
        if t and n.split("::")[-1] in ("at", "operator[]"):
            return t
        return self.typename(f["p"][i].get("td"))

    def library(self, n, e):
        return LIB.get(n)

    def method(self, n, short, e, u, o, vs):
        if "fml32buf::" in n and short in ("put", "get") and vs:
            a = e["args"][0]
            if isinstance(a.get("cv"), int):
                if len(vs) > 1 and vs[1] is not None:
                    u.unify(vs[1], u.new(("k", NAMES["FLDOCC32"]), NAMES["FLDOCC32"]), e.get("l"))
                m = u.new(("m", a["cv"]), self.sent.get(a["cv"]), glob=True)
                if len(vs) > 2 and vs[2] is not None:
                    u.unify(m, vs[2], e.get("l"))
                return (m if short == "get" and holder(e.get("t")) else None,)
        return None


def infer(prog):
    seeds = Seeds(prog)
    return Units(prog, seeds).run(), seeds


class Made(FuxRule):
    """ts = (tables that became longer, (record, field) given a value)"""
    limit = 200

    def __init__(self, rep, prog, makers, needed):
        super().__init__(rep)
        self.prog, self.makers, self.needed = prog, makers, needed

    def opaque(self, fn):
        r = fn.get("rec") or ""
        if r.startswith("mibarrptr<") or fn.get("lam") or base(fn["n"]) == "mib::operator->" or fn["u"] in self.makers:
            return False
        if r == "mib" and (base((fn["rt"] or {}).get("s") or "").startswith("mibarrptr")):
            return False
        # helpers that fill in an entry
        return fn["u"] not in self.writers

    def may_throw(self, call):
        f = call.fn
        return "std::exception" if f is not None and f["u"] in self.throwing else None

    def call(self, eng, st, call):
        if ((call.fn or {}).get("rec") or "").startswith("mibarrptr<") and len(call.args) == 1:
            # positions beyond the table are P05's
            return [("ret", st, ("addr", mk_idx(("deref", ("sym", call.fn["rec"])), call.args[0])))]
        return super().call(eng, st, call)

    def store(self, eng, st, loc, val, node):
        if loc[0] != "fld":
            return
        rec, f = eng.locrec.get(loc), loc[2]
        if rec and rec.startswith("mibarr<") and f == "len":
            st.ts = (st.ts[0] | {peel_rec(rec)}, st.ts[1])
        elif (rec, f) in self.needed:
            st.ts = (st.ts[0], st.ts[1] | {(rec, f)})


def peel_rec(rec):
    return rec[rec.index("<") + 1:rec.rindex(">")]


def written(f):
    """(record, field) of everything a function assigns."""
    for n in walk(f["b"]):
        t = None
        if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            t = n["a"]
        elif n["k"] == "un" and n["op"] in ("++", "--"):
            t = n["e"]
        t = strip(t)
        if t is not None and t["k"] == "mem" and t.get("dk") == "field":
            yield t.get("rec"), t["n"]


# kinds for which 0, what fresh shared memory holds, is a valid value of something else
REFERS = ("position", "group number", "server identifier", "message queue", "semaphore")


def references(prog, rep, u):
    """Whoever makes an entry of a table gives every reference in it that somebody reads a value."""
    reads, writes = {}, {}
    for f in prog.functions.values():
        if not f.get("b"):
            continue
        w = set(written(f))
        for x in w:
            writes.setdefault(x, set()).add(f["u"])
        for n in walk(f["b"]):
            if n["k"] == "ld" and strip(n) is not None and strip(n)["k"] == "mem" and strip(n).get("rec") in TABLES:
                reads.setdefault((strip(n)["rec"], strip(n)["n"]), []).append((f, n))
    needed = set()
    for t in TABLES:
        for f in (prog.records.get(t) or {}).get("fields") or ():
            kd = u.kindof(("f", t, f["n"]))
            if kd is None and (f["t"] or {}).get("k") == "int" and f["n"] in ("rqaddr", "server_idx", "queue", "server", "service", "grpno", "srvid", "rpid"):
                raise AnalysisBroken("the kind of %s::%s was not found" % (t, f["n"]))
            if kd is not None and kd.startswith(REFERS) and (t, f["n"]) in reads:
                needed.add((t, f["n"]))
                rep.instance("reference", "%s::%s: %s" % (t, f["n"], kd))
    makers = {}
    for uu, f in prog.functions.items():
        if f.get("b") and f["file"].startswith("src/"):
            for rec, n in written(f):
                if rec and rec.startswith("mibarr<") and n == "len":
                    makers.setdefault(uu, set()).add(peel_rec(rec))
    # setting up an empty table is not making an entry
    makers = {k: v for k, v in makers.items() if not prog.functions[k]["n"].split("::")[-1].startswith("init")}
    cal = callers(prog)
    rule = Made(rep, prog, set(makers), needed)
    rule.writers = {w for x in needed for w in writes.get(x, ())}
    rule.throwing = reaching(prog, {x for x, f in prog.functions.items()
                                    if f.get("b") and any(n["k"] == "throw" for n in walk(f["b"]))})
    done = {}

    def self_kind(x):
        return u.kindof(("f",) + x)

    def missing(f):
        if f["u"] in done:
            return done[f["u"]]
        eng, outs, _ = run_root(prog, rule, f, State(ts=(frozenset(), frozenset())), rep=rep)
        out = {}
        for o in outs:
            if o[0] not in ("ret", "throw"):
                continue
            grown, stored = o[1].ts
            for x in needed:
                # an entry given up halfway is no harm unless it names a real queue or semaphore
                if o[0] == "throw" and not self_kind(x).startswith(("message queue", "semaphore")):
                    continue
                if x[0] in grown and x not in stored:
                    out.setdefault(x, o[1])
        done[f["u"]] = out
        return out

    def judge(f, recs, depth):
        for x, st in sorted(missing(f).items(), key=lambda i: i[0]):
            if x[0] not in recs:
                continue
            cs = [c for c in cal.get(f["u"], ()) if prog.functions[c]["file"].startswith("src/")]
            if cs and depth and all(x in set(written(prog.functions[c])) or c in makers for c in cs):
                bad = [c for c in cs if x in missing(prog.functions[c])]
                if not bad:
                    continue
            rd = reads[x][0]
            rep.violation(f["file"], f["l"], f["n"], "reference-unset", "a new %s can be made without a value in %s, which "
                          "%s (%s:%s) reads" % (x[0], x[1], rd[0]["n"], rd[0]["file"], rd[1]["l"]),
                          key="%s.%s in %s" % (x[0], x[1], f["n"]), trace=st.trace())
    for uu, recs in sorted(makers.items()):
        rep.instance("maker", "%s: %s" % (prog.functions[uu]["n"], ", ".join(sorted(recs))))
        judge(prog.functions[uu], recs, 1)
    rep.need("maker", 6)
    rep.need("reference", 8)


def conflicts(prog, rep, kinds=None, files=None):
    """Report numbers of two kinds that meet (only of these kinds, with something of these files on the way)."""
    u, seeds = infer(prog)
    for at, a, b, ka, kb, ca, cb in u.conflicts:
        if kinds is not None and not {ka, kb} & set(kinds):
            continue
        if files is not None and not any(x[0] in files for x in [at] + ca + cb):
            continue
        tr = [(x[0], x[1], "in %s: %s" % (x[2], w)) for c, w in ((ca, ka), (cb, kb)) for x in c[-6:]]
        rep.violation(at[0], at[1], at[2], "kinds-mixed", "a %s is used as a %s" % tuple(sorted((ka, kb))),
                      key="%s|%s" % tuple(sorted((ka, kb))), trace=tr)
    return u, seeds


def check(prog, rep):
    u, seeds = conflicts(prog, rep)
    references(prog, rep, u)
    rep.count("numbers", u.n_nodes)
    rep.count("flows", u.n_edges)
    kinds = {}
    for n in u.par:
        k = u.kindof(n)
        if k is not None:
            kinds[k] = kinds.get(k, 0) + 1
    for k, c in sorted(kinds.items()):
        rep.instance("kind", "%s: %d numbers" % (k, c))
    for (n, j), c in sorted(seeds.hits.items(), key=str):
        rep.instance("library", "%s argument %s: %d" % (n, j, c) if j is not None else "%s result: %d" % (n, c))
    rep.need("kind", 12)
