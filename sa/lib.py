"""Shared models of this code base's idioms for the property-simulation engine."""
from .engine import Rule, Engine, State, base, isc, C0, C1, deref, addr, mk_idx, mk_op, mk_eq, mk_not, mk_lt, mk_add, mk_sub, mk_cmp, root, contains, contains_any, subterms, under, show
from .facts import AnalysisBroken, walk

ERRNO_PTR = ("sym", "errno_location")
ERRNO = ("deref", ERRNO_PTR)

# Functions whose inside no path rule needs; they are evaluated as opaque
# (their result unknown, their non-const pointer arguments clobbered).
OPAQUE_DEFAULT = {
    "getconfig", "getubb", "ubb2mib", "userlog", "fux::util::getenv", "string_format",
    "fux::split", "to_string", "fux::fml32buf::get", "fux::fml32buf::put",
}


def strip(e):
    while e is not None and e["k"] in ("ewc", "cast", "bind", "ld", "mat"):
        e = e["e"]
    return e


def static_owner(call):
    o = strip(call.get("obj"))
    return o is not None and o["k"] == "ref" and o.get("dk") == "glob"


class FuxRule(Rule):
    """Base rule: singleton accessors, errno, a name -> handler table."""
    opaque_names = set()
    inline_names = set()
    handlers = {}

    def __init__(self, rep=None):
        self.rep = rep
        self._single = {}
        self.hits = {}

    def opaque(self, fn):
        n = base(fn["n"])
        if n in self.inline_names:
            return False
        if n in self.opaque_names or n in OPAQUE_DEFAULT:
            return True
        return False

    def hit(self, name):
        self.hits[name] = self.hits.get(name, 0) + 1

    def singleton(self, eng, fn):
        """Location returned by a function that only hands out a static object."""
        u = fn["u"]
        if u in self._single:
            return self._single[u]
        res = None
        if (fn["rt"] or {}).get("k") == "ref" and fn.get("b") and not fn.get("rec"):
            rets = [n for n in walk(fn["b"]) if n["k"] == "return"]
            if len(rets) == 1:
                e = strip(rets[0].get("e"))
                if e is not None and e["k"] == "ref" and e.get("dk") == "glob":
                    res = ("addr", ("var", e["d"]))
                elif e is not None and e["k"] == "call" and (e.get("opcall") in ("*",)):
                    res = ("sym", "singleton:" + fn["n"])
                elif e is not None and e["k"] == "un" and e.get("op") == "*" and \
                        base((strip(e["e"]) or {}).get("n") or "").split("::")[-1] == "get" and \
                        fn.get("b") and static_owner(strip(e["e"])):
                    res = ("sym", "singleton:" + fn["n"])
        self._single[u] = res
        return res

    def call(self, eng, st, call):
        n = base(call.name)
        if n == "__errno_location":
            return [("ret", st, ERRNO_PTR)]
        h = self.handlers.get(n)
        if h is None and "::" in n:
            h = self.handlers.get("*::" + n.split("::")[-1])
        if h is not None:
            r = h(self, eng, st, call)
            if r is not None:
                return r
        if call.fn is not None and not call.args and call.obj is None:
            s = self.singleton(eng, call.fn)
            if s is not None:
                return [("ret", st, s)]
        return None

    # ---- convenience
    def fail(self, eng, st, rule, msg, line=None, key=None, node=None):
        fn = eng.stack[0]["n"] if eng.stack else "?"
        cur = eng.stack[-1] if eng.stack else None
        line = line or (node or {}).get("l") or (cur or {}).get("l", 0)
        self.rep.violation(eng.curfile(), line, fn if cur is None else cur["n"], rule, msg, key, st.trace())


def setfail(eng, st):
    """errno becomes unknown after a failing call."""
    st.env.pop(ERRNO, None)
    v = ("sym", "errno")
    eng.killsym(st, v)
    st.env[ERRNO] = v
    eng.logmod(ERRNO)
    return st


def two_way(eng, st, call, ts_ok, ts_fail, okval=None):
    """A system call that either succeeds or returns -1."""
    a, b = st.copy(), st.copy()
    if okval is None:
        okval = eng.fresh(a, base(call.name), call.line)
        a.facts[("<", okval, C0)] = False
    a.ts = ts_ok
    b.ts = ts_fail
    setfail(eng, b)
    b.note(eng.curfile(), call.line, "%s fails" % call.name)
    return [("ret", a, okval), ("ret", b, ("c", -1))]


def run_root(prog, rule, name_or_fn, st=None, this=None, args=None, rep=None):
    fn = name_or_fn if isinstance(name_or_fn, dict) else prog.fn(name_or_fn)
    eng = Engine(prog, rule)
    outs = eng.run(fn, st, this, args)
    if rep is not None:
        rep.stats(eng)
    return eng, outs, fn


def field_of(loc):
    return loc[2] if loc[0] == "fld" else None


def mem_rec(node):
    """Record and field written by an assignment-like node, or (None, None)."""
    if node is None:
        return None, None
    l = None
    if node["k"] == "bin":
        l = node["a"]
    elif node["k"] == "un":
        l = node["e"]
    l = strip(l)
    while l is not None and l["k"] == "idx":
        l = strip(l["e"])
    if l is not None and l["k"] == "mem":
        return l.get("rec"), l["n"]
    return None, None


def callers(prog):
    """usr -> set of usrs that call it (lambdas count as their encloser too)."""
    if hasattr(prog, "_callers"):
        return prog._callers
    res = {}
    for u, f in prog.functions.items():
        for n in walk(f.get("b") or {}):
            if n["k"] in ("call", "ctor", "ref", "lambda") and n.get("fn"):
                t = prog.resolve(n["fn"], f["unit"])
                if t:
                    res.setdefault(t["u"], set()).add(u)
        for i in f.get("inits") or []:
            for n in walk(i["e"] or {}):
                if n["k"] in ("call", "ctor", "lambda") and n.get("fn"):
                    t = prog.resolve(n["fn"], f["unit"])
                    if t:
                        res.setdefault(t["u"], set()).add(u)
    prog._callers = res
    return res


def call_sites(prog, names):
    """(function, node) for every call whose resolved callee has that name."""
    for u, f in prog.functions.items():
        roots = [f.get("b") or {}] + [i["e"] for i in f.get("inits") or [] if i.get("e")]
        for r in roots:
            for n in walk(r):
                if n["k"] in ("call", "ctor") and base(n.get("n")) in names:
                    yield f, n


def libfuxedo(prog):
    """The library's translation units (everything but the programs)."""
    import os
    import re
    from .facts import REPO
    am = open(os.path.join(REPO, "Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^src_libfuxedo_la_SOURCES\s*=\s*(.*)$", am, re.M)
    if not m:
        raise AnalysisBroken("libfuxedo sources not found in Makefile.am")
    return set(m.group(1).split())


def dtor_of(prog, ty, unit=None):
    if not ty or ty.get("k") != "rec":
        return []
    r = prog.records.get(ty.get("r")) or {}
    out = []
    if r.get("dtor"):
        out.append(r["dtor"])
    if r.get("mine") and not r.get("trivdtor"):
        for f in r.get("fields", []):
            out += dtor_of(prog, f["t"])
        for b in r.get("bases", []):
            out += dtor_of(prog, b)
    return out


def callgraph(prog):
    """usr -> set of callee usrs (lambdas, references taken and destructors included)."""
    if hasattr(prog, "_cg"):
        return prog._cg
    cg = {}
    for u, f in prog.functions.items():
        s = cg.setdefault(u, set())
        roots = [f.get("b") or {}] + [i["e"] for i in f.get("inits") or [] if i.get("e")]
        for r in roots:
            for n in walk(r):
                if n.get("fn"):
                    t = prog.resolve(n["fn"], f["unit"])
                    if t:
                        s.add(t["u"])
                if n.get("k") == "decl":
                    for v in n["v"]:
                        for d in dtor_of(prog, v["t"]):
                            t = prog.resolve(d, f["unit"])
                            if t:
                                s.add(t["u"])
                elif n.get("k") in ("mat", "bind", "delete"):
                    for d in dtor_of(prog, n.get("t")) + ([n["dtor"]] if n.get("dtor") else []):
                        t = prog.resolve(d, f["unit"])
                        if t:
                            s.add(t["u"])
    prog._cg = cg
    return cg


def direct_names(prog):
    """usr -> set of names called directly."""
    if hasattr(prog, "_dn"):
        return prog._dn
    dn = {}
    for u, f in prog.functions.items():
        s = dn.setdefault(u, set())
        roots = [f.get("b") or {}] + [i["e"] for i in f.get("inits") or [] if i.get("e")]
        for r in roots:
            for n in walk(r):
                if n.get("k") in ("call", "ctor") and n.get("n"):
                    s.add(base(n["n"]))
    prog._dn = dn
    return dn


def postorder(cg, nodes):
    """Callees before callers (cycles are cut at the function met first)."""
    keep, seen, out = set(nodes), set(), []
    for r in nodes:
        if r in seen:
            continue
        seen.add(r)
        stack = [(r, iter(sorted(cg.get(r, ()))))]
        while stack:
            u, it = stack[-1]
            for v in it:
                if v in keep and v not in seen:
                    seen.add(v)
                    stack.append((v, iter(sorted(cg.get(v, ())))))
                    break
            else:
                out.append(u)
                stack.pop()
    return out


def reaching(prog, seeds, stop=lambda u: False):
    """All functions from which a function of seeds is reachable (not through stop)."""
    cg = callgraph(prog)
    rev = {}
    for u, vs in cg.items():
        for v in vs:
            rev.setdefault(v, set()).add(u)
    res = {u for u in seeds if not stop(u)}
    work = list(res)
    while work:
        u = work.pop()
        for v in rev.get(u, ()):
            if v not in res and not stop(v):
                res.add(v)
                work.append(v)
    return res


def entries(prog):
    """Functions callable from outside: C API, mains, virtual members and free
    functions nobody calls (a member function nobody calls is dead code)."""
    cg = callgraph(prog)
    called = set()
    for u, vs in cg.items():
        called |= {v for v in vs if v != u}
    return {u for u, f in prog.functions.items()
            if f.get("externc") or base(f["n"]) == "main" or
            (u not in called and (not f.get("rec") or f.get("virt") or f.get("lam") or isctor(f)))}


def isctor(f):
    """Constructor or destructor (they are also run from inside library templates)."""
    c = base(f["n"]).split("::")
    return len(c) > 1 and c[-1].lstrip("~") == c[-2]


class LockRule(FuxRule):
    """Tracks semaphores and mutexes held on a path.

    ts is a dict-like tuple; subclasses keep theirs in ts[1]:
    ts = (frozenset((key, count)), extra)
    """
    limit = 12
    reach = frozenset()
    mutex_throw = False

    def __init__(self, rep, reach):
        super().__init__(rep)
        self.reach = reach

    def opaque(self, fn):
        return not (fn["u"] in self.reach or fn.get("lam"))

    def may_throw(self, call):
        if call.fn is not None and not call.fn.get("nothrow") and call.fn["u"] not in self.reach and \
                call.fn["u"] in can_throw(self.eng_prog):
            return "std::exception"
        return None

    def call(self, eng, st, call):
        self.eng_prog = eng.prog
        if call.fn is not None and getattr(self, "final", False) and call.fn["u"] not in self.reach:
            h = [k for k, v in st.ts[0] if v > 0]
            if h:
                self.res.calls.setdefault((self.rootu, call.fn["u"]), (h, st.copy(), call.line))
        return super().call(eng, st, call)

    @staticmethod
    def held(st):
        return dict(st.ts[0])

    def sethold(self, st, d):
        st.ts = (frozenset((k, v) for k, v in d.items() if v), st.ts[1])

    def acquire(self, eng, st, key, line):
        d = self.held(st)
        self.res.acquired.setdefault(self.rootu, set()).add(key)
        if d.get(key, 0) >= 1:
            self.on_double(eng, st, key, line)
        d[key] = d.get(key, 0) + 1
        self.sethold(st, d)

    def release(self, eng, st, key, line):
        d = self.held(st)
        d[key] = d.get(key, 0) - 1
        self.sethold(st, d)

    def on_double(self, eng, st, key, line):
        pass

    def sem_event(self, eng, st, call, op, flg):
        pass

    def semop(self, eng, st, call):
        sid, p = call.args[0], call.args[1]
        if "semget" in show(sid):
            return None          # initialisation of a fresh semaphore
        b = deref(p)
        op = eng.lookup(st, ("fld", b, "sem_op"))
        flg = eng.lookup(st, ("fld", b, "sem_flg"))
        num = eng.lookup(st, ("fld", b, "sem_num"))
        if not isc(op):
            raise Parametric("semop() with an unknown operation at %s:%d" % (call.file, call.line))
        key = ("sem", lockname(eng, sid), show(num))
        self.sem_event(eng, st, call, op, flg)
        a, b2 = st.copy(), st.copy()
        if op[1] < 0:
            self.acquire(eng, a, key, call.line)
            setfail(eng, b2)
            return [("ret", a, C0), ("ret", b2, ("c", -1))]
        self.release(eng, a, key, call.line)
        return [("ret", a, C0)]

    def mlock(self, eng, st, call):
        if call.obj is None:
            return None
        self.acquire(eng, st, ("mutex", lockname(eng, call.obj)), call.line)
        return [("ret", st, C0)]

    def munlock(self, eng, st, call):
        if call.obj is None:
            return None
        self.release(eng, st, ("mutex", lockname(eng, call.obj)), call.line)
        return [("ret", st, C0)]

    def guard_ctor(self, eng, st, call):
        if not call.args or call.obj is None:
            return None
        m = call.args[0]
        key = ("mutex", lockname(eng, deref(m)))
        if len(call.args) > 1:
            return None
        self.acquire(eng, st, key, call.line)
        st.env[("fld", call.obj, "$guard")] = ("s", repr(key))
        self.gkeys = getattr(self, "gkeys", {})
        self.gkeys[repr(key)] = key
        return [("ret", st, C0)]

    def dtor(self, eng, st, ty, loc, line):
        if ty["s"].startswith(("std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<")):
            g = st.env.get(("fld", loc, "$guard"))
            if g is not None:
                self.release(eng, st, self.gkeys[g[1]], line)
                del st.env[("fld", loc, "$guard")]

    handlers = {"semop": semop, "std::mutex::lock": mlock, "std::mutex::unlock": munlock,
                "std::recursive_mutex::lock": None,
                "std::lock_guard::lock_guard": guard_ctor, "std::unique_lock::unique_lock": guard_ctor,
                "std::scoped_lock::scoped_lock": guard_ctor,
                "std::shared_lock::shared_lock": guard_ctor}
    handlers = {k: v for k, v in handlers.items() if v}

    SEEDS = {"semop", "std::mutex::lock", "std::mutex::unlock", "std::lock_guard::lock_guard",
             "std::unique_lock::unique_lock", "std::scoped_lock::scoped_lock", "std::shared_lock::shared_lock"}


def lockname(eng, t):
    """A name for a lock that survives re-loading it: its field or variable."""
    if t[0] == "ld":
        return lockname(eng, t[1])
    if t[0] == "fld":
        return "%s::%s" % (eng.locrec.get(t, "?"), t[2])
    if t[0] == "addr":
        return lockname(eng, t[1])
    if t[0] == "deref":
        return lockname(eng, t[1])
    return show(t)





LOCK0 = (frozenset(), None)


def can_throw(prog):
    """Functions from which a throw expression is reachable."""
    if not hasattr(prog, "_ct"):
        seeds = {u for u, f in prog.functions.items()
                 if any(n["k"] == "throw" for n in walk(f.get("b") or {}))}
        prog._ct = reaching(prog, seeds)
    return prog._ct


class Parametric(AnalysisBroken):
    """The function's lock effect depends on its arguments: decide it at its callers."""


class LockResult:
    def __init__(self):
        self.acquired = {}      # usr -> keys it takes itself
        self.calls = {}         # (usr, callee) -> (held keys, state, line)
        self.unbalanced = set()
        self.runs = 0


def lock_effects(prog, cls=None):
    """The functions that perform lock operations themselves or call one that
    leaves a lock changed, and among them those that leave a lock changed."""
    if hasattr(prog, "_lockfx"):
        return prog._lockfx
    cls = LockRule
    dn = direct_names(prog)
    cg = callgraph(prog)
    rev = {}
    for u, vs in cg.items():
        for v in vs:
            rev.setdefault(v, set()).add(u)
    seeds = {u for u, s in dn.items() if s & LockRule.SEEDS}
    res = LockResult()
    res.seeds, res.done = seeds, None
    U = res.unbalanced
    ent = entries(prog)
    need = set(seeds)
    done = set()
    order = postorder(cg, sorted(reaching(prog, seeds)))
    for u in order:
        # callees come first, so the functions that must be inlined are known
        if u not in need:
            continue
        fn = prog.functions[u]
        if not fn.get("b") and not fn.get("inits"):
            continue
        rule = cls(None, U)
        rule.res, rule.rootu = res, u
        try:
            eng, outs, fn = run_root(prog, rule, fn, State(ts=LOCK0), rep=None)
        except Parametric:
            if u in ent:
                raise
            U.add(u)
            need |= rev.get(u, set())
            continue
        deltas, thr = {}, {}
        for out in outs:
            (deltas if out[0] == "ret" else thr).setdefault(out[1].ts[0], out[1])
        done.add(u)
        cond = len(deltas) > 1 and u not in ent and u in rev and \
            sum(1 for n in walk(fn.get("b") or {}) if n["k"] in ("expr", "if", "return", "decl")) <= 6
        if cond or len(deltas) == 1 and next(iter(deltas)):
            U.add(u)
            need |= rev.get(u, set())
    res.done = done
    prog._lockfx = res
    return res


def lock_analysis(prog, rep, cls, **kw):
    """Run cls over every function that performs lock operations, inlining the
    functions that leave a lock changed."""
    fx = lock_effects(prog)
    res = LockResult()
    U = res.unbalanced = fx.unbalanced
    ent = entries(prog)
    done = fx.done
    # final verdicts with the final set of inlined functions
    for u in sorted(done):
        fn = prog.functions[u]
        rule = cls(rep, U, **kw)
        rule.res, rule.rootu, rule.final = res, u, True
        eng, outs, fn = run_root(prog, rule, fn, State(ts=LOCK0), rep=rep)
        res.runs += 1
        rets, deltas = {}, set()
        for out in outs:
            s = out[1]
            d = s.ts[0]
            rep.count("exits")
            if out[0] == "ret":
                rets.setdefault(d, s)
            elif d:
                lock_bad(rep, fn, s, d, "by an exception")
        for s, call in eng.noret:
            if call is not None and base(call.name) in ("longjmp", "siglongjmp", "_longjmp") and s.ts[0]:
                lock_bad(rep, fn, s, s.ts[0], "by longjmp()")
        if len(rets) > 1 and u not in U:
            for d, s in rets.items():
                if d:
                    lock_bad(rep, fn, s, d, "by a return (other returns differ)")
        elif len(rets) == 1:
            d, s = next(iter(rets.items()))
            if d and u in ent:
                lock_bad(rep, fn, s, d, "by return")
        rep.instance("lock-balance", fn["n"])
    return res


def lock_bad(rep, fn, s, d, how):
    for k, v in d:
        rep.violation(fn["file"], fn["l"], fn["n"], "lock-balance",
                      "leaves %s with the %s lock %s" % (how, k[1], "held" if v > 0 else "released without being held"),
                      key="lock-balance|%s|%s|%s" % (fn["n"], k[1], "held" if v > 0 else "unheld"), trace=s.trace())
