"""Buffers handed over to a service call are freed exactly once; moves and frees reach the owner."""
from sa.lib import *
from sa.engine import mk_op
from rules.p08_replies import analyse, origin

EXPLAIN = ("Ownership typestate of the buffer a service returns or forwards: on every path that leaves the service "
           "(each copy, send and lookup forked into success and exception) it was freed exactly once unless it is the "
           "buffer the service was given, which is kept, and it is not used after that. In the allocation functions: "
           "free releases the block once, after its type's clean-up and clearing the owner's pointer; realloc hands "
           "back the moved block, tells its type and its owner, and touches the old one no more; allocation failures "
           "are noticed before the block is used.")

ALLOC = {"malloc": 0, "realloc": 0, "calloc": 0}


class Mem(FuxRule):
    """ts = (freed blocks, finit called on, stored owners, block from malloc/realloc or None, reinit on)"""
    limit = 200

    def opaque(self, fn):
        n = base(fn["n"]).split("::")[-1]
        return n in ("typeptr", "set_tperrno", "reset_tperrno", "bufsize")

    def may_throw(self, call):
        return None

    def bad(self, eng, st, rule, msg, line=None):
        self.fail(eng, st, rule, msg, line)

    def call(self, eng, st, call):
        n = base(call.name)
        a = call.args
        freed, fin, own, blk, rein = st.ts
        if n in ("free", "std::free"):
            self.rep.instance("free", "%s:%d" % (eng.curfile(), call.line))
            if a[0] in freed:
                self.bad(eng, st, "freed-twice", "a block is freed twice", call.line)
            st.ts = (freed | {a[0]}, fin, own, blk, rein)
            return [("ret", st, C0)]
        if n in ("realloc", "std::realloc"):
            self.rep.instance("realloc", "%s:%d" % (eng.curfile(), call.line))
            v = eng.fresh(st, "realloc", call.line)
            ok = st.copy()
            ok.ts = (freed | {a[0]}, fin, own, v, rein)
            ok.facts[mk_eq(v, C0)] = False
            no = st.copy()
            no.ts = (freed, fin, own, C0, rein)
            no.note(eng.curfile(), call.line, "realloc fails")
            return [("ret", ok, v), ("ret", no, C0)]
        if n in ("malloc", "std::malloc", "calloc"):
            self.rep.instance("malloc", "%s:%d" % (eng.curfile(), call.line))
            v = eng.fresh(st, "malloc", call.line)
            ok = st.copy()
            ok.ts = (freed, fin, own, v, rein)
            ok.facts[mk_eq(v, C0)] = False
            no = st.copy()
            no.ts = (freed, fin, own, C0, rein)
            no.note(eng.curfile(), call.line, "malloc fails")
            return [("ret", ok, v), ("ret", no, C0)]
        if call.name == "<indirect>":
            f = self.slot(call)
            if f == "finit":
                self.rep.instance("finit", "%s:%d" % (eng.curfile(), call.line))
                if freed:
                    self.bad(eng, st, "use-after-free", "the clean-up of a type runs after the block was freed", call.line)
                st.ts = (freed, fin + 1, own, blk, rein)
                return [("ret", st, C0)]
            if f in ("init", "reinit"):
                self.rep.instance(f, "%s:%d" % (eng.curfile(), call.line))
                st.ts = (freed, fin, own, blk, rein | {(f, a[0])})
                return [("ret", st, C0)]
        return super().call(eng, st, call)

    def slot(self, call):
        v = call.obj
        return field_of(v[1]) if v and v[:1] == ("ld",) else None

    def load(self, eng, st, loc, node):
        self.touch(eng, st, loc, node)

    def store(self, eng, st, loc, val, node):
        if loc[0] == "var":
            return
        self.touch(eng, st, loc, node)
        if loc[0] == "deref":
            st.ts = st.ts[:2] + (st.ts[2] + ((loc[1], val),),) + st.ts[3:]

    def touch(self, eng, st, loc, node):
        line = (node or {}).get("l") or (eng.cur() or {}).get("l")
        r = loc
        while r[0] in ("fld", "idx"):
            r = r[1]
        if r[0] == "deref" and loc[0] != "deref":
            if r[1] in st.ts[0]:
                self.bad(eng, st, "use-after-free", "a block is used after it was freed or moved", line)
            if r[1] == C0:
                self.bad(eng, st, "allocation-unchecked", "a block is used although there was no memory for it", line)


def slotfact(eng, st, name):
    """Is the type's function `name` null on this path? None if nobody looked."""
    for f, v in st.facts.items():
        if f[0] == "==" and C0 in f[1:]:
            t = f[1] if f[2] == C0 else f[2]
            if t[:1] == ("ld",) and field_of(t[1]) == name:
                return v
    return None


def ownerloads(st):
    """loads of the field `owner` on the path"""
    r = set()
    for f in st.facts:
        for t in subterms(f):
            if t[:1] == ("ld",) and len(t) > 1 and isinstance(t[1], tuple) and field_of(t[1]) == "owner":
                r.add(t)
    return r


def owned(eng, st, ptr, val):
    """The owner's pointer follows the block (or there is no owner, or it points elsewhere)."""
    for o in ownerloads(st):
        if eng.decide(st, mk_eq(o, C0)) is True:
            return True
        for l, v in st.ts[2]:
            if l == o and v == val:
                return True
        for f, v in st.facts.items():
            if f[0] == "==" and not v:
                for x, y in (f[1:3], f[2:0:-1]):
                    if y == ptr and x[:1] == ("ld",) and x[1][0] == "deref" and x[1][1] == o:
                        return True
    return False


def memory(prog, rep):
    def fn(name):
        f = [g for g in prog.functions.values() if base(g["n"]) == name and g.get("b")]
        if len(f) != 1:
            raise AnalysisBroken("no function " + name)
        return f[0]
    st0 = lambda: State(ts=(frozenset(), 0, (), None, frozenset()))
    f = fn("fux::mem::tpfree")
    rule = Mem(rep)
    eng, outs, _ = run_root(prog, rule, f, st0(), rep=rep)
    ptr = ("sym", "p:" + f["p"][0]["n"])
    blocks = 0

    def bad(r, msg, st):
        rep.violation(f["file"], f["l"], f["n"], r, msg, trace=st.trace())
    for o in outs:
        st = o[1]
        freed, fin, own, blk, rein = st.ts
        if o[0] != "ret":
            continue
        if not freed:
            null = eng.decide(st, mk_eq(ptr, C0)) is True
            unknown = any("typeptr" in str(k) and v and C0 in k[1:] for k, v in st.facts.items() if k[0] == "==")
            if not null and not unknown:
                bad("not-freed", "a buffer is not freed", st)
            continue
        blocks += 1
        n = slotfact(eng, st, "finit")
        if n is not True and not fin:
            bad("no-clean-up", "a buffer is freed without the clean-up of its type", st)
        if not owned(eng, st, ptr, C0):
            bad("owner", "a buffer is freed while its owner still points to it", st)
    if not blocks:
        raise AnalysisBroken("tpfree() frees nothing")

    f = fn("fux::mem::tprealloc")
    rule = Mem(rep)
    eng, outs, _ = run_root(prog, rule, f, st0(), rep=rep)
    ptr = ("sym", "p:" + f["p"][0]["n"])
    moved = 0
    for o in outs:
        st = o[1]
        freed, fin, own, blk, rein = st.ts
        if o[0] != "ret":
            continue
        v = o[2]
        if blk is None or blk == C0:
            if eng.decide(st, mk_eq(v, C0)) is not True:
                bad("realloc-result", "a buffer that was not made larger is handed back as if it was", st)
            continue
        moved += 1
        if root0(v) != blk:
            bad("realloc-result", "the moved buffer is not handed back", st)
        if slotfact(eng, st, "reinit") is not True and not any(k == "reinit" and root0(x) == blk for k, x in rein):
            bad("realloc-reinit", "the type of a buffer does not learn about its new size", st)
        if not owned(eng, st, ptr, v):
            bad("owner", "a buffer is moved while its owner still points to the old place", st)
    if not moved:
        raise AnalysisBroken("tprealloc() moves nothing")

    f = fn("fux::mem::tpalloc")
    rule = Mem(rep)
    eng, outs, _ = run_root(prog, rule, f, st0(), rep=rep)
    made = 0
    for o in outs:
        st = o[1]
        if o[0] != "ret":
            continue
        blk = st.ts[3]
        if blk is None or blk == C0:
            if eng.decide(st, mk_eq(o[2], C0)) is not True:
                bad("alloc-result", "a buffer is handed out that was not allocated", st)
            continue
        made += 1
        if root0(o[2]) != blk:
            bad("alloc-result", "the allocated buffer is not handed out", st)
        if slotfact(eng, st, "init") is not True and not any(k == "init" and root0(x) == blk for k, x in st.ts[4]):
            bad("alloc-init", "a buffer is handed out without being initialised for its type", st)
        for k, want in (("owner", C0),):
            vals = [v for l, v in st.env.items() if l[0] == "fld" and l[2] == k and root(l)[:1] == ("deref",)]
            if vals != [want]:
                bad("alloc-owner", "a new buffer has an undefined owner", st)
    if not made:
        raise AnalysisBroken("tpalloc() allocates nothing")


def root0(v):
    """The pointer a data address is derived from."""
    while True:
        if v[0] in ("addr",):
            l = v[1]
            while l[0] in ("fld", "idx"):
                l = l[1]
            if l[0] == "deref":
                v = l[1]
                continue
            return v
        if v[0] == "+" and len(v) > 1:
            p = [x for x in v[1:] if isinstance(x, tuple) and not isc(x)]
            if len(p) == 1:
                v = p[0]
                continue
        return v


def check(prog, rep):
    data, nul = ("sym", "p:data"), C0
    for name, f, eng, st, rule in analyse(prog, rep, ("used-after-free", "freed-twice")):
        freed = st.ts[3]
        if eng.decide(st, mk_eq(data, C0)) is True:
            continue
        mine = [x for k in st.facts for x in subterms(k) if x[:1] == ("ld",) and len(x) > 1 and
                isinstance(x[1], tuple) and field_of(x[1]) == "atmibuf"]
        same = [eng.decide(st, mk_eq(data, m)) for m in mine]
        if True in same:
            if data in freed:
                rep.violation(f["file"], f["l"], f["n"], "own-buffer-freed", "the buffer a service was given is freed "
                              "although it is used for the next request", trace=st.trace())
            continue
        if data in freed:
            if False not in same:
                rep.violation(f["file"], f["l"], f["n"], "own-buffer-freed", "data is freed without looking whether it "
                              "is the buffer the service was given", trace=st.trace())
            continue
        if any(t in ("set_data", "tx_end") for t in st.ts[1]):
            continue        # the buffer itself is broken / the transaction manager failed
        rep.violation(f["file"], f["l"], f["n"], "leak", "the data of a service that ended is neither freed nor its own "
                      "buffer", trace=st.trace())
    memory(prog, rep)
    owners(prog, rep)
    for k, n in (("ending", 2), ("free", 2), ("realloc", 1), ("malloc", 1), ("finit", 1), ("reinit", 1)):
        rep.need(k, n)


# ------------------------------------------------------------ buffers given to services
class Given(FuxRule):
    """ts = fields that hold a new buffer whose owner is not recorded: (location, buffer)"""
    limit = 200

    def __init__(self, rep, fields, relevant):
        super().__init__(rep)
        self.fields, self.relevant = fields, relevant

    def opaque(self, fn):
        return fn["u"] not in self.relevant and not fn.get("lam") or base(fn["n"]) in ("tpalloc", "fux::mem::tpalloc") or super().opaque(fn)

    def may_throw(self, call):
        return None

    def call(self, eng, st, call):
        n = base(call.name)
        if n in ("tpalloc", "fux::mem::tpalloc"):
            v = eng.fresh(st, "tpalloc", call.line)
            return [("ret", st, v)]
        if n == "fux::mem::setowner" and len(call.args) == 2:
            self.rep.instance("owner", "%s:%s" % (eng.curfile(), call.line))
            st.ts = tuple(x for x in st.ts if not (x[1] == call.args[0] and addr(x[0]) == call.args[1]))
            return [("ret", st, C0)]
        return super().call(eng, st, call)

    def store(self, eng, st, loc, val, node):
        if loc[0] != "fld" or loc[2] not in self.fields:
            return
        st.ts = tuple(x for x in st.ts if x[0] != loc)
        if val[0] == "sym" and val[1].startswith("tpalloc"):
            st.ts = st.ts + ((loc, val),)


def owners(prog, rep):
    fields, allocs = set(), set()
    for u, f in prog.functions.items():
        for n in walk(f.get("b") or {}):
            if n["k"] == "asg" or n["k"] == "bin" and n.get("op") == "=":
                l, r = strip(n.get("a")), strip(n.get("b"))
                if l is not None and r is not None and l.get("k") == "mem" and l.get("n") == "data" and "tpsvcinfo" in \
                        str((strip(l.get("e")) or {}).get("t")).lower() + str(l.get("rec")).lower() and r.get("k") == "mem":
                    fields.add(r["n"])
            if n["k"] == "call" and base(n.get("n") or "") in ("tpalloc", "fux::mem::tpalloc"):
                allocs.add(u)
    if not fields:
        raise AnalysisBroken("no buffer is given to services")
    rel = reaching(prog, allocs | {u for u, f in prog.functions.items() if base(f["n"]) == "fux::mem::setowner"})
    for u in sorted(reaching(prog, allocs)):
        f = prog.functions[u]
        if f.get("lam") or not f.get("b") or isctor(f) or not any(
                (n["k"] == "asg" or n["k"] == "bin" and n.get("op") == "=") and (strip(n.get("a")) or {}).get("k") == "mem"
                and strip(n["a"])["n"] in fields for n in walk(f["b"])):
            continue
        rule = Given(rep, fields, rel)
        eng, outs, fn = run_root(prog, rule, f, State(ts=()), rep=rep)
        for o in outs:
            if o[0] == "ret" and o[1].ts:
                rep.violation(f["file"], f["l"], f["n"], "owner-unknown", "the buffer a service is given is not known to belong to "
                              "where it is kept, a service that enlarges it leaves the old one there", trace=o[1].trace())
    rep.need("owner", 1)
