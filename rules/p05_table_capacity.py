"""Table entries are created only below the capacity; a full table is an error."""
from sa.lib import *

EXPLAIN = ("Interval analysis of the index of every entry of the shared tables: where a function makes a table one "
           "entry longer, the old length must be proven below the capacity on that path, the step must be one, and no "
           "exceptional exit may follow the step in that function; every array access inside the checked accessors, "
           "every direct entry access and every access to a transaction's group flags must be proven in bounds by a "
           "comparison with the capacity (or, for loops over live entries, the length) on the path. Accessors are "
           "inlined; other callees are summarised by what they may modify.")


def header(rec):
    return bool(rec) and (rec.startswith("mibarr<") or rec == "transaction_table")


class R(FuxRule):
    limit = 200

    def __init__(self, rep):
        super().__init__(rep)
        self.len_ok = {}

    def opaque(self, fn):
        r = fn.get("rec") or ""
        if r.startswith("mibarrptr<") or r == "transaction_table":
            return False
        if r == "mib" and base((fn["rt"] or {}).get("s") or "").startswith(("mibarrptr", "transaction_table")):
            return False
        if fn.get("lam"):
            return False
        if base(fn["n"]) == "mib::operator->":
            return False
        return True

    def store(self, eng, st, loc, val, node):
        rec, f = eng.locrec.get(loc), field_of(loc)
        if not header(rec) or f != "len" or root(loc)[0] == "var" and "@" in str(root(loc)[1]):
            return
        line = (node or {}).get("l") or (eng.cur() or {}).get("l")
        if val == C0:
            return
        old = eng.lookup(st, loc)
        size = eng.lookup(st, ("fld", loc[1], "size"))
        self.rep.instance("length-step", "%s:%s" % (eng.curfile(), line))
        if val != mk_add(old, C1):
            if not (eng.decide(st, mk_lt(size, val)) is False or
                    isc(mk_sub(val, old)) and mk_sub(val, old)[1] < 0):
                self.fail(eng, st, "length-step", "the table length changes by something other than one entry", line)
        elif eng.decide(st, mk_lt(old, size)) is not True:
            self.fail(eng, st, "capacity", "the table grows without proof that its length is below its capacity", line)

    def index(self, eng, st, e, b, i):
        line = e.get("l") or eng.cur()["l"]
        x = strip(e["e"])
        cur = eng.cur()
        if x is not None and x["k"] == "mem" and x.get("rec") == "transaction" and x["n"] == "groups":
            t = {x for k in st.facts for x in subterms(k) if x[:1] == ("ld",) and field_of(x[1]) == "max_groups"}
            self.rep.instance("group-index", "%s:%s" % (eng.curfile(), line))
            for m in t:
                if eng.decide(st, mk_lt(i, m)) is True:
                    return
            self.fail(eng, st, "group-bounds", "a group flag is accessed without comparing the group with the "
                      "number of groups", line)

    def arith(self, eng, st, e, a, b):
        x = entry_mul(e)
        if x is None:
            return
        i, sz = (a, b) if x == "a" else (b, a)
        line = e.get("l") or eng.cur()["l"]
        self.rep.instance("element-access", "%s:%d" % (eng.curfile(), line))
        if sz[:1] == ("ld",):
            for bound in ("size", "len"):
                if eng.decide(st, mk_lt(i, eng.lookup(st, ("fld", sz[1][1], bound)))) is True:
                    return
        self.fail(eng, st, "element-bounds", "the address of a table entry is computed without proof that the index "
                  "is below the capacity or the length", line)

    def call(self, eng, st, call):
        n = base(call.name)
        if n in ("mibarrptr::operator[]",) and call.args:
            self.element(eng, st, call)
        return super().call(eng, st, call)

    def element(self, eng, st, call):
        i = call.args[0]
        hdr = self.hdr(eng, st, call.obj)
        self.rep.instance("element-access", "%s:%d" % (eng.curfile(), call.line))
        if hdr is None:
            self.fail(eng, st, "element-bounds", "cannot tell which table is indexed", call.line)
            return
        for bound in ("size", "len"):
            if eng.decide(st, mk_lt(i, eng.lookup(st, ("fld", hdr, bound)))) is True:
                return
        # a loop running down from the length
        self.pending.append((eng, st.copy(), call, eng.cur()))

    def hdr(self, eng, st, obj):
        if obj is None:
            return None
        if obj[0] == "addr":
            obj = obj[1]
        elif obj[0] == "recv":
            obj = obj[1]
        p = eng.lookup(st, ("fld", obj, "p_"))
        return deref(p)


def entry_mul(e):
    """For index * entry size: the operand (a or b) that is the index."""
    if e["k"] != "bin" or e["op"] != "*":
        return None
    for k, o in (("a", "b"), ("b", "a")):
        m, i = strip(e[k]), strip(e[o])
        if m is not None and m["k"] == "mem" and header(m.get("rec")) and m["n"] == "entry_size" and i["k"] != "mem":
            return o
    return None


def downward(fn, node):
    """The index is a local that starts at length - 1 and is only decremented."""
    a = strip((node.get("args") or [None])[0])
    if a is None or a["k"] != "ref" or not a.get("d"):
        return False
    d, ok = a["d"], False
    for n in walk(fn.get("b") or {}):
        if n["k"] == "decl":
            for v in n["v"]:
                if v.get("d") == d:
                    i = strip(v.get("init"))
                    if i is None or i["k"] != "bin" or i["op"] != "-":
                        return False
                    l = strip(i["a"])
                    ok = l is not None and (l["k"] == "mem" and l["n"] in ("len", "size") or
                                            l["k"] == "call" and base(l.get("n")).split("::")[-1] in ("length", "size"))
        if n["k"] == "un" and n["op"] == "++" and (strip(n["e"]) or {}).get("d") == d:
            return False
        if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "<=", ">=", "!=") and \
                (strip(n["a"]) or {}).get("d") == d:
            return False
    return ok


def check(prog, rep):
    roots, acc = [], []
    for u, f in sorted(prog.functions.items()):
        if not f.get("b"):
            continue
        hit = False
        for n in walk(f["b"]):
            if n["k"] in ("bin", "un"):
                rec, fld = mem_rec(n)
                if header(rec) and fld == "len" and (n["k"] == "un" or n["op"].endswith("=") and n["op"] != "=="):
                    hit = True
            elif n["k"] == "call" and base(n.get("n")) == "mibarrptr::operator[]":
                hit = True
            if entry_mul(n):
                hit = True
            if n["k"] == "idx":
                x = strip(n["e"])
                if x is not None and x["k"] == "mem" and x.get("rec") == "transaction" and x["n"] == "groups":
                    hit = True
        if hit:
            roots.append(f)
    for f in roots:
        rule = R(rep)
        rule.prog = prog
        rule.pending = []
        eng, outs, fn = run_root(prog, rule, f, rep=rep)
        for e2, st, call, cur in rule.pending:
            if not downward(cur, call.node):
                e2.stack.append(cur)
                rule.fail(e2, st, "element-bounds", "a table entry is accessed without proof that the index is below "
                          "the capacity or the length", call.line)
                e2.stack.pop()
        for o in outs:
            rep.count("exits")
        rep.instance("function", f["n"])
    rep.need("length-step", 6)
    rep.need("element-access", 2)
