"""Kinds of numbers: a flow-insensitive, context-sensitive unification of everything values flow between.

Every variable, parameter, result, field and element that holds a number is a node; assignments, comparisons,
arguments and results make two nodes one.  Functions are generic: what is not tied to a field, a global or a kind is
made anew for every call.  A node is given a kind by its declared type name, by the table it is a position in, or by
the library function that makes or takes it; two kinds meeting is an error.
"""
from .facts import AnalysisBroken, walk
from .lib import base, strip

CARRIERS = ("std::vector<", "std::set<", "std::list<", "std::deque<", "std::array<", "std::optional<", "std::atomic<",
            "std::initializer_list<", "std::multiset<", "std::unordered_set<", "std::allocator<")
MAPS = ("std::map<", "std::unordered_map<", "std::multimap<")
ITERS = ("__gnu_cxx::__normal_iterator<", "std::_Rb_tree_const_iterator<", "std::_List_iterator<",
         "std::_Deque_iterator<", "std::reverse_iterator<", "std::insert_iterator<", "std::back_insert_iterator<")
PASS = {"std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::abs", "std::exchange",
        "std::addressof", "std::launder"}
INTO = {"push_back", "emplace_back", "push_front", "emplace_front", "push", "fill", "resize", "assign", "insert", "emplace",
        "count", "find", "erase", "contains", "value_or", "store", "exchange", "operator=", "reset"}
OUTOF = {"at", "operator[]", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "value", "load",
         "operator*", "operator++", "operator--", "operator+", "operator-", "top", "lower_bound", "upper_bound",
         "operator int", "get"}


def peel(t):
    while t and t.get("k") in ("ref", "rref", "ptr", "arr"):
        t = t.get("p")
    return t or {}


def holder(t):
    """Can a value of this type carry a number of some kind?"""
    p = peel(t)
    if p.get("k") == "int":
        return True
    s = (p.get("s") or "").replace("const ", "")
    return p.get("k") == "rec" and (s.startswith(CARRIERS + MAPS + ITERS))


class Units:
    def __init__(self, prog, seeds):
        self.prog, self.seeds = prog, seeds
        self.par, self.kind, self.glob, self.edges = {}, {}, {}, {}
        self.conflicts, self.n_nodes, self.n_edges, self.calls = [], 0, 0, 0
        self.given = {}
        self.where = ("?", 0, "?")
        self.mine = {n for n, r in prog.records.items() if r.get("mine")}
        self.tags = {}
        self.webs = {}
        self.memo = {}
        shared = {}
        for u, f in prog.functions.items():
            shared.setdefault((f["f"], f["l"]), set()).add(u)
        for us in shared.values():
            if len(us) > 1:
                for u in us:
                    self.tags[u] = u

    # ---- union find
    def new(self, key, kind=None, glob=False):
        if key not in self.par:
            self.par[key] = key
            self.kind[key] = kind
            self.glob[key] = glob or kind is not None
            if kind is not None:
                self.given[key] = kind
            self.n_nodes += 1
        elif kind is not None:
            r = self.root(key)
            if self.kind[r] is None:
                self.kind[r] = kind
                self.glob[r] = True
                self.given[key] = kind
        return key

    def root(self, n):
        while self.par[n] != n:
            self.par[n] = self.par[self.par[n]]
            n = self.par[n]
        return n

    def kindof(self, key):
        return self.kind[self.root(key)] if key in self.par else None

    def unify(self, a, b, line=None):
        if a is None or b is None or a == b:
            return
        self.n_edges += 1
        ra, rb = self.root(a), self.root(b)
        if ra == rb:
            return
        ka, kb = self.kind[ra], self.kind[rb]
        at = (self.where[0], line or self.where[1], self.where[2])
        if ka is not None and kb is not None and ka != kb:
            if not self.seeds.compatible(ka, kb):
                self.conflicts.append((at, a, b, ka, kb, self.chain(a), self.chain(b)))
            return
        self.edges.setdefault(a, []).append((b, at))
        self.edges.setdefault(b, []).append((a, at))
        self.par[ra] = rb
        self.kind[rb] = ka if kb is None else kb
        self.glob[rb] = self.glob[ra] or self.glob[rb]

    def chain(self, a):
        """Where a node has its kind from."""
        seen, todo = {a: None}, [a]
        while todo:
            n = todo.pop(0)
            if n in self.given:
                out = []
                while n is not None:
                    p = seen[n]
                    if p is None:
                        break
                    out.append(p[1])
                    n = p[0]
                return out
            for m, at in self.edges.get(n, ()):
                if m not in seen:
                    seen[m] = (n, at)
                    todo.append(m)
        return []

    # ---- nodes
    def local(self, d):
        return ("v", d, self.tag, self.webs[d]) if d in self.webs else ("v", d, self.tag)

    def counter(self, s):
        """The variable a for statement starts by giving it a constant, if it does."""
        i = s.get("init")
        if not isinstance(i, dict) or i.get("k") != "expr":
            return None
        e = strip(i["e"])
        if e is None or e["k"] != "bin" or e["op"] != "=" or not self.const(e["b"]) and not self.const(strip(e["b"])):
            return None
        a = strip(e["a"])
        return a["d"] if a["k"] == "ref" and a.get("dk") == "var" else None

    def field(self, rec, name):
        if rec not in self.mine:
            return None
        k = self.seeds.field(rec, name, self.prog)
        return self.new(("f", rec, name), k, glob=True)

    def slot(self, f, i):
        """Node of a parameter (or the result, i = None)."""
        if i is None:
            key = ("r", f["u"])
            return self.new(key, self.seeds.result(f))
        p = f["p"][i]
        tag = self.tags.get(f["u"], "")
        return self.new(("v", p["d"], tag), self.seeds.param(f, i))

    def var(self, v):
        if not holder(v.get("t")):
            return None
        return self.new(self.local(v["d"]), glob=bool(v.get("static")))

    # ---- expressions
    def val(self, e):
        """Node of an expression; everything inside it is looked at, once."""
        if not isinstance(e, dict):
            return None
        i = id(e)
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = None
        n = self.memo[i] = self.val_(e)
        return n

    def const(self, e):
        return isinstance(e, dict) and isinstance(e.get("cv"), int)

    def val_(self, e):
        k = e.get("k")
        if e.get("l"):
            self.where = (self.where[0], e["l"], self.where[2])
        if k == "call":
            return self.call(e)
        if k in ("ld", "ewc", "bind", "mat", "paren"):
            return self.val(e.get("e"))
        if k == "cast":
            n = self.val(e["e"])
            if e.get("ck") in ("IntegralToBoolean", "PointerToBoolean", "IntegralToPointer", "PointerToIntegral",
                               "ToVoid", "IntegralToFloating", "FloatingToIntegral"):
                return None
            return n if holder(e.get("t")) else None
        if k == "ref":
            if e.get("dk") in ("var", "parm", "glob"):
                if not holder(e.get("dt") or e.get("t")):
                    return None
                if e.get("dk") == "glob":
                    g = self.prog.globals.get(e["d"])
                    t = (g or {}).get("t") or e.get("dt") or {}
                    if t.get("c"):
                        return None         # a named constant is of no kind
                    return self.new(("g", e["d"]), self.seeds.typename((g or {}).get("td")), glob=True)
                key = self.local(e["d"])
                return self.new(key)
            return None
        if k == "mem":
            self.val(e.get("e"))
            if e.get("dk") == "field" and holder(e.get("t")):
                return self.field(e.get("rec"), e["n"])
            if e.get("dk") == "glob" and holder(e.get("t")):
                g = self.prog.globals.get(e["d"]) or {}
                if (g.get("t") or e.get("t") or {}).get("c"):
                    return None
                return self.new(("g", e["d"]), glob=True)
            return None
        if k == "idx":
            a = self.val(e["e"])
            i = self.val(e["i"])
            b = strip(e["e"])
            if b is not None and b["k"] == "mem" and b.get("dk") == "field" and b.get("rec") in self.mine:
                x = self.new(("i", b["rec"], b["n"]), self.seeds.index(b["rec"], b["n"]), glob=True)
                self.unify(x, i, e.get("l"))
            return a if holder(e.get("t")) else None
        if k == "un":
            n = self.val(e["e"])
            return n if e["op"] in ("*", "&", "++", "--", "+") else None
        if k == "bin":
            a, b = self.val(e["a"]), self.val(e["b"])
            op = e["op"]
            if op in ("=", "==", "!=", "<", ">", "<=", ">="):
                ta, tb = e["a"].get("t") or {}, e["b"].get("t") or {}
                self.unify(a, b, e.get("l"))
                return a if op == "=" and b is not None else None      # a = b = constant: of no kind
            if op == ",":
                return b
            if op in ("+", "-", "+=", "-="):
                if self.const(e["b"]):
                    return a
                if self.const(e["a"]) and op == "+":
                    return b
                ta = (e["a"].get("t") or {}).get("k")
                if ta in ("ptr", "arr"):
                    return a
                return a if op.endswith("=") else None
            if op in ("&&", "||"):
                return None
            return a if len(op) > 1 and op.endswith("=") else None
        if k in ("cond", "elvis"):
            self.val(e.get("c"))
            a, b = self.val(e["a"]), self.val(e["b"])
            if a is None or b is None:
                return a or b
            self.unify(a, b, e.get("l"))
            return a
        if k == "ilist":
            vs = [self.val(x) for x in e["a"]]
            if e.get("rec"):
                fs = (self.prog.records.get(e["rec"]) or {}).get("fields") or []
                if e["rec"] in self.mine and len(vs) <= len(fs):
                    for f, v in zip(fs, vs):
                        if v is not None and holder(f["t"]):
                            self.unify(self.field(e["rec"], f["n"]), v, e.get("l"))
                return None
            if holder(e.get("t")) and any(v is not None for v in vs):
                n = self.new(("e", id(e), self.tag))
                for v in vs:
                    self.unify(n, v, e.get("l"))
                return n
            return None
        if k == "stdil":
            return self.val(e["e"])
        if k == "ctor":
            vs = [self.val(x) for x in e.get("args") or ()]
            f = self.prog.resolve(e.get("fn"), self.unit) if e.get("fn") else None
            if f is not None and f.get("b") and f.get("p"):
                m = {}
                for j, v in enumerate(vs[:len(f["p"])]):
                    self.pass_(f, j, v, m, e.get("l"))
                return None
            if holder(e.get("t")) and vs:
                s = (peel(e.get("t")).get("s") or "")
                if e.get("cpmv") or not s.startswith(("std::vector<", "std::deque<", "std::list<")):
                    return vs[0]
                if len(vs) > 1 and peel((e["args"][0] or {}).get("t")).get("k") == "int":
                    return vs[1]            # n copies of a value
                if peel((e["args"][0] or {}).get("t")).get("k") == "int" and (e["args"][0].get("t") or {}).get("k") == "int":
                    return None             # a size
                return vs[0]
            return None
        # everything else: only what is inside
        for key, x in e.items():
            if key in ("t", "at", "rt", "ct", "dt", "pt", "caps"):
                continue
            self.inside(x)
        return None

    def inside(self, x):
        if isinstance(x, list):
            for y in x:
                self.inside(y)
        elif isinstance(x, dict) and "k" in x:
            if x["k"] in STMTS:
                self.stmt(x)
            else:
                self.val(x)

    def fresh(self, f, n, m):
        r = self.root(n)
        if self.glob[r] or self.kind[r] is not None or self.scc.get(f["u"]) == self.scc.get(self.fn["u"]):
            return n
        if r not in m:
            self.calls += 1
            m[r] = self.new(("c", self.calls))
        return m[r]

    def pass_(self, f, j, v, m, line):
        if not holder(f["p"][j]["t"]):
            return
        n = self.fresh(f, self.slot(f, j), m)
        self.unify(n, v, line)

    def call(self, e):
        n = base(e.get("n") or "")
        short = n.split("::")[-1]
        o = self.val(e.get("obj")) if e.get("obj") else None
        fe = self.val(e.get("fe")) if e.get("fe") else None
        args = e.get("args") or []
        vs = [self.val(a) for a in args]
        line = e.get("l")
        lib = self.seeds.library(n, e)
        if lib is not None:
            for j, kd in lib.items():
                if j is not None and j < len(vs):
                    if vs[j] is not None:
                        self.unify(vs[j], self.new(("k", kd), kd), line)
                        self.seeds.used(n, j)
            if None in lib:
                self.seeds.used(n, None)
                return self.new(("k", lib[None]), lib[None])
            if lib:
                return None
        x = self.seeds.method(n, short, e, self, o, vs)
        if x is not None:
            return x[0]
        f = self.prog.resolve(e.get("fn"), self.unit) if e.get("fn") else None
        if f is not None and f.get("b"):
            m = {}
            for j, v in enumerate(vs[:len(f["p"])]):
                self.pass_(f, j, v, m, line)
            return self.fresh(f, self.slot(f, None), m) if holder(f.get("rt")) else None
        if n in PASS:
            return vs[0] if vs else None
        if n == "std::swap" and len(vs) == 2:
            self.unify(vs[0], vs[1], line)
            return None
        if o is not None and e.get("obj"):
            s = (peel(e["obj"].get("t")).get("s") or "").replace("const ", "")
            m = s.startswith(MAPS)
            if not m and short in INTO:
                vals = [v for v, a in zip(vs, args) if v is not None and (holder(a.get("t")))]
                if short in ("resize", "assign", "insert") and len(vs) > 1:
                    vals = vals[-1:]
                elif short == "resize":
                    vals = []
                for v in vals:
                    self.unify(o, v, line)
            if short in OUTOF or e.get("opcall") in ("*", "->", "++", "--", "=", "+", "-") or not m and short in INTO:
                if m and short not in ("at", "operator[]"):
                    return None
                if e.get("opcall") == "=" and vs:
                    self.unify(o, vs[0], line)
                return o
            if e.get("opcall") == "[]":
                return o
        if e.get("opcall") in ("==", "!=") and len(vs) == 2:
            self.unify(vs[0], vs[1], line)
        return None

    # ---- statements
    def decl(self, v):
        n = self.var(v)
        i = self.val(v.get("init"))
        if n is not None and i is not None:
            self.unify(n, i, v.get("l"))
        for b in v.get("bindings") or ():
            if b.get("hv"):
                self.decl(b["hv"])

    def stmt(self, s):
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "decl":
            for v in s["v"]:
                self.decl(v)
            return
        if k == "return":
            v = self.val(s.get("e"))
            if holder(self.fn.get("rt")):
                self.unify(self.slot(self.fn, None), v, s.get("l"))
            return
        if isinstance(s.get("cvd"), dict):
            self.decl(s["cvd"])
        if k == "for" and self.counter(s) in self.reused and self.counter(s) not in self.webs:
            # one variable that counts in several loops is several counters
            d = self.counter(s)
            self.webs[d] = s["l"]
            for key, x in s.items():
                self.inside(x)
            del self.webs[d]
            return
        for key, x in s.items():
            if key in ("cvd", "h"):
                continue
            self.inside(x)
        for h in s.get("h") or ():
            self.inside(h.get("b"))

    def function(self, f):
        self.fn, self.unit = f, f.get("unit")
        self.tag = self.tags.get(f["u"], "")
        if f.get("lam"):
            # a lambda shares the variables of the function around it
            p = self.prog.functions.get(f.get("encl") or "")
            if p is not None and p["u"] in self.tags:
                self.tag = self.tags[p["u"]]
        self.where = (f["file"], f["l"], f["n"])
        self.memo, self.webs = {}, {}
        cs = [self.counter(n) for n in walk(f["b"]) if n["k"] == "for"]
        self.reused = {d for d in cs if d is not None and cs.count(d) > 1}
        for j, p in enumerate(f["p"]):
            if holder(p["t"]):
                self.slot(f, j)
        for i in f.get("inits") or ():
            v = self.val(i.get("e"))
            if i.get("m") and v is not None and f.get("rec") in self.mine:
                n = self.field(f["rec"], i["m"])
                fs = {x["n"]: x for x in (self.prog.records[f["rec"]].get("fields") or [])}
                if i["m"] in fs and holder(fs[i["m"]]["t"]):
                    self.unify(n, v, f["l"])
        self.stmt(f["b"])

    def run(self):
        order = self.order()
        for u in order:
            self.function(self.prog.functions[u])
        return self

    def order(self):
        """Callees first; functions that call each other share a number."""
        succ = {}
        for u, f in self.prog.functions.items():
            if not f.get("b"):
                continue
            out = []
            for n in walk(f["b"]):
                if n["k"] in ("call", "ctor") and n.get("fn"):
                    g = self.prog.resolve(n["fn"], f.get("unit"))
                    if g is not None and g.get("b"):
                        out.append(g["u"])
                elif n["k"] == "lambda":
                    out += [x for x in (n.get("fns") or [n.get("fn")]) if x in self.prog.functions]
            succ[u] = out
        self.scc, order, idx, low, onst, stack = {}, [], {}, {}, set(), []
        cnt = 0
        for start in sorted(succ):
            if start in idx:
                continue
            work = [(start, iter(succ[start]))]
            idx[start] = low[start] = cnt
            cnt += 1
            stack.append(start)
            onst.add(start)
            while work:
                u, it = work[-1]
                for v in it:
                    if v not in succ:
                        continue
                    if v not in idx:
                        idx[v] = low[v] = cnt
                        cnt += 1
                        stack.append(v)
                        onst.add(v)
                        work.append((v, iter(succ[v])))
                        break
                    if v in onst:
                        low[u] = min(low[u], idx[v])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == idx[u]:
                        while True:
                            w = stack.pop()
                            onst.discard(w)
                            self.scc[w] = idx[u]
                            order.append(w)
                            if w == u:
                                break
        return order


STMTS = {"block", "decl", "if", "while", "do", "for", "rfor", "switch", "case", "default", "break", "continue", "return",
         "try", "goto", "label", "null", "expr", "otherstmt"}
