"""Exception effects: which exception types can leave each function, and from where."""
from .engine import STD_EXC, base
from .facts import walk

# Standard-library functions that report bad values (rather than exhausted memory) by throwing.
STD_THROWS = {
    "std::stoi": ("std::invalid_argument", "std::out_of_range"),
    "std::stol": ("std::invalid_argument", "std::out_of_range"),
    "std::stoll": ("std::invalid_argument", "std::out_of_range"),
    "std::stoul": ("std::invalid_argument", "std::out_of_range"),
    "std::stoull": ("std::invalid_argument", "std::out_of_range"),
    "std::stod": ("std::invalid_argument", "std::out_of_range"),
    "std::stof": ("std::invalid_argument", "std::out_of_range"),
}
STD_THROW_MEMBERS = {"at": ("std::out_of_range",), "value": ("std::bad_optional_access",),
                     "substr": ("std::out_of_range",)}


def zero_start(n):
    """substr() from the start never throws."""
    if not base(n.get("n") or "").endswith("::substr"):
        return False
    a = (n.get("args") or [None])[0]
    while a is not None and a["k"] in ("ewc", "cast", "ld"):
        a = a["e"]
    return a is None or a["k"] == "defarg" or a.get("v") in (0, "0")


def signature(g):
    ps = [(p["t"] or {}).get("s") or "?" for p in g.get("p") or []]
    return "%s (%s)" % ((g["rt"] or {}).get("s"), ", ".join(ps))


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.esc = {u: {} for u in prog.functions}     # usr -> {type: (site, callee or None)}
        self.stats = {"throw expressions": set(), "call sites": set(), "handlers": set()}
        self.solve()

    # ---- exception types
    def bases(self, t):
        r = self.prog.records.get(t)
        if r and r.get("bases"):
            return [b["s"] for b in r["bases"] if b]
        return [STD_EXC[t]] if t in STD_EXC else []

    def isa(self, t, want):
        seen, work = set(), [t]
        while work:
            x = work.pop()
            if x == want:
                return True
            if x not in seen:
                seen.add(x)
                work += self.bases(x)
        return False

    def caught(self, h, t):
        if h.get("all"):
            return True
        ty = h.get("t") or {}
        if ty.get("k") in ("ref", "rref"):
            ty = ty["p"]
        return self.isa(t, ty["s"].replace("const ", ""))

    # ---- functions
    def targets(self, n, f):
        if n["k"] == "call" and not n.get("fn") and not n.get("n"):
            return self.indirect(n)
        t = self.prog.resolve(n["fn"], f["unit"]) if n.get("fn") else None
        if t is None:
            return []
        res = [t]
        if n.get("virt") and t.get("rec"):
            last = base(t["n"]).split("::")[-1]
            for g in self.prog.functions.values():
                if g.get("virt") and g is not t and g.get("rec") and base(g["n"]).split("::")[-1] == last and \
                        self.derives(g["rec"], t["rec"]):
                    res.append(g)
        return res

    def indirect(self, n):
        """Project functions whose address is taken and whose type is that of the called pointer."""
        if not hasattr(self, "taken"):
            self.taken = {}
            us = set()
            for f in self.prog.functions.values():
                for r in self.roots(f):
                    for x in walk(r):
                        if x.get("k") == "ref" and x.get("dk") == "fn" and x.get("fn"):
                            g = self.prog.resolve(x["fn"], f["unit"])
                            if g is not None and g["u"] not in us:
                                us.add(g["u"])
                                self.taken.setdefault(signature(g), []).append(g)
        t = (n.get("fe") or {}).get("t") or {}
        while t.get("k") in ("ptr", "ref", "rref"):
            t = t["p"]
        return self.taken.get(t.get("s"), [])

    def derives(self, a, b):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                work += [y["s"] for y in (self.prog.records.get(x) or {}).get("bases", []) if y]
        return False

    def roots(self, f):
        out = [i["e"] for i in f.get("inits") or [] if i.get("e")]
        if f.get("b"):
            out.append(f["b"])
        return out

    def of(self, f):
        out = {}
        for r in self.roots(f):
            for t, w in self.node(r, f, ()).items():
                out.setdefault(t, w)
        return out

    def leaving(self, g):
        """What a call of g throws at its caller."""
        return {} if g.get("nothrow") else self.esc.get(g["u"], {})

    def node(self, n, f, active):
        """Escaping types of a node: {type: (line, what, callee usr)}."""
        out = {}
        if isinstance(n, list):
            for x in n:
                for t, w in self.node(x, f, active).items():
                    out.setdefault(t, w)
            return out
        if not isinstance(n, dict):
            return out
        k = n.get("k")
        if k == "lambda":
            return out
        if k == "try":
            body = self.node(n["b"], f, active)
            for h in n["h"]:
                self.stats["handlers"].add((f["u"], h["l"]))
                mine = {t: w for t, w in body.items() if self.caught(h, t)}
                body = {t: w for t, w in body.items() if t not in mine}
                for t, w in self.node(h["b"], f, active + (mine,)).items():
                    out.setdefault(t, w)
            for t, w in body.items():
                out.setdefault(t, w)
            return out
        if k == "throw":
            self.stats["throw expressions"].add((f["u"], n.get("l")))
            if n.get("e") is None:
                for t, w in (active[-1] if active else {}).items():
                    out.setdefault(t, w)
                return out
            ty = (n["e"].get("t") or {})
            out.setdefault(ty.get("s", "?").replace("const ", ""), (n.get("l"), "throw", None))
        if k in ("call", "ctor"):
            name = base(n.get("n") or "")
            ts = self.targets(n, f)
            if ts:
                self.stats["call sites"].add((f["u"], n.get("l"), name))
            for g in ts:
                for t in self.leaving(g):
                    out.setdefault(t, (n.get("l"), "call of " + base(g["n"]), g["u"]))
            if not ts:
                for t in STD_THROWS.get(name, ()):
                    out.setdefault(t, (n.get("l"), "call of " + name, None))
                if name.startswith("std::") and "::" in name[5:]:
                    for t in () if zero_start(n) else STD_THROW_MEMBERS.get(name.split("::")[-1], ()):
                        out.setdefault(t, (n.get("l"), "call of " + name, None))
                # a library algorithm calls the lambdas it is given
                for a in list(n.get("args") or []):
                    for x in walk(a):
                        if x["k"] == "lambda" and x.get("fn"):
                            g = self.prog.resolve(x["fn"], f["unit"])
                            for t in self.esc.get(g["u"], {}) if g else ():
                                out.setdefault(t, (x.get("l"), "lambda", g["u"]))
        for key, x in n.items():
            if key in ("t", "k", "l") or not isinstance(x, (dict, list)):
                continue
            for t, w in self.node(x, f, active).items():
                out.setdefault(t, w)
        return out

    def solve(self):
        from .lib import callgraph, postorder
        cg = callgraph(self.prog)
        rev = {}
        for u, vs in cg.items():
            for v in vs:
                rev.setdefault(v, set()).add(u)
        order = postorder(cg, sorted(self.prog.functions))
        pos = {u: i for i, u in enumerate(order)}
        import heapq
        heap = list(range(len(order)))
        queued = set(heap)
        while heap:
            i = heapq.heappop(heap)
            queued.discard(i)
            u = order[i]
            new = self.of(self.prog.functions[u])
            if set(new) != set(self.esc[u]):
                self.esc[u] = {**new, **{t: w for t, w in self.esc[u].items() if t in new}}
                for v in rev.get(u, ()):
                    j = pos.get(v)
                    if j is not None and j not in queued:
                        heapq.heappush(heap, j)
                        queued.add(j)

    def chain(self, u, t):
        out, seen = [], set()
        while u and u not in seen:
            seen.add(u)
            f = self.prog.functions[u]
            w = self.esc[u].get(t)
            if w is None:
                break
            out.append((f["f"], w[0], "%s: %s" % (base(f["n"]), w[1])))
            u = w[2]
        return out


def effects(prog):
    if not hasattr(prog, "_effects"):
        prog._effects = Effects(prog)
    return prog._effects
