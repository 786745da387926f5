"""Linear inequalities known on a path, and counters of loops as multiples of the number of turns."""
from math import gcd

from .engine import C0, C1, isc, mk_add, mk_lt, mk_op
from .facts import walk


def lin(t):
    """Linear form {atom: coefficient}, constant under None; the rest of a division is expressed by its result."""
    r = {}

    def go(t, k):
        if t[0] == "c" and isinstance(t[1], int):
            r[None] = r.get(None, 0) + k * t[1]
        elif t[0] == "op" and t[1] == "+":
            go(t[2], k)
            go(t[3], k)
        elif t[0] == "op" and t[1] == "-":
            go(t[2], k)
            go(t[3], -k)
        elif t[0] == "op" and t[1] == "*" and t[3][0] == "c":
            go(t[2], k * t[3][1])
        elif t[0] == "op" and t[1] == "*" and t[2][0] == "c":
            go(t[3], k * t[2][1])
        elif t[0] == "op" and t[1] == "<<" and t[3][0] == "c" and 0 <= t[3][1] < 32:
            go(t[2], k << t[3][1])
        elif t[0] == "op" and t[1] == "%" and t[3][0] == "c" and t[3][1] > 0:
            go(t[2], k)
            go(mk_op("/", t[2], t[3]), -k * t[3][1])
        elif t[0] == "addr" and t[1][0] == "idx":
            go(("addr", t[1][1]), k)
            go(t[1][2], k)
        else:
            r[t] = r.get(t, 0) + k
    go(t, 1)
    return {a: k for a, k in r.items() if k}


def lsub(a, b, m=1):
    r = dict(a)
    for t, k in b.items():
        r[t] = r.get(t, 0) - k * m
    return {t: k for t, k in r.items() if k}


def const(l):
    return l.get(None, 0) if not [a for a in l if a is not None] else None


class Prover:
    """Mixin for rules: is a linear form at least 0 on a path?"""
    depth = 5

    def known(self, eng, st):
        for f, v in st.facts.items():
            if f[0] == "<":
                x, y = lin(f[1]), lin(f[2])
                d = lsub(y, x) if v else lsub(x, y)
                if v:
                    d[None] = d.get(None, 0) - 1
                yield {a: k for a, k in d.items() if k}
            elif f[0] == "==":
                x, y = lin(f[1]), lin(f[2])
                if v is True:
                    yield lsub(x, y)
                    yield lsub(y, x)
                elif self.nonneg(eng, st, lsub(x, y)):
                    # not equal and not less
                    yield lsub(lsub(x, y), {None: 1})

    def remainders(self, eng, st):
        """What is left of the values of a remainder."""
        seen = set()
        for f in st.facts:
            for x in f[1:]:
                if isinstance(x, tuple) and x[0] == "op" and x[1] == "%" and isc(x[3]) and 0 < x[3][1] < 64 and x not in seen:
                    seen.add(x)
                    if (self.limits(eng, st, x[2])[0] or -1) < 0 and not self.isunsigned(x[2]):
                        continue
                    lo, hi, ne = eng.bounds(st, x)
                    vs = [v for v in range(x[3][1]) if v not in ne and (lo is None or v >= lo) and (hi is None or v <= hi)]
                    if not vs:
                        yield {None: -1}        # no such path
                    else:
                        yield lsub(lin(x), {None: vs[0]})
                        yield lsub({None: vs[-1]}, lin(x))

    def nonneg(self, eng, st, d):
        c = d.get(None, 0)
        for a, k in d.items():
            if a is None:
                continue
            lo, hi = self.limits(eng, st, a)
            b = lo if k > 0 else hi
            if b is None:
                return False
            c += k * b
        return c >= 0

    def limits(self, eng, st, a):
        """Smallest and largest value of an atom."""
        lo, hi, _ = eng.bounds(st, a)
        if a[0] == "sym" and str(a[1]).startswith("turns@"):
            lo = max(lo or 0, 0)
        if a[0] == "sel" and a[-1] in ("$size", "$len"):
            lo = max(lo or 0, 0)
        if a[0] == "op" and a[1] == "/" and isc(a[3]) and a[3][1] > 0 and lo is None:
            l2, _ = self.limits(eng, st, a[2])
            lo = l2 // a[3][1] if l2 is not None and l2 >= 0 else None
        if a[0] == "op" and a[1] == "+":
            (l1, h1), (l2, h2) = self.limits(eng, st, a[2]), self.limits(eng, st, a[3])
            lo = l1 + l2 if lo is None and l1 is not None and l2 is not None else lo
            hi = h1 + h2 if hi is None and h1 is not None and h2 is not None else hi
        if a[0] == "op" and a[1] in (">>", "&") and lo is None:
            l2, _ = self.limits(eng, st, a[2])
            lo = 0 if l2 is not None and l2 >= 0 else None
        return lo, hi

    def implied(self, eng, st, a):
        """Inequalities that hold for an atom by what it is."""
        if a[0] == "op" and a[1] == "/" and isc(a[3]) and a[3][1] > 0:
            lo, _ = self.limits(eng, st, a[2])
            if lo is not None and lo >= 0 or self.isunsigned(a[2]):
                c = a[3][1]
                yield lsub(lin(a[2]), {a: c})
                yield lsub(lsub({a: c, None: c - 1}, lin(a[2])), {})

    def isunsigned(self, t):
        return t in getattr(self, "unsigned", ())

    def atleast0(self, eng, st, l):
        fs = None
        seen = set()

        def relaxed(d):
            g = 0
            for a, k in d.items():
                if a is not None:
                    g = gcd(g, abs(k))
            if g > 1:
                c = d.get(None, 0)
                q = -(c // g)               # least value of the sum divided by g
                d = dict(d)
                d[None] = -(g * (q - 1) + 1)
                if not d[None]:
                    del d[None]
            return d

        def go(d, depth):
            nonlocal fs
            d = relaxed(d)
            if self.nonneg(eng, st, d):
                return True
            key = frozenset(d.items())
            if depth == 0 or key in seen:
                return False
            seen.add(key)
            if fs is None:
                fs = list(self.known(eng, st))
                div = {a for f in fs for a in f if a is not None and a[0] == "op" and a[1] == "/"}
                fs += list(self.remainders(eng, st))
                fs += [f for a in sorted(div, key=repr) for f in self.implied(eng, st, a)]
            if any(const(f) is not None and const(f) < 0 for f in fs):
                return True
            more = [f for a in d if a is not None for f in self.implied(eng, st, a)]
            for f in fs + more:
                for a, k in d.items():
                    if a is not None and a in f and (f[a] > 0) == (k > 0):
                        m = abs(f[a]) // gcd(k, f[a])
                        if m > 8:
                            continue
                        e = {x: y * m for x, y in d.items()} if m > 1 else d
                        if go(lsub(e, f, k * m // f[a]), depth - 1):
                            return True
            return False
        return go(l, self.depth)


def trips(n):
    """Number of turns of a loop that counts from one constant to another, or None."""
    if n.get("k") != "for" or not isinstance(n.get("init"), dict) or not isinstance(n.get("c"), dict) or not isinstance(n.get("inc"), dict):
        return None

    def bare(e):
        while e is not None and e["k"] in ("paren", "cast", "ewc", "ld"):
            e = e["e"]
        return e

    def val(e):
        while e is not None:
            if isinstance(e.get("cv"), int):
                return e["cv"]
            if e["k"] == "int":
                return e.get("v")
            if e["k"] not in ("paren", "cast"):
                return None
            e = e["e"]
    i = n["init"]
    if i.get("k") != "decl" or len(i["v"]) != 1 or i["v"][0].get("init") is None:
        return None
    d, a = i["v"][0]["d"], val(i["v"][0]["init"])
    c, inc = bare(n["c"]), bare(n["inc"])
    if a is None or c["k"] != "bin" or c.get("op") not in ("<", "<=", ">", ">=", "!=") or inc["k"] != "un" or inc.get("op") not in ("++", "--"):
        return None
    b = val(c["b"])
    if b is None or (bare(c["a"]) or {}).get("d") != d or (bare(inc["e"]) or {}).get("d") != d:
        return None
    for x in walk(n["b"]):
        if x["k"] in ("break", "return", "goto", "continue") or x["k"] == "un" and x.get("op") in ("++", "--", "&") and (bare(x["e"]) or {}).get("d") == d or \
                x["k"] == "bin" and str(x.get("op")).endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and (bare(x["a"]) or {}).get("d") == d:
            return None
    up = inc["op"] == "++"
    k = {"<": b - a, "<=": b - a + 1, "!=": b - a}.get(c["op"]) if up else {">": a - b, ">=": a - b + 1, "!=": a - b}.get(c["op"])
    return k if k is not None and 0 <= k <= 64 else None


def steps(s, d, cache={}):
    """How a loop changes a variable: (sum of unconditional steps or None, every change is an increase)."""
    key = (id(s), d)
    if key in cache:
        return cache[key][0]
    tot, allup, uncond = 0, True, True

    def var(e):
        while e is not None and e["k"] in ("paren", "cast"):
            e = e["e"]
        return e is not None and e["k"] == "ref" and e.get("d") == d

    def go(n, c):
        nonlocal tot, allup, uncond
        if isinstance(n, list):
            for x in n:
                go(x, c)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        delta = None
        if k == "un" and n.get("op") in ("++", "--") and var(n["e"]):
            delta = 1 if n["op"] == "++" else -1
            z = ((n["e"].get("t") or {}).get("p") or {}).get("z")
            if (n["e"].get("t") or {}).get("k") == "ptr":
                delta = None if not z else delta * z
                if delta is None:
                    allup = uncond = False
                    return
        elif k == "bin" and var(n.get("a")) and str(n.get("op")).endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            b = n["b"]
            while b is not None and b["k"] in ("paren", "cast"):
                if isinstance(b.get("cv"), int):
                    break
                b = b["e"]
            v = b.get("cv") if isinstance(b.get("cv"), int) else b.get("v") if b["k"] == "int" else None
            if n["op"] == "+=" and isinstance(v, int) and (n["a"].get("t") or {}).get("k") != "ptr":
                delta = v
            elif n["op"] == "-=" and isinstance(v, int) and (n["a"].get("t") or {}).get("k") != "ptr":
                delta = -v
            else:
                allup = uncond = False
                return
        elif k == "un" and n.get("op") == "&" and var(n["e"]):
            allup = uncond = False
            return
        elif k == "lambda":
            allup = uncond = False if any(x.get("d") == d for x in walk(n) if isinstance(x, dict)) else allup and uncond
            return
        if delta is not None:
            tot += delta
            if delta < 0:
                allup = False
            if c:
                uncond = False
            return
        if k in ("call", "ctor"):
            # passed by reference?
            for x in n.get("args") or []:
                if var(x) and x["k"] == "ref":
                    allup = uncond = False
        if k == "for" and n is not s and not c:
            m = trips(n)
            if m is not None:
                old, tot = tot, 0
                for x in ("b", "inc"):
                    go(n[x], False)
                tot = old + m * tot
                return
        if k in ("if", "cond", "switch", "for", "while", "do", "rangefor", "try", "case", "default") and n is not s:
            for x in n.values():
                if isinstance(x, (dict, list)):
                    go(x, True)
            return
        if k == "bin" and n.get("op") in ("&&", "||"):
            go(n["a"], c)
            go(n["b"], True)
            return
        if k == "continue":
            uncond = False
        for kk, x in n.items():
            if kk in ("t", "dt", "pt", "p"):
                continue
            if isinstance(x, (dict, list)):
                go(x, c)
    for part in ("c", "b", "inc"):
        if s.get(part):
            go(s[part], False)
    res = (tot if uncond else None, allup)
    cache[key] = (res, s)
    return res


class Induction(Prover):
    """Mixin for rules: counters of a loop are its number of turns times their step."""

    def widened(self, eng, h, entry, m, s):
        """Term for a variable at the head of a loop after at least one turn, with what is known about it."""
        if m[0] != "var" or s is None or s.get("k") == "algo":
            return None
        tot, up = steps(s, m[1])
        v = entry.env.get(m)
        if v is None:
            return None
        if tot is not None:
            return mk_add(v, mk_op("*", self.turns(s), ("c", tot))) if tot else v
        return None

    def turns(self, s):
        return ("sym", "turns@%d" % s["l"])

    def grown(self, eng, h, entry, m, sy, s):
        """Facts about a variable that only grows."""
        if m[0] != "var" or s is None or s.get("k") == "algo":
            return
        tot, up = steps(s, m[1])
        v = entry.env.get(m)
        if up and v is not None:
            lo = v[1] if isc(v) else self.limits(eng, entry, v)[0]
            if lo is not None:
                h.facts[mk_lt(sy, ("c", lo))] = False

    def headfacts(self, eng, h, entry, s):
        """The condition held a turn ago."""
        c = s.get("c")
        if s.get("k") not in ("for", "while") or c is None:
            return
        while c["k"] in ("paren", "cast", "ewc"):
            c = c["e"]
        if c["k"] != "bin" or c.get("op") not in ("<", ">", "<=", ">=", "!="):
            return
        K = self.turns(s)
        a, b = eng.rv(c["a"], h.copy()), eng.rv(c["b"], h.copy())
        if len(a) != 1 or len(b) != 1:
            return
        a, b, op = a[0][1], b[0][1], c["op"]
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        la, lb = lin(a), lin(b)
        if op == "!=":
            d = lsub(la, lb)
            # a counter that reaches its end step by step
            if abs(d.get(K, 0)) != 1:
                return
            if d[K] < 0:
                d = {x: -k for x, k in d.items()}
            start = lsub(d, {K: 1})
            if not self.atleast0(eng, entry, {x: -k for x, k in start.items()}):
                return
            h.facts[mk_lt(C0, term(d))] = False
            return
        # one turn back
        d = lsub(lb, la)
        d = lsub(d, {None: -d.get(K, 0)} if False else {})
        k = d.get(K, 0)
        prev = lsub(d, {None: k})               # K - 1 in place of K
        if op == "<":
            prev = lsub(prev, {None: 1})
        h.facts[mk_lt(term(prev), C0)] = False


def term(l):
    t = ("c", l.get(None, 0))
    for a, k in sorted(((a, k) for a, k in l.items() if a is not None), key=repr):
        t = mk_add(t, a if k == 1 else mk_op("*", a, ("c", k)))
    return t
