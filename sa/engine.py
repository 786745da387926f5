"""Property-simulation dataflow engine.

A structural abstract interpreter over the resolved statement trees that
factdump writes.  The abstract domain is a set of states per program point;
a state is (env, facts, ts):

  env    value numbering: abstract location -> term
  facts  branch facts: canonical comparison atom -> truth value
  ts     the rule's typestate (an immutable value the rule owns)

Functions of the repository are inlined (summary by inlining, recursion cut),
so a rule sees through helpers, lambdas and template instantiations.  Loops are
widened: every location written in the body becomes an unknown at the loop
head and the typestates are iterated to a fixpoint.  States that agree are
merged; above a bound, states with equal typestate are joined.  Branch
feasibility is decided only by the recorded facts and an interval per term.
"""
import sys

sys.setrecursionlimit(20000)

C0 = ("c", 0)
C1 = ("c", 1)


def walk(n):
    """Nested nodes of a statement tree."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if isinstance(x.get("k"), str):
                yield x
            stack.extend(v for k, v in x.items() if k not in ("t", "at", "rt", "ct", "dt", "pt") and isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(v for v in x if isinstance(v, (dict, list)))


# standard algorithms that apply a unary lambda: (value that stops, result then)
ALGOS = {"std::for_each": None, "std::all_of": (False, ("c", 0)), "std::any_of": (True, ("c", 1)),
         "std::none_of": (True, ("c", 0)), "std::find_if": (True, None), "std::find_if_not": (False, None),
         "std::count_if": None, "std::remove_if": None, "std::copy_if": None, "std::generate": None,
         "std::transform": None, "std::partition": None}


def constval(e):
    """Value of a constant expression node, or None."""
    while e is not None:
        if "cv" in e and isinstance(e["cv"], int):
            return e["cv"]
        if e.get("k") not in ("ewc", "cast", "bind", "ld", "mat"):
            return None
        e = e.get("e")
    return None


def c(n):
    return ("c", int(n))


def isc(t):
    return t[0] == "c"


_base_cache = {}


def base(name):
    """Qualified name without template arguments."""
    if name is None:
        return ""
    r = _base_cache.get(name)
    if r is not None:
        return r
    s, op = name, ""
    i = s.find("operator")
    if i >= 0 and (i == 0 or s[i - 1] == ":") and s[i + 8:i + 9] in tuple("<>-") + ("",):
        s, op = s[:i], s[i:]
    out, d = [], 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    r = "".join(out) + op
    _base_cache[name] = r
    return r


# ---------------------------------------------------------------- terms
def mk_add(a, b):
    if isc(a) and isc(b):
        return ("c", a[1] + b[1])
    if isc(a):
        a, b = b, a
    if isc(b):
        if b[1] == 0:
            return a
        if a[0] == "op" and a[1] == "+" and isc(a[3]):
            return mk_add(a[2], ("c", a[3][1] + b[1]))
        if a[0] == "addr" and a[1][0] == "idx":
            return ("addr", mk_idx(a[1][1], mk_add(a[1][2], b)))
        return ("op", "+", a, b)
    if a[0] == "addr" and a[1][0] == "idx":
        return ("addr", mk_idx(a[1][1], mk_add(a[1][2], b)))
    if b[0] == "addr" and b[1][0] == "idx":
        return ("addr", mk_idx(b[1][1], mk_add(b[1][2], a)))
    # pull constants out
    k = 0
    if a[0] == "op" and a[1] == "+" and isc(a[3]):
        k += a[3][1]
        a = a[2]
    if b[0] == "op" and b[1] == "+" and isc(b[3]):
        k += b[3][1]
        b = b[2]
    # cancel x + (y - x)
    for x, y in ((a, b), (b, a)):
        if y[0] == "op" and y[1] == "-" and y[3] == x:
            return mk_add(y[2], ("c", k))
    if repr(a) > repr(b):
        a, b = b, a
    t = ("op", "+", a, b)
    return ("op", "+", t, ("c", k)) if k else t


def mk_sub(a, b):
    if isc(b):
        return mk_add(a, ("c", -b[1]))
    if a == b:
        return C0
    if a[0] == "op" and a[1] == "+":
        if a[2] == b:
            return a[3]
        if a[3] == b:
            return a[2]
        if isc(a[3]):
            return mk_add(mk_sub(a[2], b), a[3])
    if b[0] == "op" and b[1] == "+" and a in (b[2], b[3]):
        return mk_neg(b[3] if b[2] == a else b[2])
    if b[0] == "op" and b[1] == "-" and b[2] == a:
        return b[3]
    if a[0] == "addr" and b[0] == "addr" and a[1][0] == "idx" and b[1][0] == "idx" and a[1][1] == b[1][1]:
        return mk_sub(a[1][2], b[1][2])
    return ("op", "-", a, b)


def mk_neg(a):
    if isc(a):
        return ("c", -a[1])
    return ("op", "-", C0, a)


def mk_idx(loc, i):
    if loc[0] == "deref":
        return deref(mk_add(loc[1], i))
    return ("idx", loc, i)


def deref(t):
    if t[0] == "addr":
        return t[1]
    return ("deref", t)


def addr(loc):
    if loc[0] == "deref":
        return loc[1]
    return ("addr", loc)


def mk_op(op, a, b):
    if op == "+":
        return mk_add(a, b)
    if op == "-":
        return mk_sub(a, b)
    if isc(a) and isc(b):
        x, y = a[1], b[1]
        try:
            if op == "*":
                return ("c", x * y)
            if op == "/" and y:
                return ("c", int(x / y))
            if op == "%" and y:
                return ("c", x - y * int(x / y))
            if op == "&":
                return ("c", x & y)
            if op == "|":
                return ("c", x | y)
            if op == "^":
                return ("c", x ^ y)
            if op == "<<" and 0 <= y < 64:
                return ("c", x << y)
            if op == ">>" and 0 <= y < 64:
                return ("c", x >> y)
        except (OverflowError, ValueError):
            pass
    if op == "*":
        if a == C1:
            return b
        if b == C1:
            return a
        if a == C0 or b == C0:
            return C0
    if op in ("|", "^"):
        if a == C0:
            return b
        if b == C0:
            return a
    if op == "&":
        if a == C0 or b == C0:
            return C0
        if a == b:
            return a
        # (x & c1) & c2, (x | c1) & c2 with disjoint constants
        for x, k in ((a, b), (b, a)):
            if isc(k) and x[0] == "op" and x[1] == "&" and isc(x[3]):
                return mk_op("&", x[2], ("c", x[3][1] & k[1]))
            if isc(k) and x[0] == "op" and x[1] == "|" and isc(x[3]):
                lo = mk_op("&", x[2], k)
                hi = x[3][1] & k[1]
                return ("op", "|", lo, ("c", hi)) if hi and lo != C0 else (("c", hi) if lo == C0 else lo)
    if op in ("<<", ">>") and b == C0:
        return a
    if op in ("*", "&", "|", "^"):
        if isc(a) or (not isc(b) and repr(a) > repr(b)):
            a, b = b, a
    return ("op", op, a, b)


def mk_not(t):
    if isc(t):
        return C0 if t[1] else C1
    if t[0] == "!":
        return t[1]
    if t[0] in ("==", "<"):
        return ("!", t)
    return mk_eq(t, C0)


def _nonnull(t):
    return t[0] in ("addr", "s", "fnptr", "lam")


def mk_eq(a, b):
    if a == b:
        return C1
    if isc(a) and isc(b):
        return C0
    if isc(a):
        a, b = b, a
    if isc(b):
        if a[0] == "op" and a[1] == "+" and isc(a[3]):
            return mk_eq(a[2], ("c", b[1] - a[3][1]))
        if a[0] == "op" and a[1] == "-" and b == C0:
            return mk_eq(a[2], a[3])
        if a[0] == "op" and a[1] == "|" and isc(a[3]) and a[3][1] & ~b[1]:
            return C0
        if b == C0 and _nonnull(a):
            return C0
        if a[0] in ("==", "<", "!"):
            if b[1] == 0:
                return mk_not(a)
            if b[1] == 1:
                return a
            return C0
        return ("==", a, b)
    if a[0] == "s" and b[0] == "s":
        return C0
    if a[0] == "op" and b[0] == "op" and a[1] == b[1] == "+" and isc(a[3]) and isc(b[3]) and a[2] == b[2]:
        return C0
    k = elements(a, b)
    if k is not None:
        return C0
    if repr(a) > repr(b):
        a, b = b, a
    return ("==", a, b)


def elements(a, b):
    """Positions of two different elements of the same array that are known."""
    if a[0] == "addr" and b[0] == "addr" and a[1][0] == "idx" and b[1][0] == "idx" and a[1][1] == b[1][1] and \
            isc(a[1][2]) and isc(b[1][2]) and a[1][2] != b[1][2]:
        return a[1][2][1], b[1][2][1]
    return None


def mk_lt(a, b):
    if a == b:
        return C0
    k = elements(a, b)
    if k is not None:
        return C1 if k[0] < k[1] else C0
    if isc(a) and isc(b):
        return C1 if a[1] < b[1] else C0
    if isc(b) and a[0] == "op" and a[1] == "+" and isc(a[3]):
        return mk_lt(a[2], ("c", b[1] - a[3][1]))
    if isc(a) and b[0] == "op" and b[1] == "+" and isc(b[3]):
        return mk_lt(("c", a[1] - b[3][1]), b[2])
    if isc(b) and b[1] == 0 and a[0] == "sizeterm":
        return C0
    # integers: c < x  <=>  !(x < c+1)
    if isc(a):
        return mk_not(("<", b, ("c", a[1] + 1)))
    return ("<", a, b)


def mk_cmp(op, a, b):
    if op == "==":
        return mk_eq(a, b)
    if op == "!=":
        return mk_not(mk_eq(a, b))
    if op == "<":
        return mk_lt(a, b)
    if op == ">":
        return mk_lt(b, a)
    if op == "<=":
        return mk_not(mk_lt(b, a))
    if op == ">=":
        return mk_not(mk_lt(a, b))
    raise AssertionError(op)


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and contains(y, x):
                return True
    return False


def contains_any(t, xs):
    if t in xs:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and contains_any(y, xs):
                return True
    return False


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def under(loc, base):
    while True:
        if loc == base:
            return True
        if loc[0] in ("fld", "idx", "ver"):
            loc = loc[1]
        elif loc[0] == "deref" and base[0] == "deref" and loc[1][0] == "op" and loc[1][1] == "+" and \
                base[1] in (loc[1][2], loc[1][3]):
            return True
        else:
            return False


def root(loc):
    while loc[0] in ("fld", "idx"):
        loc = loc[1]
    return loc


def show(t):
    """Readable form of a term or location."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "s":
        return '"%s"' % (t[1],)
    if k == "var":
        return str(t[1]).split("@")[0].split("#")[-1] if "@" in str(t[1]) else str(t[1])
    if k == "fld":
        b = t[1]
        if b[0] == "deref":
            return show(b[1]) + "->" + t[2]
        return show(b) + "." + t[2]
    if k == "idx":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "deref":
        return "*" + show(t[1])
    if k == "addr":
        return "&" + show(t[1])
    if k == "op":
        return "(%s%s%s)" % (show(t[2]), t[1], show(t[3]))
    if k in ("==", "<"):
        return "%s%s%s" % (show(t[1]), k, show(t[2]))
    if k == "!":
        return "!(%s)" % show(t[1])
    if k == "ld":
        return show(t[1])
    if k == "sym":
        return str(t[1])
    if k == "call":
        return "%s(%s)" % (t[1].split("::")[-1], ",".join(show(x) for x in t[2:] if isinstance(x, tuple) and x))
    return str(k) + "(" + ",".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"


class State:
    __slots__ = ("env", "facts", "ts", "tr", "_k")

    def __init__(self, env=None, facts=None, ts=None, tr=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.ts = ts
        self.tr = tr
        self._k = None

    def copy(self):
        return State(dict(self.env), dict(self.facts), self.ts, self.tr)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), self.ts)

    def note(self, file, line, text):
        self.tr = ((file, line, text), self.tr)

    def trace(self, n=40):
        out = []
        t = self.tr
        while t is not None and len(out) < n:
            out.append(t[0])
            t = t[1]
        return list(reversed(out))


class Call:
    __slots__ = ("name", "usr", "fn", "obj", "args", "node", "line", "file", "stack", "rt", "argn")

    def __repr__(self):
        return "Call(%s)" % self.name


class Out:
    __slots__ = ("norm", "brk", "cont", "ret", "thr")

    def __init__(self):
        self.norm, self.brk, self.cont, self.ret, self.thr = [], [], [], [], []


class Rule:
    """Base class of rules; override what is needed."""
    max_depth = 12
    limit = 400
    fork_stl = False

    def opaque(self, fn):
        return False

    def call(self, eng, st, call):
        return None

    def post(self, eng, st, call, val):
        """After an inlined or opaque call returned val in st."""

    def store(self, eng, st, loc, val, node):
        pass

    def load(self, eng, st, loc, node):
        pass

    def branch(self, eng, st, cond, truth, node):
        pass

    def dtor(self, eng, st, ty, loc, line):
        pass

    def may_throw(self, call):
        return None


STD_EXC = {
    "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
    "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error",
    "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::system_error": "std::runtime_error", "std::range_error": "std::runtime_error",
    "std::overflow_error": "std::runtime_error", "std::bad_alloc": "std::exception",
    "std::bad_cast": "std::exception", "std::bad_optional_access": "std::exception", "std::regex_error": "std::runtime_error",
}

PURE_FREE = {
    "strlen", "strcmp", "strcasecmp", "memcmp", "strchr", "strncmp", "std::min", "std::max", "abs",
    "std::find", "std::find_if", "std::begin", "std::end", "std::cbegin", "std::cend", "htonl", "ntohl",
    "isdigit", "isalpha", "isspace", "toupper", "tolower", "isalnum", "isxdigit", "std::distance", "std::next",
    "std::prev", "std::hash",
}


class Engine:
    def __init__(self, prog, rule):
        self.prog = prog
        self.rule = rule
        self.stack = []          # function dicts
        self.thisv = []
        self.thr = []
        self.modlogs = []
        self.noret = []          # (state, Call)
        self.stats = {"stmts": 0, "calls": 0, "inlined": 0, "joins": 0, "functions": set()}
        self.cleanups = None
        self.excstack = []
        self._lconst = {}
        self.locrec = {}         # field location -> record declaring the field
        self.arrays = {}         # location of an array that decayed -> (bytes, bytes of an element)
        self.objects = {}        # location whose address was taken -> bytes
        self.max_stmts = getattr(rule, "max_stmts", 3000000)

    # ---------------------------------------------------------- driver
    def run(self, fn, st=None, this=None, args=None):
        st = st or State()
        pv = []
        for i, p in enumerate(fn["p"]):
            if args is not None and i < len(args) and args[i] is not None:
                pv.append(args[i])
            else:
                pv.append(("sym", "p:" + p["n"]))
        self.thr = thr = []
        if this is None:
            this = ("sym", "this")
        rets = self.inline(fn, st, this, pv, None, root=True)
        return [("ret", s, v) for s, v in rets] + [("throw", s, e) for s, e in thr]

    def cur(self):
        return self.stack[-1] if self.stack else None

    def curfile(self):
        return self.stack[-1]["file"] if self.stack else "?"

    # ---------------------------------------------------------- state helpers
    def logmod(self, loc):
        for m in self.modlogs:
            m.add(loc)

    def getver(self, st, loc):
        return st.env.get(("ver", loc), 0)

    def lookup(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc[0] in ("fld", "idx"):
            # inherited from a parent bound as a whole
            p = loc[1]
            path = [loc]
            while True:
                pv = st.env.get(p)
                if pv is not None and not isinstance(pv, int):
                    t = pv
                    for l in reversed(path):
                        if t == C0 and l[0] in ("fld", "idx"):
                            t = C0
                        else:
                            t = ("sel", t, l[2] if l[0] == "fld" else ("i", l[2]))
                    return t
                if p[0] in ("fld", "idx"):
                    path.append(p)
                    p = p[1]
                else:
                    break
        if loc[0] == "str":
            return ("s", loc[1])
        if loc[0] == "fn":
            return ("fnptr", loc[1])
        # unknown initial content
        ver = 0
        l = loc
        while True:
            x = st.env.get(("ver", l))
            if x:
                ver = (ver, x)
            if l[0] in ("fld", "idx"):
                l = l[1]
            else:
                break
        if loc[0] == "fld":
            x = st.env.get(("fver", loc[2]))
            if x and root(loc)[0] != "var":
                ver = (ver, "f", x)
        return ("ld", loc, ver)

    def kill_subtree(self, st, loc, keep=False):
        dead = [k for k in st.env if k[0] in ("fld", "idx", "ver", "deref") and k != loc and under(k, loc)]
        for k in dead:
            del st.env[k]

    def assign(self, st, loc, val, node=None, init=False):
        self.rule.store(self, st, loc, val, node)
        self.logmod(loc)
        if val[0] == "recv":
            src = val[1]
            self.kill_subtree(st, loc)
            st.env.pop(loc, None)
            n = 0
            for k, v in list(st.env.items()):
                if k != src and k[0] in ("fld", "idx") and under(k, src):
                    st.env[self.rebase(k, src, loc)] = v
                    n += 1
            if src in st.env:
                st.env[loc] = st.env[src]
            else:
                t = self.lookup(st, src)
                if t[0] != "ld" or n == 0 or root(src)[0] != "var":
                    st.env[loc] = t
            return
        self.kill_subtree(st, loc)
        r = root(loc)
        if r[0] != "var" and loc[0] in ("fld",) and not init:
            # may alias another object's same field
            f = loc[2]
            dead = [k for k in st.env if k[0] == "fld" and k[2] == f and k != loc and root(k)[0] != "var"
                    and not self.noalias(k, loc)]
            for k in dead:
                del st.env[k]
            st.env[("fver", f)] = st.env.get(("fver", f), 0) + 1
        elif r[0] == "deref" and loc == r and not init:
            dead = [k for k in st.env if k[0] == "deref" and k != loc and not self.noalias(k, loc)]
            for k in dead:
                del st.env[k]
        st.env[loc] = val

    def noalias(self, a, b):
        """Same base pointer at different constant offsets."""
        def base(l):
            l = root(l)
            if l[0] == "deref":
                t = l[1]
                if t[0] == "op" and t[1] == "+" and isc(t[3]):
                    return t[2], t[3][1]
                return t, 0
            return l, 0
        (x, i), (y, j) = base(a), base(b)
        if x != y and all(t[0] == "sym" and str(t[1]).startswith("p:") for t in (x, y)):
            return True     # distinct pointers handed in by a caller are assumed not to overlap
        return x == y and i != j

    def rebase(self, k, src, dst):
        if k == src:
            return dst
        return (k[0], self.rebase(k[1], src, dst)) + k[2:]

    def havoc(self, st, loc, tag):
        self.logmod(loc)
        self.kill_subtree(st, loc)
        st.env.pop(loc, None)
        st.env[("ver", loc)] = self.bump(st, loc, tag)

    def bump(self, st, loc, tag):
        self.logmod(("ver", loc))
        v = st.env.get(("ver", loc), 0)
        n = v + 1 if isinstance(v, int) else 1
        # bounded, so that loops converge
        return n if n < 12 else 12

    def fresh(self, st, name, line):
        base = "%s@%s:%d" % (name, self.curfile().split("/")[-1], line)
        used = None
        for i in range(4):
            s = ("sym", base if i == 0 else "%s#%d" % (base, i))
            if i == 3 or not any(contains(v, s) for v in st.env.values() if isinstance(v, tuple)):
                used = s
                break
        self.killsym(st, used)
        return used

    def killsym(self, st, s):
        dead = [f for f in st.facts if contains(f, s)]
        for f in dead:
            del st.facts[f]

    # ---------------------------------------------------------- facts
    def bounds(self, st, x):
        lo, hi, ne = None, None, set()
        if x[0] in ("==", "<", "!"):
            lo, hi = 0, 1
        elif x[0] == "sizeterm":
            lo, hi = 0, 1 << 62
        elif x[0] == "sel" and x[2] == "st_size":
            lo = 0
        elif x[0] == "ld" and x[1][0] == "fld" and x[1][2] == "$size":
            lo, hi = 0, 1 << 62
        elif x[0] == "op" and x[1] == "/" and isc(x[3]) and x[3][1] > 0:
            a, b, _ = self.bounds(st, x[2])
            lo = None if a is None else int(a / x[3][1])
            hi = None if b is None else int(b / x[3][1])
        elif x[0] == "op" and x[1] == "+":
            a, b, _ = self.bounds(st, x[2])
            if isc(x[3]):
                a2 = b2 = x[3][1]
            else:
                a2, b2, _ = self.bounds(st, x[3])
            lo = None if a is None or a2 is None else a + a2
            hi = None if b is None or b2 is None else b + b2
        elif x[0] == "c":
            return x[1], x[1], ne
        elif x[0] == "op" and x[1] == "&" and isc(x[3]) and x[3][1] >= 0:
            lo, hi = 0, x[3][1]
        for f, v in st.facts.items():
            if f[1] == x and isc(f[2]):
                k = f[2][1]
                if f[0] == "==":
                    if v:
                        return k, k, ne
                    ne.add(k)
                else:
                    if v:
                        hi = k - 1 if hi is None else min(hi, k - 1)
                    else:
                        lo = k if lo is None else max(lo, k)
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        return lo, hi, ne

    def decide(self, st, atom):
        if isc(atom):
            return bool(atom[1])
        if atom[0] == "!":
            r = self.decide(st, atom[1])
            return None if r is None else not r
        if atom in st.facts:
            return st.facts[atom]
        if atom[0] in ("==", "<"):
            a, b = atom[1], atom[2]
            if isc(b):
                lo, hi, ne = self.bounds(st, a)
                k = b[1]
                if atom[0] == "==":
                    if lo is not None and lo == hi:
                        return lo == k
                    if k in ne or (lo is not None and k < lo) or (hi is not None and k > hi):
                        return False
                    # masks: x & m == 0 decided from another mask of x
                    if a[0] == "op" and a[1] == "&" and isc(a[3]):
                        for f, v in st.facts.items():
                            if f[0] == "==" and v and f[1] == a[2] and isc(f[2]):
                                return (f[2][1] & a[3][1]) == k
                else:
                    if hi is not None and hi < k:
                        return True
                    if lo is not None and lo >= k:
                        return False
            else:
                if atom[0] == "==":
                    if st.facts.get(("<", a, b)) or st.facts.get(("<", b, a)):
                        return False
                    if st.facts.get(("<", a, b)) is False and st.facts.get(("<", b, a)) is False:
                        return True
                    la, ha, _ = self.bounds(st, a)
                    lb, hb, _ = self.bounds(st, b)
                    if la is not None and la == ha and lb is not None and lb == hb:
                        return la == lb
                    if ha is not None and lb is not None and ha < lb:
                        return False
                    if hb is not None and la is not None and hb < la:
                        return False
                else:
                    if st.facts.get(("<", b, a)):
                        return False
                    e = mk_eq(a, b)
                    if st.facts.get(e):
                        return False
                    la, ha, _ = self.bounds(st, a)
                    lb, hb, _ = self.bounds(st, b)
                    if ha is not None and lb is not None and ha < lb:
                        return True
                    if la is not None and hb is not None and la >= hb:
                        return False
                    # through one equality
                    for f, v in st.facts.items():
                        if v and f[0] == "==":
                            for x, y in ((f[1], f[2]), (f[2], f[1])):
                                if x == a and ("<", y, b) in st.facts:
                                    return st.facts[("<", y, b)]
                                if x == b and ("<", a, y) in st.facts:
                                    return st.facts[("<", a, y)]
        return None

    def assume(self, st, t, truth, node=None, silent=False):
        """A copy of st in which term t has the truth value, or None."""
        if isc(t):
            return st if bool(t[1]) == truth else None
        if t[0] == "!":
            return self.assume(st, t[1], not truth, node, silent)
        if t[0] not in ("==", "<"):
            t2 = mk_eq(t, C0)
            if isc(t2):
                return st if bool(t2[1]) != truth else None
            return self.assume(st, t2, not truth, node, silent)
        d = self.decide(st, t)
        if d is not None:
            if d != truth:
                return None
            s = st.copy()
        else:
            s = st.copy()
            s.facts[t] = truth
            if truth and t[0] == "==" and isc(t[2]):
                # re-fold memory that holds exactly this unknown
                pass
        if not silent:
            if node is not None and d is None:
                s.note(self.curfile(), node.get("l", 0), ("%s" if truth else "not (%s)") % show(t))
            if self.rule.branch(self, s, t, truth, node) is False:
                return None         # excluded by an assumption of the rule
        return s

    # ---------------------------------------------------------- expressions
    def cond(self, e, st):
        """Evaluate a condition: (true states, false states)."""
        k = e["k"]
        if k == "un" and e["op"] == "!":
            t, f = self.cond(e["e"], st)
            return f, t
        if k in ("bin",) and e["op"] == "&&":
            t1, f1 = self.cond(e["a"], st)
            tt, ff = [], list(f1)
            for s in t1:
                t2, f2 = self.cond(e["b"], s)
                tt += t2
                ff += f2
            return tt, ff
        if k in ("bin",) and e["op"] == "||":
            t1, f1 = self.cond(e["a"], st)
            tt, ff = list(t1), []
            for s in f1:
                t2, f2 = self.cond(e["b"], s)
                tt += t2
                ff += f2
            return tt, ff
        if k == "ewc":
            saved = self.cleanups
            self.cleanups = []
            t, f = self.cond(e["e"], st)
            cl = self.cleanups
            self.cleanups = saved
            t = self.run_cleanups(t, cl, e)
            f = self.run_cleanups(f, cl, e)
            return t, f
        if k == "cast" and e["ck"] in ("IntegralToBoolean", "PointerToBoolean") and "cv" not in e:
            return self.condv(e["e"], st, e)
        return self.condv(e, st, e)

    def condv(self, e, st, node):
        tt, ff = [], []
        for s, v in self.rv(e, st):
            a = self.assume(s, v, True, node)
            b = self.assume(s, v, False, node)
            if a is not None:
                tt.append(a)
            if b is not None:
                ff.append(b)
        return tt, ff

    def run_cleanups(self, states, cl, e):
        if not cl:
            return states
        for dtor, ty, loc in reversed(cl):
            new = []
            for s in states:
                new += self.destroy(s, ty, loc, dtor, e.get("l", 0))
            states = new
        return states

    def rv(self, e, st):
        """Values: list of (state, term)."""
        if e is None:
            return [(st, C0)]
        if "cv" in e and e["k"] not in ("call", "stmtexpr"):
            return [(st, ("c", e["cv"]))]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.e_other(e, st)
        return m(e, st)

    def e_int(self, e, st):
        return [(st, ("sym", "int"))]

    def e_flt(self, e, st):
        return [(st, ("f", e["v"]))]

    def e_str(self, e, st):
        return [(st, ("s", e.get("v", "")))]

    def e_null(self, e, st):
        return [(st, C0)]

    def e_zero(self, e, st):
        return [(st, C0)]

    def e_this(self, e, st):
        return [(st, self.thisv[-1] if self.thisv else ("sym", "this"))]

    def e_sizeof(self, e, st):
        return [(st, ("sym", "sizeof"))]

    e_trait = e_offsetof = e_typeid = e_vaarg = e_sizeof

    def e_ld(self, e, st):
        out = []
        for s, loc in self.lv(e["e"], st):
            self.rule.load(self, s, loc, e)
            out.append((s, self.lookup(s, loc)))
        return out

    def e_ref(self, e, st):
        if e.get("dk") == "fn":
            return [(st, ("fnptr", e["fn"]))]
        if e.get("dk") == "enum":
            return [(st, ("c", e["cv"]))]
        return [(s, self.recval(s, l)) for s, l in self.lv(e, st)]

    def recval(self, st, loc):
        return ("recv", loc)

    def e_mem(self, e, st):
        if e.get("dk") == "fn":
            return [(st, ("fnptr", e["fn"]))]
        return [(s, self.recval(s, l)) for s, l in self.lv(e, st)]

    e_idx = e_mem

    def e_mat(self, e, st):
        return [(s, self.recval(s, l)) for s, l in self.lv(e, st)]

    def e_ewc(self, e, st):
        saved = self.cleanups
        self.cleanups = []
        res = self.rv(e["e"], st)
        cl = self.cleanups
        self.cleanups = saved
        if not cl:
            return res
        out = []
        for s, v in res:
            for s2 in self.run_cleanups([s], cl, e):
                out.append((s2, v))
        return out

    def e_bind(self, e, st):
        return self.rv(e["e"], st)

    def e_cast(self, e, st):
        ck = e["ck"]
        sub = e["e"]
        if ck == "ArrayToPointerDecay":
            out = []
            for s, loc in self.lv(sub, st):
                if loc[0] == "str":
                    out.append((s, ("s", loc[1])))
                else:
                    if (sub.get("t") or {}).get("z"):
                        self.arrays[loc] = (sub["t"]["z"], (sub["t"].get("p") or {}).get("z") or 1)
                    out.append((s, addr(mk_idx(loc, C0))))
            return out
        if ck == "FunctionToPointerDecay":
            x = sub
            while x["k"] == "paren":
                x = x["e"]
            if x["k"] == "un" and x.get("op") == "*":
                return self.rv(x["e"], st)
            return self.rv(sub, st)
        if ck == "NullToPointer":
            return [(st, C0)]
        if ck == "ToVoid":
            return [(s, C0) for s, _ in self.rv(sub, st)]
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return [(s, mk_not(mk_eq(v, C0)) if v[0] not in ("==", "<", "!") else v) for s, v in self.rv(sub, st)]
        if ck == "FloatingToIntegral":
            return [(s, ("cast", "f2i", v)) for s, v in self.rv(sub, st)]
        if ck == "IntegralCast" and getattr(self.rule, "trunc", False):
            z1 = (sub.get("t") or {}).get("z", 0)
            t = e.get("t") or {}
            if t.get("z", 0) < z1 and t.get("k") != "bool":
                return [(s, v if isc(v) else ("trunc", t["z"], v)) for s, v in self.rv(sub, st)]
        if ck in ("LValueToRValue",):
            return self.e_ld(e, st)
        if ck == "IntegralCast" and getattr(self.rule, "narrow", False):
            t = e.get("t") or {}
            t1 = sub.get("t") or {}
            if t.get("k") == "int" and t.get("z", 8) < 4:
                return [(s, v if isc(v) and 0 <= v[1] < 128 else ("conv", t["z"], bool(t.get("sg")), v)) for s, v in self.rv(sub, st)]
            if t1.get("k") == "int" and t1.get("z", 8) < 4 and t1.get("sg"):
                return [(s, v if isc(v) else ("conv", t1["z"], True, v)) for s, v in self.rv(sub, st)]
        if ck == "IntegralCast" and getattr(self.rule, "widths", False):
            t = e.get("t") or {}
            z1 = (sub.get("t") or {}).get("z", 0)
            if t.get("k") == "int" and not t.get("sg") and t.get("z", 8) < 4 and (z1 > t["z"] or (z1 == t["z"] and (sub.get("t") or {}).get("sg"))):
                return [(s, v if isc(v) and 0 <= v[1] < 128 else ("conv", t["z"], False, v)) for s, v in self.rv(sub, st)]
        if ck == "IntegralCast":
            t = e.get("t") or {}
            if t.get("k") == "int" and not t.get("sg") and t.get("z"):
                return [(s, ("c", v[1] + (1 << (8 * t["z"]))) if isc(v) and v[1] < 0 else v)
                        for s, v in self.rv(sub, st)]
        t = e.get("t") or {}
        if t.get("k") == "ptr" and (t.get("p") or {}).get("k") == "rec" and getattr(self.rule, "bytes", False):
            return [(s, self.container_of(v, t["p"].get("r"))) for s, v in self.rv(sub, st)]
        return self.rv(sub, st)

    def container_of(self, v, rec):
        """A pointer back from a field to the record it is in."""
        if v[0] == "addr" and v[1][0] == "idx" and v[1][1][0] == "fld" and isc(v[1][2]) and v[1][2][1] < 0:
            f = v[1][1]
            if self.locrec.get(f) == rec:
                for x in (self.prog.records.get(rec) or {}).get("fields", ()):
                    if x["n"] == f[2] and x["off"] // 8 == -v[1][2][1]:
                        return addr(f[1])
        return v

    def e_un(self, e, st):
        op = e["op"]
        if op == "&":
            res = self.lv(e["e"], st)
            z = (e["e"].get("t") or {}).get("z")
            if z:
                for _, l in res:
                    self.objects[l] = z
            return [(s, addr(l)) for s, l in res]
        if op == "*":
            return [(s, self.recval(s, l)) for s, l in self.lv(e, st)]
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(e["e"], st):
                s = s.copy()
                old = self.lookup(s, l)
                new = mk_add(old, self.scaled(e["e"], ("c", 1 if op == "++" else -1)))
                self.rule.load(self, s, l, e)
                self.assign(s, l, new, e)
                out.append((s, old if e.get("post") else new))
            return out
        out = []
        if op == "!":
            if self.is_logic(e["e"]):
                t, f = self.cond(e, st)
                return [(s, C1) for s in t] + [(s, C0) for s in f]
            return [(s, mk_not(v)) for s, v in self.rv(e["e"], st)]
        for s, v in self.rv(e["e"], st):
            if op == "-":
                out.append((s, mk_sub(C0, v)))
            elif op == "+":
                out.append((s, v))
            elif op == "~":
                out.append((s, ("c", ~v[1]) if isc(v) else ("op", "~", v, C0)))
            else:
                out.append((s, ("op", op, v, C0)))
        return out

    def is_logic(self, e):
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            return True
        if k == "un" and e["op"] == "!":
            return self.is_logic(e["e"])
        return False

    ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}

    def do_assign(self, e, st):
        """Assignment operators: list of (state, loc)."""
        op = e["op"]
        out = []
        rhs = None
        if op in ("&=", "|=") and ((e["a"].get("t") or {}).get("k") == "bool" or self.is_bool(e["b"])):
            t, f = self.cond(e["b"], st)
            rhs = [(s, C1) for s in t] + [(s, C0) for s in f]
        # C++17: the right operand is sequenced first
        for s, v in self.rv(e["b"], st) if rhs is None else rhs:
            for s2, l in self.lv(e["a"], s):
                s2 = s2.copy()
                if op != "=":
                    self.rule.load(self, s2, l, e)
                    v2 = mk_op(op[:-1], self.lookup(s2, l), self.scaled(e["a"], v) if op in ("+=", "-=") else v)
                    t = e["a"].get("t") or {}
                    if getattr(self.rule, "narrow", False) and t.get("k") == "int" and t.get("z", 8) < 4 and not isc(v2):
                        v2 = ("conv", t["z"], bool(t.get("sg")), v2)
                else:
                    v2 = v
                self.assign(s2, l, v2, e)
                out.append((s2, l))
        return out

    @staticmethod
    def is_bool(e):
        while e is not None and e["k"] in ("ewc", "cast", "bind", "ld", "mat"):
            if (e.get("t") or {}).get("k") == "bool":
                return True
            e = e["e"]
        return e is not None and (e["k"] == "bin" and e["op"] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") or
                                  (e.get("t") or {}).get("k") == "bool")

    def e_bin(self, e, st):
        op = e["op"]
        if op in self.ASSIGN:
            return [(s, self.lookup(s, l)) for s, l in self.do_assign(e, st)]
        if op in ("&&", "||"):
            t, f = self.cond(e, st)
            return [(s, C1) for s in t] + [(s, C0) for s in f]
        if op == ",":
            out = []
            for s, _ in self.rv(e["a"], st):
                out += self.rv(e["b"], s)
            return out
        out = []
        for s, a in self.rv(e["a"], st):
            for s2, b in self.rv(e["b"], s):
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    out.append((s2, mk_cmp(op, a, b)))
                else:
                    self.on_arith(s2, e, a, b)
                    if op in "+-" and getattr(self.rule, "bytes", False):
                        za, zb = self.pointee(e["a"]), self.pointee(e["b"])
                        if za and zb:
                            d = mk_op(op, a, b)
                            out.append((s2, d if za == 1 else mk_op("/", d, ("c", za))))
                            continue
                        if za:
                            b = self.scaled(e["a"], b)
                        elif zb:
                            a = self.scaled(e["b"], a)
                    out.append((s2, mk_op(op, a, b)))
        return out

    @staticmethod
    def pointee(e):
        """Bytes an expression of pointer type points to, None for anything else."""
        t = e.get("t") or {}
        if t.get("k") == "ptr":
            return (t.get("p") or {}).get("z") or 1
        return None

    def scaled(self, e, v):
        """Pointer offsets count bytes for rules that ask for it."""
        if not getattr(self.rule, "bytes", False):
            return v
        z = self.pointee(e)
        return v if not z or z == 1 else mk_op("*", v, ("c", z))

    def on_arith(self, st, e, a, b):
        h = getattr(self.rule, "arith", None)
        if h:
            h(self, st, e, a, b)

    def e_cond(self, e, st):
        t, f = self.cond(e["c"], st)
        out = []
        for s in t:
            out += self.rv(e["a"], s)
        for s in f:
            out += self.rv(e["b"], s)
        return out

    def e_elvis(self, e, st):
        out = []
        for s, v in self.rv(e["a"], st):
            a = self.assume(s, v, True, e)
            if a is not None:
                out.append((a, v))
            b = self.assume(s, v, False, e)
            if b is not None:
                out += self.rv(e["b"], b)
        return out

    def e_lambda(self, e, st):
        s = st
        for cp in e["caps"]:
            if "init" in cp:
                for s2, v in self.rv(cp["init"], s)[:1]:
                    s = s2.copy()
                    self.assign(s, ("var", cp["d"]), v, None, init=True)
        return [(s, ("lam", e["fn"], self.thisv[-1] if self.thisv else ("sym", "this")))]

    def e_throw(self, e, st):
        outs = [(st, None)]
        if e.get("e"):
            outs = self.rv(e["e"], st)
            ty = (e["e"].get("t") or {}).get("s", "?")
        else:
            ty = self.excstack[-1] if self.excstack else "?"
        for s, v in outs:
            s = s.copy()
            s.note(self.curfile(), e.get("l", 0), "throw " + ty)
            self.thr.append((s, ty))
        return []

    def e_new(self, e, st):
        out = []
        sts = [(st, None)]
        if e.get("n"):
            sts = self.rv(e["n"], st)
        for s, _ in sts:
            s = s.copy()
            ptr = self.fresh(s, "new", e["l"])
            loc = ("deref", ptr)
            s.facts[mk_eq(ptr, C0)] = False
            if e.get("e"):
                out += [(s2, ptr) for s2 in self.construct(e["e"], s, loc)]
            else:
                out.append((s, ptr))
        return out

    def e_delete(self, e, st):
        out = []
        for s, v in self.rv(e["e"], st):
            call = self.mkcall("operator delete", None, None, None, [v], e)
            r = self.rule.call(self, s, call)
            out.append((s, C0))
        return out

    def e_stmtexpr(self, e, st):
        o = self.exec(e["s"], st)
        return [(s, C0) for s in o.norm]

    def e_stdil(self, e, st):
        return self.rv(e["e"], st)

    def e_ilist(self, e, st):
        t = e.get("t") or {}
        if t.get("k") in ("rec", "arr"):
            loc = ("var", "ilist@%s:%d" % (self.curfile(), e.get("l", 0)))
            return [(s, ("recv", loc)) for s in self.construct(e, st, loc)]
        if e["a"]:
            return self.rv(e["a"][0], st)
        return [(st, C0)]

    def e_arrcopy(self, e, st):
        return self.rv(e["e"], st)

    def e_other(self, e, st):
        sts = [st]
        for a in e.get("a") or []:
            if isinstance(a, dict):
                sts = [s2 for s in sts for s2, _ in self.rv(a, s)]
        out = []
        for s in sts:
            s = s.copy()
            out.append((s, self.fresh(s, e.get("cls", e["k"]), e.get("l", 0))))
        return out

    # ---- lvalues
    def lv(self, e, st):
        """Locations: list of (state, loc)."""
        k = e["k"]
        if k == "ref":
            if e.get("dk") == "fn":
                return [(st, ("fn", e["fn"]))]
            if e.get("dk") == "binding" and e.get("b"):
                return self.lv(e["b"], st)
            d = e.get("d")
            if d is None:
                return [(st, ("var", e.get("n", "?")))]
            dt = e.get("dt") or {}
            if dt.get("k") in ("ref", "rref"):
                rb = st.env.get(("rb", d))
                if rb is not None:
                    return [(st, rb)]
                return [(st, ("deref", ("sym", d)))]
            return [(st, ("var", d))]
        if k == "mem":
            if e.get("dk") == "glob":
                return [(st, ("var", e["d"]))]
            if e.get("dk") == "fn":
                return [(st, ("fn", e["fn"]))]
            out = []
            if e["arrow"]:
                for s, v in self.rv(e["e"], st):
                    b = deref(v)
                    out.append((s, self.member(s, b, e["n"])))
            else:
                for s, b in self.lv(e["e"], st):
                    out.append((s, self.member(s, b, e["n"])))
            if e.get("rec"):
                for s, l in out:
                    self.locrec[l] = e["rec"]
            # reference-typed fields
            ft = e.get("t")
            return [(s, self.reffield(s, l, e)) for s, l in out]
        if k == "idx":
            out = []
            for s, b in self.rv(e["e"], st):
                for s2, i in self.rv(e["i"], s):
                    self.on_index(s2, e, b, i)
                    i = self.scaled(e["e"], i)
                    if b[0] == "s":
                        out.append((s2, ("idx", ("str", b[1]), i)))
                    else:
                        out.append((s2, deref(mk_add(b, i)) if b[0] != "addr" else
                                    (mk_idx(b[1][1], mk_add(b[1][2], i)) if b[1][0] == "idx" else
                                     (b[1] if i == C0 else ("idx", b[1], i)))))
            return out
        if k == "un":
            if e["op"] == "*":
                return [(s, deref(v)) for s, v in self.rv(e["e"], st)]
            if e["op"] in ("++", "--"):
                out = []
                for s, l in self.lv(e["e"], st):
                    s = s.copy()
                    self.assign(s, l, mk_add(self.lookup(s, l), self.scaled(e["e"], ("c", 1 if e["op"] == "++" else -1))), e)
                    out.append((s, l))
                return out
        if k == "bin":
            if e["op"] in self.ASSIGN:
                return self.do_assign(e, st)
            if e["op"] == ",":
                out = []
                for s, _ in self.rv(e["a"], st):
                    out += self.lv(e["b"], s)
                return out
        if k == "cond":
            t, f = self.cond(e["c"], st)
            out = []
            for s in t:
                out += self.lv(e["a"], s)
            for s in f:
                out += self.lv(e["b"], s)
            return out
        if k == "call":
            out = []
            for s, v in self.rv(e, st):
                rt = e.get("t") or {}
                if v[0] == "recv":
                    out.append((s, v[1]))
                elif v[0] == "addr":
                    out.append((s, v[1]))
                else:
                    out.append((s, ("deref", v) if not (v[0] == "lam") else ("val", v)))
            return out
        if k == "mat":
            loc = ("var", e["id"])
            out = []
            inner = e["e"]
            dtor = None
            x = inner
            while x["k"] in ("bind", "ewc"):
                if x["k"] == "bind":
                    dtor = x.get("dtor")
                x = x["e"]
            for s in self.construct(inner, st, loc):
                out.append((s, loc))
            if dtor and not e.get("ext") and self.cleanups is not None:
                self.cleanups.append((dtor, inner.get("t"), loc))
            return out
        if k == "cast":
            return self.lv(e["e"], st)
        if k in ("ewc",):
            saved = self.cleanups
            self.cleanups = []
            res = self.lv(e["e"], st)
            cl = self.cleanups
            self.cleanups = saved
            out = []
            for s, l in res:
                for s2 in self.run_cleanups([s], cl, e):
                    out.append((s2, l))
            return out
        if k in ("bind",):
            return self.lv(e["e"], st)
        if k == "str":
            return [(st, ("str", e.get("v", "")))]
        if k == "this":
            return [(s, deref(v)) for s, v in self.rv(e, st)]
        if k == "ld":
            return [(s, deref(v)) for s, v in self.rv(e, st)]
        out = []
        loc = ("var", "tmp@%s:%d" % (self.curfile(), e.get("l", 0)))
        for s in self.construct(e, st, loc):
            out.append((s, loc))
        return out

    def on_index(self, st, e, b, i):
        h = getattr(self.rule, "index", None)
        if h:
            h(self, st, e, b, i)

    def member(self, st, base, name):
        return ("fld", base, name)

    def reffield(self, st, loc, e):
        rb = st.env.get(("rb", loc))
        return rb if rb is not None else loc

    # ---- construction of objects in place
    def construct(self, e, st, loc):
        """Initialise loc from e: list of states."""
        k = e["k"]
        if k in ("ewc",):
            saved = self.cleanups
            self.cleanups = []
            res = self.construct(e["e"], st, loc)
            cl = self.cleanups
            self.cleanups = saved
            return self.run_cleanups(res, cl, e)
        if k in ("bind",):
            return self.construct(e["e"], st, loc)
        if k == "cast" and e["e"]["k"] in ("ctor", "bind", "ewc") and (e.get("t") or {}).get("k") == "rec":
            return self.construct(e["e"], st, loc)
        if k == "ctor":
            return self.do_ctor(e, st, loc)
        if k == "ilist":
            t = e.get("t") or {}
            states = [st.copy()]
            if t.get("k") == "rec":
                r = self.prog.records.get(t.get("r"))
                names = [f["n"] for f in (r or {}).get("fields", [])]
                nb = len((r or {}).get("bases", []))
                for i, a in enumerate(e["a"]):
                    new = []
                    for s in states:
                        if i < nb:
                            new += self.construct(a, s, loc)
                        elif i - nb < len(names):
                            new += self.construct(a, s, ("fld", loc, names[i - nb]))
                        else:
                            new += [s2 for s2, _ in self.rv(a, s)]
                    states = new
                return states
            if t.get("k") == "arr":
                for s in states:
                    self.kill_subtree(s, loc)
                    if e.get("fill"):
                        s.env[loc] = C0
                for i, a in enumerate(e["a"]):
                    states = [s2 for s in states for s2 in self.construct(a, s, ("idx", loc, ("c", i)))]
                return states
        out = []
        for s, v in self.rv(e, st):
            s = s.copy()
            self.assign(s, loc, v, e, init=True)
            out.append(s)
        return out

    def do_ctor(self, e, st, loc):
        name = e.get("n", "?")
        fn = self.prog.resolve(e["fn"], self.cur()["unit"] if self.cur() else None) if e.get("fn") else None
        if e.get("cpmv") and (fn is None or fn.get("implicit") or not fn.get("b") or e.get("elide")):
            out = []
            a = e["args"][0]
            if e.get("elide") and a["k"] in ("mat",):
                return self.construct(a["e"], st, loc)
            for s, l in self.lv(a, st):
                s = s.copy()
                self.assign(s, loc, ("recv", l), e, init=True)
                self.rule_note_ctor(s, e, loc, [("addr", l)])
                out.append(s)
            return out
        out = []
        for s, args in self.eval_args(e, st):
            call = self.mkcall(name, e.get("fn"), fn, loc, args, e)
            r = self.rule.call(self, s, call)
            if r is not None:
                for kind, s2, v in r:
                    if kind == "ret":
                        out.append(s2)
                    elif kind == "throw":
                        self.thr.append((s2, v))
                continue
            if fn is not None and self.can_inline(fn):
                for s2, _ in self.inline(fn, s, addr(loc), args, e):
                    out.append(s2)
                continue
            s = s.copy()
            self.kill_subtree(s, loc)
            s.env.pop(loc, None)
            r = self.lib_ctor(s, call, loc)
            if r:
                out += r
            else:
                t = e.get("t") or {}
                if t.get("k") == "rec" and not self.prog.records.get(t.get("r"), {}).get("mine"):
                    s.env[loc] = ("obj", base(name), tuple(x for x in args), e["l"]) if args else \
                        ("obj", base(name), (), e["l"])
                    self.logmod(loc)
                out.append(s)
        return out

    def rule_note_ctor(self, s, e, loc, args):
        h = getattr(self.rule, "copyctor", None)
        if h:
            h(self, s, e, loc, args)

    def lib_ctor(self, s, call, loc):
        n = call.name
        if n.startswith("std::unique_ptr"):
            v = call.args[0] if call.args else C0
            if v[0] == "addr" and call.argn and call.argn[0].get("t", {}).get("k") == "rec":
                # move from another unique_ptr
                src = v[1]
                p = self.lookup(s, ("fld", src, "$p"))
                s.env[("fld", loc, "$p")] = p
                s.env[("fld", src, "$p")] = C0
                return [s]
            s.env[("fld", loc, "$p")] = v
            self.logmod(("fld", loc, "$p"))
            return [s]
        return None

    # ---- calls
    def mkcall(self, name, usr, fn, obj, args, node):
        cl = Call()
        cl.name, cl.usr, cl.fn, cl.obj, cl.args, cl.node = name, usr, fn, obj, args, node
        cl.line = node.get("l", 0)
        cl.file = self.curfile()
        cl.rt = node.get("t") or {}
        cl.argn = node.get("args") or []
        cl.stack = [f["n"] for f in self.stack]
        return cl

    def eval_args(self, e, st, skip=0):
        """Cartesian evaluation: list of (state, [terms])."""
        pts = e.get("pt") or []
        outs = [(st, [])]
        for i, a in enumerate(e.get("args") or []):
            byref = i < len(pts) and pts[i] and pts[i].get("k") in ("ref", "rref")
            new = []
            for s, vs in outs:
                if byref:
                    for s2, l in self.lv(a, s):
                        new.append((s2, vs + [self.refval(s2, l)]))
                else:
                    t = a.get("t") or {}
                    if t.get("k") == "rec" and a["k"] in ("ctor", "ilist", "bind", "ewc", "call"):
                        loc = ("var", "arg%d@%s:%d" % (i, self.curfile(), a.get("l", 0)))
                        if a["k"] == "call":
                            for s2, v in self.rv(a, s):
                                new.append((s2, vs + [v]))
                        else:
                            for s2 in self.construct(a, s, loc):
                                new.append((s2, vs + [("recv", loc)]))
                    else:
                        for s2, v in self.rv(a, s):
                            new.append((s2, vs + [v]))
            outs = self.dedupe_vals(new)
        return outs

    def refval(self, st, l):
        return addr(l) if l[0] != "str" else ("addr", l)

    def dedupe_vals(self, outs):
        if len(outs) < 2:
            return outs
        seen, res = set(), []
        for s, v in outs:
            k = (s.key(), tuple(v) if isinstance(v, list) else v)
            if k not in seen:
                seen.add(k)
                res.append((s, v))
        return res

    def can_inline(self, fn):
        if not fn.get("b"):
            return False
        if any(f["u"] == fn["u"] for f in self.stack):
            return False
        if len(self.stack) > self.rule.max_depth:
            return False
        if self.rule.opaque(fn):
            return False
        return True

    def e_ctor(self, e, st):
        loc = ("var", "obj@%s:%d:%s" % (self.curfile(), e.get("l", 0), e.get("n", "")[:40]))
        return [(s, ("recv", loc)) for s in self.do_ctor(e, st, loc)]

    def e_call(self, e, st):
        self.stats["calls"] += 1
        name = e.get("n")
        unit = self.cur()["unit"] if self.cur() else None
        # object expression
        objs = [(st, None)]
        if e.get("obj") is not None:
            if e.get("arrow"):
                objs = [(s, deref(v)) for s, v in self.rv(e["obj"], st)]
            else:
                objs = self.lv(e["obj"], st)
        fnptrs = None
        if name is None and e.get("fe") is not None:
            objs = [(s, ("callee", v)) for s, v in self.rv(e["fe"], st)]
        out = []
        for s, obj in objs:
            for s2, args in self.eval_args(e, s):
                out += self.call1(e, s2, name, obj, args, unit)
        return self.dedupe_vals(out)

    def call1(self, e, st, name, obj, args, unit):
        usr = e.get("fn")
        this = None
        fv = None
        if obj is not None and obj[0] == "callee":
            fv = obj[1]
            if fv[0] == "recv":
                fv = self.lookup(st, fv[1])
            obj = None
            if fv[0] == "fnptr":
                usr = fv[1]
                f = self.prog.resolve(usr, unit)
                name = f["n"] if f else usr
            else:
                name = "<indirect>"
        fn = self.prog.resolve(usr, unit) if usr else None
        if obj is not None:
            this = addr(obj)
        if e.get("lam") and obj is not None:
            lv = obj[1] if obj[0] == "val" else self.lookup(st, obj)
            if lv[0] == "lam":
                fn = self.prog.resolve(lv[1], unit)
                this = lv[2]
            elif self.thisv:
                this = self.thisv[-1]
        call = self.mkcall(name or "?", usr, fn, obj, args, e)
        if fv is not None and fv[0] != "fnptr":
            call.obj = fv
        st = st.copy()
        r = self.rule.call(self, st, call)
        if r is not None:
            out = []
            for kind, s2, v in r:
                if kind == "ret":
                    out.append((s2, v))
                elif kind == "throw":
                    self.thr.append((s2, v))
                else:
                    self.noret.append((s2, call))
            return out
        mt = self.rule.may_throw(call)
        if mt:
            s3 = st.copy()
            s3.note(self.curfile(), e.get("l", 0), "%s throws %s" % (name, mt))
            self.thr.append((s3, mt))
        # virtual dispatch: inline only when there is a single overrider
        if fn is not None and e.get("virt"):
            ov = self.overriders(fn)
            if len(ov) > 1:
                fn = None
        if fn is not None and self.can_inline(fn):
            out = []
            for s2, v in self.inline(fn, st, this, args, e):
                self.rule.post(self, s2, call, v)
                out.append((s2, v))
            return out
        res = self.libcall(st, call, e)
        if res is None:
            res = self.opaque_call(st, call, e)
        for s2, v in res:
            self.rule.post(self, s2, call, v)
        return res

    def overriders(self, fn):
        if not hasattr(self.prog, "_ov"):
            ov = {}
            for r in self.prog.records.values():
                for m in r.get("methods", []):
                    for o in m.get("ov", []):
                        ov.setdefault(o, set()).add(m["u"])
            self.prog._ov = ov
        res, work = set(), [fn["u"]]
        while work:
            u = work.pop()
            if u not in res:
                res.add(u)
                work += list(self.prog._ov.get(u, ()))
        return res

    def opaque_call(self, st, call, e):
        if e.get("noret") or call.name in ("__builtin_unreachable", "__builtin_trap"):
            self.noret.append((st, call))
            return []
        pts = e.get("pt") or []
        pure = (e.get("cm") or call.name in PURE_FREE)
        name = base(call.name)
        if not pure:
            for i, a in enumerate(call.args):
                pt = pts[i] if i < len(pts) else ((call.argn[i].get("t") or {}) if i < len(call.argn) else {})
                if pt and pt.get("k") in ("ref", "ptr", "rref") and not (pt.get("p") or {}).get("c"):
                    if a[0] == "addr" and a[1][0] not in ("str", "fn"):
                        l = a[1]
                        if l[0] == "idx":
                            l = l[1]
                        self.havoc(st, l, call.line)
                    elif a[0] not in ("c", "s", "addr", "fnptr", "lam", "f"):
                        if (pt.get("p") or {}).get("k") != "fn":
                            self.havoc(st, deref(a), call.line)
            if call.obj is not None and isinstance(call.obj, tuple) and call.name != "<indirect>" and not e.get("cm"):
                self.havoc(st, call.obj, call.line)
        rt = e.get("t") or {}
        if rt.get("k") == "void":
            return [(st, C0)]
        if pure or (e.get("cm")):
            vers = []
            objt = ()
            if call.obj is not None:
                objt = call.obj
                o = call.obj
                while True:
                    x = st.env.get(("ver", o))
                    if x:
                        vers.append(x)
                    x = st.env.get(o)
                    if x is not None:
                        vers.append(x)
                    if o[0] in ("fld", "idx"):
                        o = o[1]
                    else:
                        break
            av = []
            for a in call.args:
                if a[0] == "addr" and a[1][0] != "str":
                    x = self.lookup(st, a[1])
                    if call.name in ("std::min", "std::max"):
                        a = x
                    else:
                        a = ("addr", a[1], x) if x[0] not in ("ld",) else a
                    v = st.env.get(("ver", root(a[1]) if a[0] == "addr" else a))
                    if v:
                        a = a + (v,)
                av.append(a)
            if call.name in ("std::min", "std::max"):
                return self.minmax(st, call, av)
            kind = "sizeterm" if name.endswith(("::size", "::length")) or name in ("strlen",) else "call"
            return [(st, (kind, name, objt, tuple(vers)) + tuple(av))]
        return [(st, self.fresh(st, name, call.line))]

    def algorithm(self, st, call, e, name):
        """A standard algorithm runs its lambda for any number of elements, in order."""
        lam = [a for a in call.args if isinstance(a, tuple) and a[0] == "lam"][-1]
        fn = self.prog.resolve(lam[1], self.cur()["unit"])
        if fn is None or not fn.get("b") or not self.can_inline(fn) or len(fn["p"]) != 1:
            return None
        pred = ALGOS[name]
        node = {"k": "algo", "l": call.line, "fn": fn, "b": fn["b"], "args": e.get("args") or []}
        ibeg = getattr(self.rule, "iter_begin", None)
        iend = getattr(self.rule, "iter_end", None)
        idone = getattr(self.rule, "loop_done", None)
        if getattr(self.rule, "loop_begin", None):
            st = st.copy()
            self.rule.loop_begin(self, st, node)
        consts = self.assigned_consts(fn)
        elem = ("deref", ("sym", "elem@%s:%d" % (self.curfile(), call.line)))
        outs, exits = [], []
        mods = set()
        for attempt in range(5):
            outs, exits = [], [st]
            log = set()
            self.modlogs.append(log)
            thr0, self.thr = self.thr, []
            seen, pending, rounds = set(), [st], 0
            while pending and rounds < 16:
                rounds += 1
                new = []
                for x in pending:
                    self.loopnode = node
                    h = self.widen(x, st, mods | log, call.line, consts)
                    self.kill_subtree(h, elem)
                    self.havoc(h, elem, call.line)
                    k = h.key()
                    if k not in seen:
                        seen.add(k)
                        new.append(h)
                pending = []
                if rounds > 8:
                    new = self.join(new)
                for h in new:
                    h = h.copy()
                    if ibeg:
                        ibeg(self, h, node)
                    for s2, v in self.inline(fn, h, lam[2], [("addr", elem)], e):
                        if pred is None:
                            if iend:
                                iend(self, s2, node, "next")
                            pending.append(s2)
                            continue
                        stop, res = pred
                        for truth in (True, False):
                            s3 = self.assume(s2, v, truth, e)
                            if s3 is None:
                                continue
                            s3 = s3.copy()
                            if iend:
                                iend(self, s3, node, "break" if truth == stop else "next")
                            if truth == stop:
                                outs.append((s3, res))
                            else:
                                pending.append(s3)
                pending = self.dedupe(pending)
                exits += pending
            self.modlogs.pop()
            thrown, self.thr = self.thr, thr0
            if log <= mods:
                break
            mods |= log
        self.thr += thrown
        for m in mods:
            self.logmod(m)
        exits = [x.copy() for x in self.dedupe(exits)]
        if idone:
            for x in exits:
                idone(self, x, node)
        end = {"std::all_of": C1, "std::none_of": C1, "std::any_of": C0}.get(name)
        res = [(x, end if end is not None else self.fresh(x, base(name), call.line)) for x in exits]
        for x, v in outs:
            res.append((x, v if v is not None else self.fresh(x, base(name), call.line)))
        return res

    def minmax(self, st, call, av):
        out = []
        ref = (call.rt or {}).get("k") in ("ref", "rref") or True
        lt = mk_lt(av[0], av[1]) if call.name == "std::min" else mk_lt(av[1], av[0])
        a = self.assume(st, lt, True, call.node)
        b = self.assume(st, lt, False, call.node)
        loc = ("var", "mm@%s:%d" % (self.curfile(), call.line))
        for s, v in ((a, av[0]), (b, av[1])):
            if s is not None:
                s = s.copy()
                s.env[loc] = v
                self.logmod(loc)
                out.append((s, ("addr", loc)))
        return out

    def libcall(self, st, call, e):
        n = call.name
        b = base(n)
        if b in ("std::move", "std::forward", "std::addressof", "std::as_const", "std::__addressof"):
            return [(st, call.args[0])]
        if call.obj is not None and isinstance(call.obj, tuple) and \
                b.startswith(("std::vector::", "std::basic_string::")):
            r = self.container(st, call, e, b.split("::")[-1])
            if r is not None:
                return r
        if b in ALGOS and any(a[0] == "lam" for a in call.args if isinstance(a, tuple)):
            r = self.algorithm(st, call, e, b)
            if r is not None:
                return r
        if n in ("std::min", "std::max") and len(call.args) == 2:
            av = [self.lookup(st, a[1]) if a[0] == "addr" else ("ld", deref(a), 0) for a in call.args]
            return self.minmax(st, call, av)
        if b.startswith("std::unique_ptr::") and call.obj is not None:
            m = b.split("::")[-1]
            pl = ("fld", call.obj, "$p")
            p = self.lookup(st, pl)
            if m in ("get", "operator->"):
                return [(st, p)]
            if m == "operator*":
                return [(st, p if p[0] != "addr" else p)]
            if m == "operator bool":
                return [(st, mk_not(mk_eq(p, C0)))]
            if m == "release":
                st.env[pl] = C0
                self.logmod(pl)
                return [(st, p)]
            if m in ("reset", "operator="):
                v = call.args[0] if call.args else C0
                if m == "operator=" and v[0] == "addr":
                    src = v[1]
                    v = self.lookup(st, ("fld", src, "$p"))
                    st.env[("fld", src, "$p")] = C0
                h = getattr(self.rule, "uniq_delete", None)
                if h:
                    h(self, st, call.obj, p, call)
                st.env[pl] = v
                self.logmod(pl)
                return [(st, ("addr", call.obj))]
        if b in ("std::exchange",) and call.args and call.args[0][0] == "addr":
            l = call.args[0][1]
            old = self.lookup(st, l)
            v = call.args[1]
            if v[0] == "addr" and len(call.argn) > 1 and (e.get("pt") or [{}, {}])[1].get("k") in ("ref", "rref"):
                v = self.lookup(st, v[1])
            self.assign(st, l, v, e)
            return [(st, old)]
        if b == "std::swap" and len(call.args) == 2 and all(a[0] == "addr" for a in call.args):
            l1, l2 = call.args[0][1], call.args[1][1]
            v1, v2 = self.lookup(st, l1), self.lookup(st, l2)
            self.assign(st, l1, v2, e)
            self.assign(st, l2, v1, e)
            return [(st, C0)]
        if b.endswith("::operator=") and call.obj is not None and len(call.args) == 1 and e.get("opcall", "=") == "=":
            # copy / move assignment of a library or defaulted repo type
            v = call.args[0]
            if v[0] == "addr" and v[1][0] not in ("str",):
                self.assign(st, call.obj, ("recv", v[1]), e)
            else:
                self.assign(st, call.obj, ("obj", b, (v,), call.line), e)
            return [(st, addr(call.obj))]
        if b.startswith("std::atomic") or b.startswith("std::__atomic"):
            m = b.split("::")[-1]
            if call.obj is not None and m in ("load",) or m.startswith("operator ") and m not in ("operator ++",):
                self.rule.load(self, st, call.obj, e)
                return [(st, self.lookup(st, call.obj))]
        if b in ("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest"):
            t = e.get("t") or {}
            if t.get("k") == "int" and t.get("z"):
                bits = t["z"] * 8
                hi = (1 << (bits - 1)) - 1 if t.get("sg") else (1 << bits) - 1
                lo = -(1 << (bits - 1)) if t.get("sg") else 0
                return [(st, ("c", hi if b.endswith("max") else lo))]
        return None

    def container(self, st, call, e, m):
        """std::vector / std::string: size and element locations."""
        o = call.obj
        sz = ("fld", o, "$size")
        if m in ("size", "length"):
            return [(st, self.lookup(st, sz))]
        if m == "empty":
            return [(st, mk_eq(self.lookup(st, sz), C0))]
        if m in ("data", "c_str", "begin", "cbegin") and m not in ("begin", "cbegin"):
            return [(st, addr(mk_idx(o, C0)))]
        if m in ("operator[]", "at") and call.args and isinstance(call.args[0], tuple):
            if m == "operator[]":
                self.on_index(st, e, addr(mk_idx(o, C0)), call.args[0])
            return [(st, addr(mk_idx(o, call.args[0])))]
        if m == "front":
            return [(st, addr(mk_idx(o, C0)))]
        if m == "resize" and call.args:
            self.assign(st, sz, call.args[0], e)
            return [(st, C0)]
        if m in ("assign", "append") and len(call.args) == 2 and call.fn is not None and len(call.fn["p"]) == 2 and \
                ((call.fn["p"][1].get("t") or {}).get("k") == "int"):
            k = (call.fn["p"][0].get("t") or {}).get("k")
            n = call.args[1] if k == "ptr" else call.args[0] if k == "int" else None
            if n is not None and isinstance(n, tuple):
                if m == "append":
                    n = mk_add(self.lookup(st, sz), n)
                self.kill_subtree(st, o)
                self.assign(st, sz, n, e)
                return [(st, addr(o))]
        if m == "clear":
            self.kill_subtree(st, o)
            self.assign(st, sz, C0, e)
            return [(st, C0)]
        if m in ("push_back", "emplace_back"):
            self.assign(st, sz, mk_add(self.lookup(st, sz), C1), e)
            return [(st, C0)]
        return None

    def inline(self, fn, st, this, args, node, root=False):
        """Execute fn from st: list of (state, value)."""
        self.stats["inlined"] += 1
        self.stats["functions"].add(fn["u"])
        st = st.copy()
        if node is not None and not fn.get("lam"):
            st.note(self.curfile(), node.get("l", 0), "call " + fn["n"])
        for i, p in enumerate(fn["p"]):
            v = args[i] if i < len(args) else ("sym", "p:" + p["n"])
            k = (p["t"] or {}).get("k")
            if k in ("ref", "rref"):
                st.env[("rb", p["d"])] = v[1] if v[0] == "addr" else (v[1] if v[0] == "recv" else ("deref", v))
            else:
                self.assign(st, ("var", p["d"]), v, None, init=True)
        self.stack.append(fn)
        if this is None:
            this = self.thisv[-1] if (fn.get("lam") and self.thisv) else ("sym", "this")
        self.thisv.append(this)
        savedthr = self.thr
        savedcl = self.cleanups
        self.cleanups = None
        self.thr = []
        states = [st]
        for ini in fn.get("inits") or []:
            new = []
            for s in states:
                if "m" in ini:
                    loc = ("fld", deref(this), ini["m"])
                    ft = self.field_type(fn.get("rec"), ini["m"])
                    if ft and ft.get("k") in ("ref", "rref"):
                        for s2, l in self.lv(ini["e"], s):
                            s2 = s2.copy()
                            s2.env[("rb", loc)] = l
                            new.append(s2)
                    else:
                        new += self.construct(ini["e"], s, loc)
                else:
                    new += self.construct(ini["e"], s, deref(this))
            states = new
        rets = []
        if fn.get("b"):
            o = Out()
            for s in states:
                o2 = self.exec(fn["b"], s)
                o.norm += o2.norm
                o.ret += o2.ret
            rets = o.ret + [(s, C0) for s in o.norm]
        else:
            rets = [(s, C0) for s in states]
        if fn.get("dtor"):
            # member destructors
            r = self.prog.records.get(fn.get("rec")) or {}
            new = []
            for s, v in rets:
                for s2 in self.destroy_members(s, r, deref(this), fn.get("el", 0)):
                    new.append((s2, v))
            rets = new
        thrown = self.thr
        self.thr = savedthr
        self.cleanups = savedcl
        self.stack.pop()
        self.thisv.pop()
        if fn.get("nothrow"):
            for s, ex in thrown:
                self.noret.append((s, None))
            thrown = []
        for s, ex in thrown:
            self.cleanup_params(s, fn)
        if len(thrown) > self.rule.limit:
            g = {}
            for s, ex in thrown:
                g.setdefault((s.ts, ex), []).append(s)
            thrown = [(self.join1(x), ex) for (_, ex), x in g.items()]
            self.stats["joins"] += 1
        self.thr += thrown
        res = []
        seen = set()
        for s, v in rets:
            v = self.detach(s, v, fn)
            self.cleanup_params(s, fn)
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                res.append((s, v))
        if len(res) > self.rule.limit:
            res = self.join_vals(res)
        return res

    def detach(self, st, v, fn):
        """A returned record lives in a local of fn: move it to a temp."""
        if v[0] == "recv":
            src = v[1]
            loc = ("var", "ret:" + fn["u"][-60:])
            if src == loc:
                return v
            self.assign(st, loc, v, None, init=True)
            return ("recv", loc)
        return v

    def cleanup_params(self, st, fn):
        for p in fn["p"]:
            l = ("var", p["d"])
            self.kill_subtree(st, l)
            st.env.pop(l, None)
            st.env.pop(("rb", p["d"]), None)

    def field_type(self, rec, name):
        r = self.prog.records.get(rec) or {}
        for f in r.get("fields", []):
            if f["n"] == name:
                return f["t"]
        return None

    # ---------------------------------------------------------- destructors
    def destroy(self, st, ty, loc, dtor, line):
        """Run the destructor of a ty object at loc: list of states."""
        if not ty or ty.get("k") not in ("rec", "arr"):
            return [st]
        if ty.get("k") == "arr":
            return [st]
        r = self.prog.records.get(ty.get("r")) or {}
        st = st.copy()
        self.rule.dtor(self, st, ty, loc, line)
        if ty["s"].startswith("std::unique_ptr<"):
            h = getattr(self.rule, "uniq_delete", None)
            if h:
                h(self, st, loc, self.lookup(st, ("fld", loc, "$p")), None)
        u = r.get("dtor")
        fn = self.prog.resolve(u, self.cur()["unit"] if self.cur() else None) if u else None
        if fn is not None and fn.get("b") and self.can_inline(fn):
            return [s for s, _ in self.inline(fn, st, addr(loc), [], {"l": line})]
        return self.destroy_members(st, r, loc, line)

    def destroy_members(self, st, r, loc, line):
        states = [st]
        if not r.get("mine") or r.get("trivdtor"):
            return states
        for f in reversed(r.get("fields", [])):
            if (f["t"] or {}).get("k") == "rec":
                fr = self.prog.records.get(f["t"].get("r")) or {}
                if not fr.get("trivdtor", False):
                    states = [s2 for s in states for s2 in self.destroy(s, f["t"], ("fld", loc, f["n"]), None, line)]
        for b in r.get("bases", []):
            states = [s2 for s in states for s2 in self.destroy(s, b, loc, None, line)]
        return states

    def needs_dtor(self, ty):
        if not ty or ty.get("k") != "rec":
            return False
        r = self.prog.records.get(ty.get("r")) or {}
        return not r.get("trivdtor", False)

    # ---------------------------------------------------------- statements
    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen, res = {}, []
        for s in states:
            k = s.key()
            if k not in seen:
                seen[k] = 1
                res.append(s)
        if len(res) > self.rule.limit:
            res = self.join(res)
        return res

    def join(self, states):
        """Join states with equal typestate (ESP merge)."""
        self.stats["joins"] += 1
        groups = {}
        for s in states:
            groups.setdefault(s.ts, []).append(s)
        return [self.join1(g) for g in groups.values()]

    def join1(self, g):
        if len(g) == 1:
            return g[0]
        base = g[0].copy()
        chg = set()
        for s in g[1:]:
            for k in list(base.env):
                if k not in s.env or s.env[k] != base.env[k]:
                    if k[0] in ("ver", "fver"):
                        base.env[k] = 12
                        chg.add(k[1])
                    elif k[0] == "rb":
                        del base.env[k]
                    else:
                        base.env[k] = ("sym", "phi:" + repr(k)[-80:])
            for k in s.env:
                if k not in base.env:
                    if k[0] in ("ver", "fver"):
                        base.env[k] = 12
                        chg.add(k[1])
                    elif k[0] != "rb":
                        base.env[k] = ("sym", "phi:" + repr(k)[-80:])
            for f in list(base.facts):
                if s.facts.get(f) != base.facts[f]:
                    del base.facts[f]
        phis = {v for v in base.env.values() if isinstance(v, tuple) and v[0] == "sym" and str(v[1]).startswith("phi:")}
        for f in list(base.facts):
            if contains_any(f, phis):
                del base.facts[f]
        if chg:
            for f in list(base.facts):
                for t in subterms(f):
                    if len(t) > 1 and t[0] == "ld" and (t[1] in chg or any(under(t[1], l) for l in chg if isinstance(l, tuple)) or
                                         t[1][0] == "fld" and t[1][2] in chg):
                        del base.facts[f]
                        break
        return base

    def join_vals(self, outs):
        self.stats["joins"] += 1
        groups = {}
        for s, v in outs:
            groups.setdefault((s.ts, v if isc(v) else None), []).append((s, v))
        res = []
        for (ts, v), g in groups.items():
            j = self.join1([s for s, _ in g])
            if v is None:
                vs = {x for _, x in g}
                v = vs.pop() if len(vs) == 1 else ("sym", "phi:ret")
                self.killsym(j, v) if v[0] == "sym" else None
            res.append((j, v))
        return res

    def exec(self, s, st):
        self.stats["stmts"] += 1
        if self.stats["stmts"] > self.max_stmts:
            from .facts import AnalysisBroken
            raise AnalysisBroken("state explosion in " + " > ".join(f["n"] for f in self.stack))
        o = Out()
        if s is None:
            o.norm.append(st)
            return o
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            o.norm.append(st)
            return o
        m(s, st, o)
        return o

    def exec_many(self, s, states, o):
        """Run s from every state; returns normal states, rest to o."""
        norm = []
        for st in states:
            o2 = self.exec(s, st)
            norm += o2.norm
            o.brk += o2.brk
            o.cont += o2.cont
            o.ret += o2.ret
        return self.dedupe(norm)

    def s_null(self, s, st, o):
        o.norm.append(st)

    def s_block(self, s, st, o):
        self.seq(s["b"], [st], o, s.get("el", s["l"]))

    def seq(self, stmts, states, o, endline):
        scope = []   # (ty, loc)
        for x in stmts:
            if not states:
                break
            states = self.step(x, states, o, scope)
        if scope:
            states = self.unwind(states, scope, endline)
        o.norm += states

    def step(self, x, states, o, scope):
        """One statement inside a scope."""
        savedthr = self.thr
        self.thr = []
        o2 = Out()
        if x["k"] == "decl":
            norm = []
            for st in states:
                norm += self.decl(x, st, scope)
            # scope gains the variables after they are constructed
            newvars = [(v["t"], ("var", v["d"])) for v in x["v"]
                       if not v.get("static") and not v.get("tls") and self.needs_dtor(v["t"])]
            ext = self.ext_temps(x)
            thrown = self.thr
            self.thr = savedthr
            for s2, ex in thrown:
                for s3 in self.unwind([s2], scope, x["l"]):
                    self.thr.append((s3, ex))
            scope += ext + newvars
            scope += [("local", ("var", v["d"])) for v in x["v"] if not v.get("static") and not v.get("tls")
                      and not self.needs_dtor(v["t"])]
            return self.dedupe(norm)
        norm = self.exec_many(x, states, o2)
        thrown = self.thr
        self.thr = savedthr
        if scope:
            for s2, ex in thrown:
                for s3 in self.unwind([s2], scope, x["l"]):
                    self.thr.append((s3, ex))
            o.brk += self.unwind(o2.brk, scope, x["l"])
            o.cont += self.unwind(o2.cont, scope, x["l"])
            for s2, v in o2.ret:
                if v[0] == "recv" and any(root(v[1]) == l for _, l in scope):
                    s2 = s2.copy()
                    loc = ("var", "retval")
                    if v[1] != loc:
                        self.assign(s2, loc, v, None, init=True)
                    v = ("recv", loc)
                    moved = True
                for s3 in self.unwind([s2], scope, x["l"]):
                    o.ret.append((s3, v))
        else:
            self.thr += thrown
            o.brk += o2.brk
            o.cont += o2.cont
            o.ret += o2.ret
        return norm

    def ext_temps(self, x):
        res = []
        for v in x["v"]:
            e = v.get("init")
            while e is not None and e["k"] in ("ewc", "cast", "bind"):
                e = e["e"]
            if e is not None and e["k"] == "mat" and e.get("ext"):
                t = e["e"].get("t")
                if self.needs_dtor(t):
                    res.append((t, ("var", e["id"])))
        return res

    def unwind(self, states, scope, line):
        for ty, loc in reversed(scope):
            if ty == "local":
                for s in states:
                    pass
                states = [self.droplocal(s, loc) for s in states]
                continue
            states = [self.droplocal(s2, loc) for s in states for s2 in self.destroy(s, ty, loc, None, line)]
        return self.dedupe(states)

    def droplocal(self, st, loc):
        s = st.copy()
        self.kill_subtree(s, loc)
        s.env.pop(loc, None)
        s.env.pop(("ver", loc), None)
        s.env.pop(("rb", loc[1]), None)
        return s

    def decl(self, x, st, scope):
        states = [st]
        for v in x["v"]:
            states = [s2 for s in states for s2 in self.declvar(v, s)]
        return states

    def declvar(self, v, st):
        k = (v["t"] or {}).get("k")
        loc = ("var", v["d"])
        e = v.get("init")
        if k in ("ref", "rref") and not v.get("bindings"):
            out = []
            if e is None:
                return [st]
            for s, l in self.lv(e, st):
                s = s.copy()
                s.env[("rb", v["d"])] = l
                out.append(s)
            return out
        if v.get("bindings") and k in ("ref", "rref"):
            out = []
            for s, l in self.lv(e, st):
                s = s.copy()
                s.env[("rb", v["d"])] = l
                for b in v["bindings"]:
                    if b.get("hv"):
                        s = self.declvar(b["hv"], s)[0]
                out.append(s)
            return out
        if v.get("static") and st.env.get(("var", "$static:" + v["d"])):
            return [st]
        st = st.copy()
        self.kill_subtree(st, loc)
        st.env.pop(loc, None)
        if e is None:
            st.env[loc] = ("undef", v["n"])
            self.logmod(loc)
            out = [st]
        else:
            out = self.construct(e, st, loc)
        if v.get("bindings"):
            for b in v["bindings"]:
                if b.get("hv"):
                    out = [s2 for s in out for s2 in self.declvar(b["hv"], s)]
        return out

    def s_decl(self, s, st, o):
        o.norm += self.decl(s, st, [])

    def s_expr(self, s, st, o):
        o.norm += [x for x, _ in self.rv(s["e"], st)]

    def with_init(self, s, st):
        """init-statement and condition variable: states."""
        states = [st]
        scope = []
        if s.get("init"):
            if s["init"]["k"] == "decl":
                states = self.decl(s["init"], st, scope)
                scope += [(v["t"], ("var", v["d"])) for v in s["init"]["v"] if self.needs_dtor(v["t"])]
            else:
                states = [x for x, _ in self.rv(s["init"].get("e"), st)] if s["init"].get("e") else \
                    self.exec(s["init"], st).norm
        if s.get("cvd"):
            states = [s2 for x in states for s2 in self.declvar(s["cvd"], x)]
            if self.needs_dtor(s["cvd"]["t"]):
                scope.append((s["cvd"]["t"], ("var", s["cvd"]["d"])))
        return states, scope

    def scoped(self, o, o2, scope, line):
        """Move o2's outcomes to o, destroying scope's variables."""
        if not scope:
            o.norm += o2.norm
            o.brk += o2.brk
            o.cont += o2.cont
            o.ret += o2.ret
            return
        o.norm += self.unwind(o2.norm, scope, line)
        o.brk += self.unwind(o2.brk, scope, line)
        o.cont += self.unwind(o2.cont, scope, line)
        for s, v in o2.ret:
            for s2 in self.unwind([s], scope, line):
                o.ret.append((s2, v))

    def s_if(self, s, st, o):
        states, scope = self.with_init(s, st)
        savedthr = self.thr
        if scope:
            self.thr = []
        o2 = Out()
        tt, ff = [], []
        for x in states:
            t, f = self.cond(s["c"], x)
            tt += t
            ff += f
        tt, ff = self.dedupe(tt), self.dedupe(ff)
        o2.norm += self.exec_many(s["a"], tt, o2)
        if s.get("b"):
            o2.norm += self.exec_many(s["b"], ff, o2)
        else:
            o2.norm += ff
        o2.norm = self.dedupe(o2.norm)
        if scope:
            thrown = self.thr
            self.thr = savedthr
            for s2, ex in thrown:
                for s3 in self.unwind([s2], scope, s["l"]):
                    self.thr.append((s3, ex))
        self.scoped(o, o2, scope, s["l"])

    def s_switch(self, s, st, o):
        states, scope = self.with_init(s, st)
        body = s["b"]
        stmts = body["b"] if body["k"] == "block" else [body]
        flat = []
        allv = []

        def flatten(x):
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "case":
                    labels.append(("case", x.get("cv"), x.get("cv2"), x))
                    allv.append((x.get("cv"), x.get("cv2")))
                else:
                    labels.append(("default", None, None, x))
                x = x["s"]
            return labels, x
        for x in stmts:
            flat.append(flatten(x))
        o2 = Out()
        entries = []
        for x in states:
            for s2, v in self.rv(s["c"], x):
                entries.append((s2, v))
        cur = []
        hasdef = False
        sscope = []
        for labels, x in flat:
            for kind, cv, cv2, node in labels:
                for s2, v in entries:
                    if kind == "case":
                        if cv2 is not None:
                            a = self.assume(s2, mk_lt(v, ("c", cv)), False, node)
                            a = a and self.assume(a, mk_lt(("c", cv2), v), False, node)
                        else:
                            a = self.assume(s2, mk_eq(v, ("c", cv)), True, node)
                        if a is not None:
                            cur.append(a)
                    else:
                        hasdef = True
                        a = self.switch_none(s2, v, allv, node)
                        if a is not None:
                            cur.append(a)
            cur = self.dedupe(cur)
            if x is not None and cur:
                cur = self.step(x, cur, o2, sscope)
        if not hasdef:
            for s2, v in entries:
                a = self.switch_none(s2, v, allv, s)
                if a is not None:
                    cur.append(a)
        if sscope:
            cur = self.unwind(cur, sscope, s["l"])
        o2.norm = self.dedupe(cur + o2.brk)
        o2.brk = []
        self.scoped(o, o2, scope, s["l"])

    def switch_none(self, st, v, allv, node):
        a = st
        for cv, cv2 in allv:
            if a is None:
                return None
            if cv2 is None:
                a = self.assume(a, mk_eq(v, ("c", cv)), False, None)
        if a is not None:
            a = a.copy()
            a.note(self.curfile(), node.get("l", 0), "default")
        return a

    def s_case(self, s, st, o):
        o2 = self.exec(s["s"], st)
        self.scoped(o, o2, None, s["l"])

    s_default = s_label = s_case

    def s_goto(self, s, st, o):
        from .facts import AnalysisBroken
        raise AnalysisBroken("goto in " + self.cur()["n"])

    def s_break(self, s, st, o):
        o.brk.append(st)

    def s_continue(self, s, st, o):
        o.cont.append(st)

    def s_return(self, s, st, o):
        fn = self.cur()
        if not s.get("e"):
            o.ret.append((st, C0))
            return
        h = getattr(self.rule, "returns", None)
        if (fn["rt"] or {}).get("k") in ("ref", "rref"):
            res = [(x, addr(l)) for x, l in self.lv(s["e"], st)]
        else:
            res = []
            e = s["e"]
            if (fn["rt"] or {}).get("k") == "rec" and e["k"] in ("ctor", "ilist", "ewc", "bind"):
                loc = ("var", "rv:" + fn["u"][-60:])
                for x in self.construct(e, st, loc):
                    res.append((x, ("recv", loc)))
            else:
                res = self.rv(e, st)
        for x, v in res:
            if h:
                x = x.copy()
                h(self, x, v, s)
            o.ret.append((x, v))

    def s_try(self, s, st, o):
        savedthr = self.thr
        self.thr = []
        o2 = self.exec(s["b"], st)
        thrown = self.thr
        self.thr = savedthr
        self.scoped(o, o2, None, s["l"])
        pend = thrown
        for h in s["h"]:
            rest = []
            mine = []
            for s2, ex in pend:
                m = self.catches(h, ex)
                if m:
                    mine.append((s2, ex))
                if m is not True:
                    rest.append((s2, ex))
            pend = rest
            if mine:
                norm = []
                groups = {}
                for s2, ex in mine:
                    groups.setdefault(ex, []).append(s2)
                for ex, sts in groups.items():
                    sts2 = []
                    for s2 in self.dedupe(sts):
                        s2 = s2.copy()
                        s2.note(self.curfile(), h["l"], "catch " + ((h.get("t") or {}).get("s", "...")))
                        if h.get("v"):
                            k = (h["v"]["t"] or {}).get("k")
                            if k in ("ref", "rref"):
                                s2.env[("rb", h["v"]["d"])] = ("deref", ("sym", "exc"))
                        sts2.append(s2)
                    self.excstack.append(ex)
                    norm += self.exec_many(h["b"], sts2, o)
                    self.excstack.pop()
                o.norm += norm
        self.thr += pend
        o.norm = self.dedupe(o.norm)

    def exc_base(self, t):
        r = self.prog.records.get(t)
        if r and r.get("bases"):
            return [b["s"] for b in r["bases"] if b]
        if t in STD_EXC:
            return [STD_EXC[t]]
        return []

    def catches(self, h, ex):
        if h.get("all"):
            return True
        t = (h.get("t") or {})
        if t.get("k") in ("ref", "rref"):
            t = t["p"]
        want = t["s"].replace("const ", "")
        if ex == "*":
            return "maybe"
        seen, work = set(), [ex]
        while work:
            x = work.pop()
            if x == want:
                return True
            if x not in seen:
                seen.add(x)
                work += self.exc_base(x)
        return False

    # ---- loops
    def s_while(self, s, st, o):
        self.loop(s, st, o, cond=s["c"], body=s["b"], inc=None, cvd=s.get("cvd"))

    def s_do(self, s, st, o):
        self.loop(s, st, o, cond=s["c"], body=s["b"], inc=None, do=True)

    def s_for(self, s, st, o):
        states = [st]
        scope = []
        if s.get("init"):
            if s["init"]["k"] == "decl":
                states = self.decl(s["init"], st, scope)
                scope = [("local", ("var", v["d"])) for v in s["init"]["v"]]
            else:
                states = self.exec(s["init"], st).norm
        o2 = Out()
        for x in states:
            self.loop(s, x, o2, cond=s.get("c"), body=s["b"], inc=s.get("inc"))
        self.scoped(o, o2, scope, s["l"])

    def s_rfor(self, s, st, o):
        states = [st]
        for part in ("init", "range", "begin", "end"):
            if s.get(part) and s[part]["k"] == "decl":
                states = [s2 for x in states for s2 in self.decl(s[part], x, [])]
        o2 = Out()
        scope = []
        for part in ("range", "begin", "end"):
            if s.get(part) and s[part]["k"] == "decl":
                scope += [("local", ("var", v["d"])) for v in s[part]["v"]]
        for x in states:
            self.loop(s, x, o2, cond=s["c"], body=s["b"], inc=s["inc"], pre=s["var"])
        self.scoped(o, o2, scope, s["l"])

    def loop(self, s, st, o, cond, body, inc, do=False, pre=None, cvd=None):
        if getattr(self.rule, "loop_begin", None):
            st = st.copy()
            self.rule.loop_begin(self, st, s)
        entry = [st]
        ibeg = getattr(self.rule, "iter_begin", None)
        iend = getattr(self.rule, "iter_end", None)
        idone = getattr(self.rule, "loop_done", None)
        mods = set()
        consts = self.assigned_consts(s)

        def evalcond(states):
            if cvd:
                states = [s2 for x in states for s2 in self.declvar(cvd, x)]
            if cond is None:
                return states, []
            tt, ff = [], []
            for x in states:
                t, f = self.cond(cond, x)
                tt += t
                ff += f
            return self.dedupe(tt), self.dedupe(ff)

        def runbody(states):
            """body + inc from states; returns states at the next head."""
            o2 = Out()
            if ibeg:
                states = [x.copy() for x in states]
                for x in states:
                    ibeg(self, x, s)
            if pre is not None:
                scope = []
                norm = []
                blk = {"k": "block", "l": s["l"], "b": [pre] + ([body] if body else [])}
                norm = self.exec_many(blk, states, o2)
            else:
                norm = self.exec_many(body, states, o2)
            if iend:
                for x in norm + o2.cont:
                    iend(self, x, s, "next")
                for x in o2.brk:
                    iend(self, x, s, "break")
                for x, _ in o2.ret:
                    iend(self, x, s, "return")
            nxt = self.dedupe(norm + o2.cont)
            brks.extend(o2.brk)
            rets.extend(o2.ret)
            if inc is not None:
                nxt = self.dedupe([x for y in nxt for x, _ in self.rv(inc, y)])
            return nxt

        thr0 = self.thr
        unroll = getattr(self.rule, "unroll", 0)
        if unroll and cond is not None and not cvd:
            # a loop whose number of turns is known
            brks, rets, exits = [], [], []
            self.thr = []
            log = set()
            self.modlogs.append(log)
            done = False
            try:
                states = [st.copy()]
                for turn in range(unroll):
                    if do and turn == 0:
                        states = runbody(states)
                        continue
                    t, f = evalcond(states)
                    if t and f:
                        break
                    exits += f
                    if not t:
                        done = True
                        break
                    states = runbody(t)
            finally:
                self.modlogs.pop()
            if done:
                self.thr = thr0 + self.thr
                for m in log:
                    self.logmod(m)
                if idone:
                    exits = [x.copy() for x in exits]
                    for x in exits:
                        idone(self, x, s)
                o.norm += self.dedupe(exits + brks)
                o.ret += self.dedupe_vals(rets)
                return
            self.thr = thr0
        for attempt in range(5):
            brks, rets, exits = [], [], []
            self.thr = []
            log = set()
            self.modlogs.append(log)
            try:
                if do:
                    nxt = runbody(entry)
                    t, f = evalcond(nxt)
                    exits += f
                    pending = t
                else:
                    t, f = evalcond(entry)
                    exits += f
                    pending = runbody(t)
                seen = set()
                rounds = 0
                while pending:
                    rounds += 1
                    new = []
                    allmods = mods | log
                    for x in pending:
                        self.loopnode = s
                        h = self.widen(x, st, allmods, s["l"], consts)
                        k = h.key()
                        if k not in seen:
                            seen.add(k)
                            new.append(h)
                    if not new:
                        break
                    if rounds > 8:
                        new = self.join(new)
                        if rounds > 14:
                            break
                    if do:
                        nxt = runbody(new)
                        t, f = evalcond(nxt)
                        exits += f
                        pending = t
                    else:
                        t, f = evalcond(new)
                        exits += f
                        pending = runbody(t)
            finally:
                self.modlogs.pop()
            outer = {m for m in log if self.persistent(m, st)}
            if outer <= mods:
                break
            mods |= outer
        thrown = self.thr
        self.thr = thr0
        self.thr += thrown
        for m in mods:
            self.logmod(m)
        if idone:
            exits = [x.copy() for x in exits]
            for x in exits:
                idone(self, x, s)
        o.norm += self.dedupe(exits + brks)
        o.ret += self.dedupe_vals(rets)

    def persistent(self, loc, st):
        return True

    def assigned_consts(self, s):
        """Constants that a loop assigns as such (flags, result codes)."""
        key = id(s)
        if key not in self._lconst:
            res = set()
            for n in walk(s):
                if n["k"] == "bin" and n.get("op") == "=":
                    v = constval(n["b"])
                    if v is not None:
                        res.add(v)
            self._lconst[key] = (res if len(res) <= 6 else set(), s)
        return self._lconst[key][0]

    def widen(self, x, entry, mods, line, consts=()):
        """Forget what the loop body writes."""
        h = x.copy()
        syms = set()
        hook = getattr(self.rule, "widened", None)
        counters, grown = {}, []
        if hook:
            syms.add(self.rule.turns(self.loopnode))
        for m in sorted(mods, key=repr):
            if m[0] == "ver":
                if m in h.env:
                    h.env[m] = 99
                continue
            if m not in h.env:
                continue
            v = h.env[m]
            if hook:
                t = hook(self, h, entry, m, self.loopnode)
                if t is not None:
                    counters[m] = t
                    continue
            if isc(v) and (entry.env.get(m) == v or -1 <= v[1] <= 1 or v[1] in consts):
                # unchanged constant so far: keep it (joined later if not)
                continue
            sy = ("sym", "loop%d:%s" % (line, repr(m)[-70:]))
            h.env[m] = sy
            syms.add(sy)
            grown.append((m, sy))
        if syms:
            for f in list(h.facts):
                if contains_any(f, syms):
                    del h.facts[f]
            for k, v in list(h.env.items()):
                if isinstance(v, tuple) and v not in syms and contains_any(v, syms):
                    h.env[k] = ("sym", "loopd%d:%s" % (line, repr(k)[-70:]))
            for k in list(h.env):
                if contains_any(k, syms):
                    del h.env[k]
        for k in list(h.env):
            if k[0] in ("fver",):
                h.env[k] = 99
        if hook:
            h.env.update(counters)
            for m, sy in grown:
                self.rule.grown(self, h, entry, m, sy, self.loopnode)
            self.rule.headfacts(self, h, entry, self.loopnode)
        return h
