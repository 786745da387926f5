"""A loaded configuration is in the tables of the domain as it was written."""
from sa.lib import *
from sa.facts import AnalysisBroken
from sa.linear import Induction, lin, lsub
from rules.p27_expressions import Text

EXPLAIN = ("Where each text and number of the configuration goes.  Texts and numbers are terms that name the section, the entry and the "
           "keyword they come from; every value stored in a record of the tables is compared with what belongs there, with the range "
           "the path has established for it, and the number of entries follows from the loops that make them.")

C0, C1 = ("c", 0), ("c", 1)
SECTIONS = ("resources", "machines", "groups", "servers", "services")
MAPS = ("std::map::", "std::unordered_map::")
BITS = {1: 8, 2: 16, 4: 32, 8: 64}
LIMITS = {"maxservers": ("MAXSERVERS", 1, 8192, 50), "maxservices": ("MAXSERVICES", 1, 1048575, 100), "maxgroups": ("MAXGROUPS", 1, 32768, 100),
          "maxqueues": ("MAXQUEUES", 1, 8192, 50), "maxaccessers": ("MAXACCESSERS", 1, 32768, 100)}
RANGES = {"GRPNO": (1, 30000, None), "TMSCOUNT": (2, 10, 3), "SRVID": (1, 30000, None), "MIN": (1, 1000, 1), "MAX": (1, 1000, 1),
          "MINDISPATCHTHREADS": (1, 1000, 1), "MAXDISPATCHTHREADS": (1, 1000, 1)}
MACHINE = {"address": "first", "lmid": "LMID", "tuxconfig": "TUXCONFIG", "tuxdir": "TUXDIR", "appdir": "APPDIR", "ulogpfx": "ULOGPFX",
           "tlogdevice": "TLOGDEVICE"}
READERS = {"std::" + x for x in ("find", "find_if", "all_of", "any_of", "none_of", "count", "count_if", "equal", "search", "copy", "distance", "mismatch")}
GROUP = {"srvgrp": "first", "openinfo": "OPENINFO", "closeinfo": "CLOSEINFO", "tmsname": "TMSNAME"}
SERVER = {"servername": "first", "clopt": "CLOPT"}


def section(loc):
    """Section of the configuration a location lies in."""
    for x in under(loc):
        if x[0] == "fld" and x[2] in SECTIONS:
            return x[2]
    return None


def under(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from under(x)


def cat(*ps):
    r = []
    for p in ps:
        for q in (p[1:] if p[0] == "cat" else (p,)):
            if q == ("s", ""):
                continue
            if r and q[0] == "s" and r[-1][0] == "s":
                r[-1] = ("s", r[-1][1] + q[1])
            else:
                r.append(q)
    return r[0] if len(r) == 1 else ("s", "") if not r else ("cat",) + tuple(r)


def num(t):
    if t[0] == "s":
        import re
        m = re.match(r"\s*([-+]?\d+)", t[1])
        if m:
            return ("c", int(m.group(1)))
    return ("num", t)


class Conf(Text, Induction, FuxRule):
    """ts = what was stored in records since the last turn began: (place, record, field, value as described, line)"""
    widths = True
    limit = 600
    depth = 5

    def __init__(self, rep, prog):
        super().__init__(rep)
        self.prog = prog
        self.fn = None
        self.seen = {}

    def opaque(self, fn):
        n = base(fn["n"])
        b = n.split("::")[-1]
        return b in ("checked_copy", "find_queue", "make_queue", "find_server", "find_group", "string_format", "userlog", "getmib") or \
            n.startswith(("clara::", "fux::fml32")) or (b == "ubb2mib" and self.fn is not None and fn["u"] != self.fn["u"])

    def may_throw(self, call):
        return None

    def bad(self, eng, line, what, msg, st, key):
        f = eng.cur() if hasattr(eng, "cur") else self.fn
        f = f if isinstance(f, dict) else self.fn
        self.rep.violation(eng.curfile(), line, f["n"], what, msg, key="%s:%s" % (what, key), trace=st.trace())

    # ---- texts of the configuration
    def load(self, eng, st, loc, node):
        if loc[0] == "fld" and loc not in st.env and section(loc) and (loc[2].startswith("$K:") or loc[2] == "first"):
            st.env[loc] = ("cfg", loc[1], loc[2][3:] if loc[2] != "first" else "first")

    def content(self, eng, st, v, node=None):
        """Text a string argument has."""
        if v[0] == "s":
            return v
        if v[0] == "recv":
            return eng.lookup(st, v[1])
        if v[0] == "addr":
            loc = v[1]
            if loc[0] == "idx" and loc[2] == C0:
                loc = loc[1]
            self.load(eng, st, loc, None)
            return eng.lookup(st, loc)
        return v

    def has(self, loc, key):
        """Does the entry have the keyword?  Optional numbers are all given or all missing in one run."""
        if key in RANGES or key in [x[0] for x in LIMITS.values()]:
            return C1 if self.given or RANGES.get(key, (0, 0, 1))[2] is None else C0
        return ("has", loc, key)

    def length(self, eng, st, c):
        if c[0] == "s":
            return ("c", len(c[1]))
        t = ("len", c)
        st.facts[mk_lt(t, C0)] = False
        return t

    def call(self, eng, st, call):
        n = base(call.name)
        m = n.split("::")[-1]
        if call.obj is not None and n.startswith(MAPS):
            k = self.content(eng, st, call.args[0]) if call.args else None
            if section(call.obj):
                if m in ("operator[]", "at") and k is not None:
                    if k[0] != "s":
                        return None
                    v = ("fld", call.obj, "$K:" + k[1])
                    if m == "operator[]" and self.has(call.obj, k[1]) == C0:
                        st.env[v] = ("s", "")
                    self.load(eng, st, v, None)
                    return [("ret", st, addr(v))]
                if m in ("find", "count", "end", "cend", "contains"):
                    if m in ("end", "cend"):
                        return [("ret", st, ("itend", call.obj))]
                    if k is not None and k[0] == "s":
                        h = self.has(call.obj, k[1])
                        if not isc(h):
                            st.facts[mk_lt(h, C0)] = False
                            st.facts[mk_lt(C1, h)] = False
                        return [("ret", st, h if m != "find" else ("it", call.obj, k[1]))]
            elif m in ("operator[]", "at") and k is not None:
                # a map of the function itself, from a name to what it was given
                x = ("idx", call.obj, k)
                if x not in st.env:
                    st.env[x] = ("given", k)
                return [("ret", st, addr(x))]
            elif m in ("insert", "emplace", "insert_or_assign", "try_emplace") and len(call.args) == 2:
                v = call.args[1]
                self.named(eng, st, ("idx", call.obj, k), eng.lookup(st, v[1]) if v[0] == "addr" else v, call.line)
                return [("ret", st, eng.fresh(st, "inserted", call.line))]
            elif m == "find" and k is not None:
                return [("ret", st, ("it2", call.obj, k))]
        if n.startswith("mibarrptr::") and m in ("at", "operator[]") and call.obj is not None and len(call.args) == 1:
            v = eng.lookup(st, ("fld", call.obj, "p_"))
            return [("ret", st, addr(("idx", ("fld", v[1] if v[0] == "addr" else ("deref", v), "$entries"), call.args[0])))]
        if m in ("operator==", "operator!=") and len(call.args) + (call.obj is not None) == 2:
            a = ([eng.lookup(st, call.obj)] if call.obj is not None else []) + list(call.args)
            a = [eng.lookup(st, x[1]) if x[0] == "addr" else x for x in a]
            i = [x for x in a if x[0] == "it"]
            if len(i) == 1 and any(x[0] == "itend" for x in a):
                e = mk_eq(self.has(i[0][1], i[0][2]), C0)
                return [("ret", st, e if m == "operator==" else mk_not(e))]
        if n.startswith("std::vector::") and m in ("begin", "cbegin") and call.obj is not None and section(call.obj):
            return [("ret", st, ("iter", call.obj, eng.fresh(st, "each", call.line)))]
        if m == "operator++" and call.obj is not None:
            v = eng.lookup(st, call.obj)
            if v[0] == "iter":
                eng.assign(st, call.obj, ("iter", v[1], eng.fresh(st, "each", call.line)), call.node)
                return [("ret", st, addr(call.obj))]
        if m in ("operator->", "operator*") and call.obj is not None and not call.args:
            v = eng.lookup(st, call.obj)
            if v[0] == "iter":
                return [("ret", st, addr(("idx", v[1], v[2])))]
            if v[0] == "it":
                p = ("fld", v[1], "$P:" + v[2])
                for f, x in (("second", ("cfg", v[1], v[2])), ("first", ("s", v[2]))):
                    st.env[("fld", p, f)] = x
                return [("ret", st, addr(p))]
            if v[0] == "it2":
                p = ("fld", ("idx", v[1], v[2]), "$pair")
                st.env[("fld", p, "second")] = st.env.get(("idx", v[1], v[2]), ("given", v[2]))
                return [("ret", st, addr(p))]
        if n.startswith(("std::basic_string::", "std::__cxx11::basic_string::")) and call.obj is not None:
            if m in ("empty", "size", "length"):
                t = self.length(eng, st, self.content(eng, st, addr(call.obj)))
                return [("ret", st, mk_eq(t, C0) if m == "empty" else t)]
            if m in ("operator+=", "append") and len(call.args) == 1:
                c = cat(self.content(eng, st, addr(call.obj)), self.content(eng, st, call.args[0]))
                eng.assign(st, call.obj, c, call.node)
                return [("ret", st, addr(call.obj))]
            if m in ("operator=", "assign", "basic_string") and len([a for a in call.argn if a.get("k") != "defarg"]) <= 2 and call.args \
                    and (call.args[0][0] in ("s", "cfg", "cat", "txt", "low", "cut") or call.args[0][0] in ("addr", "recv")):
                v = self.content(eng, st, call.args[0])
                if len(call.args) < 2 or not isc(call.args[1]):
                    eng.assign(st, call.obj, v, call.node)
                    return [("ret", st, addr(call.obj))]
            if m == "substr":
                c = self.content(eng, st, addr(call.obj))
                z = self.length(eng, st, c)
                a = list(call.args) + [z]
                if a[0] == C0:
                    d = lsub(lin(z), lin(a[1]))
                    d = d.get(None, 0) if not [x for x in d if x is not None] else None
                    if d is not None and d >= 0:
                        return [("ret", st, self.cut(c, d))]
                return [("ret", st, eng.fresh(st, "part", call.line))]
            if m in ("pop_back", "resize", "erase") and (m == "pop_back" or len(call.args) >= 1):
                c = self.content(eng, st, addr(call.obj))
                z = self.length(eng, st, c)
                d = lsub(lin(z), lin(call.args[0])) if m != "pop_back" else {None: 1}
                d = d.get(None, 0) if not [x for x in d if x is not None] else None
                if d is not None and d >= 0:
                    eng.assign(st, call.obj, self.cut(c, d), call.node)
                    return [("ret", st, addr(call.obj))]
            if m == "compare" and len(call.args) >= 3:
                return self.ending(eng, st, call)
            if m in ("c_str", "data"):
                return [("ret", st, self.content(eng, st, addr(call.obj)))]
            if m in ("begin", "end", "cbegin", "cend", "rbegin", "rend") and not call.args:
                return [("ret", st, eng.fresh(st, "iterator", call.line))]
        if m == "operator+" and n.startswith("std::") and len(call.args) == 2:
            a = [self.content(eng, st, x) for x in call.args]
            if all(x[0] in ("s", "cfg", "cat", "txt", "low", "cut") for x in a):
                return [("ret", st, cat(*a))]
        if n == "std::transform" and len(call.args) == 4 and call.obj is None:
            o = [strip(a) for a in call.argn]
            ds = [[x for x in walk(a) if x["k"] == "ref" and x.get("dk") in ("local", "parm", "var")] for a in o[:3]]
            fs = [eng.prog.resolve(a[1], eng.cur()["unit"]) for a in call.args[3:] if a[0] in ("lam", "fn")]
            if all(len(x) == 1 for x in ds) and len({x[0]["d"] for x in ds}) == 1 and fs and fs[0] and "tolower" in repr(fs[0].get("b")):
                loc = ("var", ds[0][0]["d"])
                c = self.content(eng, st, addr(loc))
                st.env[loc] = ("s", c[1].lower()) if c[0] == "s" else ("low", c)
                eng.logmod(loc)
                return [("ret", st, eng.fresh(st, "transformed", call.line))]
        if n.startswith("std::") and call.obj is None and n not in READERS and call.argn:
            for a in call.argn[:3]:
                for x in walk(a):
                    if x["k"] == "call" and x.get("obj") and "basic_string" in (x.get("n") or "") and x["n"].endswith(("::begin", "::rbegin")):
                        y = strip(x["obj"])
                        if y["k"] == "ref" and y.get("d"):
                            st.env[("var", y["d"])] = eng.fresh(st, "text", call.line)
                            eng.logmod(("var", y["d"]))
        if n in ("std::stol", "std::stoi", "std::stoll", "std::stoul", "std::stoull") or n in ("atol", "atoi", "strtol", "strtoul", "strtoll"):
            return [("ret", st, num(self.content(eng, st, call.args[0])))]
        if n == "std::to_string" and len(call.args) == 1:
            return [("ret", st, ("txt", call.args[0]))]
        if m == "checked_copy" and len(call.args) == 2:
            d = call.args[1]
            if d[0] == "addr":
                loc = d[1][1] if d[1][0] == "idx" else d[1]
                node = strip(call.argn[1])
                while node is not None and node["k"] != "mem":
                    node = strip(node.get("e"))
                if loc[0] == "fld" and node is not None:
                    self.write(eng, st, loc, node.get("rec"), self.content(eng, st, call.args[0]), call.line)
            return [("ret", st, C0)]
        if m in ("find_queue", "make_queue") and len(call.args) == 1:
            return [("ret", st, ("queue", self.content(eng, st, call.args[0])))]
        if m == "find_server" and len(call.args) == 2:
            return [("ret", st, ("entry", "server") + tuple(call.args))]
        if m == "find_group" and len(call.args) == 1:
            return [("ret", st, ("entry", "group", call.args[0]))]
        return self.more(eng, st, call, n, m)

    def more(self, eng, st, call, n, m):
        return None

    def cut(self, c, d):
        if d == 0:
            return c
        if c[0] == "s":
            return ("s", c[1][:-d])
        if c[0] == "cut":
            return ("cut", c[1], c[2] + d)
        return ("cut", c, d)

    def ending(self, eng, st, call):
        """text.compare(size - n, n, end)"""
        c = self.content(eng, st, addr(call.obj))
        z = self.length(eng, st, c)
        e = self.content(eng, st, call.args[2])
        d = lsub(lin(z), lin(call.args[0]))
        if e[0] != "s" or [x for x in d if x is not None]:
            return None
        k = d.get(None, 0)
        if not self.atleast0(eng, st, lin(call.args[0])):
            self.bad(eng, call.line, "short", "the end of a text is compared though the text may be shorter than that end", st, "short")
            return [("throw", st, "std::out_of_range")]
        if c[0] == "s":
            t = c[1][len(c[1]) - k:] if k else ""
            return [("ret", st, C0 if t == e[1] else C1)]
        if k == len(e[1]):
            return [("ret", st, ("unlike", c, e[1]))]
        return None

    def known(self, eng, st):
        yield from super().known(eng, st)
        for f, v in st.facts.items():
            if f[0] == "==" and v is not True:
                # a counter that goes up by one from 0 and has not met its end is below it
                d = lsub(lin(f[1]), lin(f[2]))
                ts = [a for a in d if a is not None and a[0] == "sym" and str(a[1]).startswith("turns@")]
                if len(ts) == 1 and d[ts[0]] == 1:
                    d = {a: -k for a, k in d.items()}
                zs = [a for a in d if a not in ts]
                if len(ts) == 1 and len(zs) == 1 and d[ts[0]] == -1 and (d[zs[0]] == 1 if zs[0] is not None else d[None] > 0) and \
                        (zs[0] is None or zs[0][0] == "num"):
                    yield lsub(d, {None: 1})

    def widened(self, eng, h, entry, m, s):
        v = entry.env.get(m)
        if v is not None and v[0] == "iter":
            return v
        return super().widened(eng, h, entry, m, s)

    # ---- what is stored
    def named(self, eng, st, loc, v, line):
        """name -> number, in a map of the function"""
        k = loc[2]
        d = self.describe(eng, st, v)
        if k[0] == "cfg" and section(k[1]) == "groups":
            self.rep.instance("group numbers", "line %d" % line)
            if k[2] != "first" or d[:3] != ("num", "groups", "GRPNO"):
                self.bad(eng, line, "group", "a group's name is not remembered with the group's own number", st, "remembered")

    def store(self, eng, st, loc, v, node):
        if loc[0] == "idx" and loc[2][0] == "cfg":
            self.named(eng, st, loc, v, (node or {}).get("l", 0))
            return
        if loc[0] != "fld" or loc[2].startswith("$"):
            return
        rec, f = mem_rec(node)
        if f == loc[2]:
            self.write(eng, st, loc, rec, v, node["l"])

    def relation(self, eng, st, v, truth=True):
        """Comparison of the number of the turn with a number of the configuration."""
        while v[0] in ("!", "conv", "cast"):
            truth = truth != (v[0] == "!")
            v = v[-1]
        if v[0] != "<":
            return ("other",)
        k = lsub(lin(v[2]), lin(v[1])) if truth else lsub(lin(v[1]), lin(v[2]))
        if truth:
            k[None] = k.get(None, 0) - 1
        ts = [a for a in k if a is not None and a[0] == "sym" and str(a[1]).startswith("turns@")]
        zs = [a for a in k if a is not None and a[0] in ("num", "conv")]
        if len(ts) != 1 or len(zs) > 1 or len(ts) + len(zs) != len([a for a in k if a is not None]):
            return ("other",)
        return ("rel", k[ts[0]], tuple(self.describe(eng, st, a) + (k[a],) for a in zs), k.get(None, 0))

    def describe(self, eng, st, v):
        """Value with what the path knows of it, without anything particular to this turn."""
        while v[0] == "conv":
            v = v[3]
        if v[0] == "cfg":
            return ("text", section(v[1]), v[2])
        if v[0] == "num" and v[1][0] == "cfg":
            lo, hi, _ = eng.bounds(st, v)
            return ("num", section(v[1][1]), v[1][2], lo, hi)
        if v[0] == "num":
            return ("num?", self.describe(eng, st, v[1]))
        if v[0] in ("cat", "txt", "low"):
            return (v[0],) + tuple(self.describe(eng, st, x) for x in v[1:])
        if v[0] == "cut":
            return ("cut", self.describe(eng, st, v[1]), v[2])
        if v[0] == "queue":
            return ("queue", self.describe(eng, st, v[1]))
        if v[0] == "given":
            return ("given", self.describe(eng, st, v[1]))
        if v[0] == "op" and v[1] == "*":
            return ("*",) + tuple(sorted((self.describe(eng, st, x) for x in v[2:]), key=repr))
        if v[0] == "op" and v[1] in ("+", "-"):
            l = lin(v)
            return ("sum", l.get(None, 0)) + tuple(sorted(((k, self.describe(eng, st, a)) for a, k in l.items() if a is not None), key=repr))
        if v[0] == "ld" and v[1][0] == "fld":
            return ("ld", v[1][1][2] if v[1][1][0] == "fld" else None, v[1][2])
        if v[0] == "addr" and v[1][0] == "fld":
            self.load(eng, st, v[1], None)
            return self.describe(eng, st, eng.lookup(st, v[1]))
        if v[0] == "sym":
            return ("turns",) if str(v[1]).startswith("turns@") else ("other",)
        if v[0] in ("c", "s"):
            return v
        return ("other",)

    def fits(self, eng, st, rec, f, v):
        """The width the value is cut to, if it may be cut: (bytes, low, high of the value)."""
        zs = []
        while v[0] == "conv":
            zs.append((v[1], v[2]))
            v = v[3]
        r = self.prog.records.get(rec)
        for x in (r or {}).get("fields", []):
            if x["n"] == f and x["t"].get("k") == "int":
                zs.append((x["t"]["z"], x["t"].get("sg")))
        lo, hi, _ = eng.bounds(st, v)
        l = lin(v)
        for z, sg in zs:
            top = (1 << (8 * z - (1 if sg else 0))) - 1
            low = -(1 << (8 * z - 1)) if sg else 0
            if z >= 8 or v[0] in ("ld", "queue", "sel", "given", "s") or not [a for a in l if a is not None and a[0] == "num"]:
                continue
            if not self.atleast0(eng, st, lsub({None: top}, l)) or not self.atleast0(eng, st, lsub(l, {None: low})):
                return z, lo, hi
        return None

    def write(self, eng, st, loc, rec, v, line):
        pass


class Tables(Conf):
    """From the configuration to the tables."""
    records = ("group", "server", "t_machine", "t_domain")

    def write(self, eng, st, loc, rec, v, line):
        if rec not in self.records or self.fn is None:
            return
        f = loc[2]
        cut = self.fits(eng, st, rec, f, v)
        if cut and rec in ("group", "server"):
            self.bad(eng, line, "width", "a number of the configuration may not fit the %d bytes in which %s of a %s is kept" % (cut[0], f, rec),
                     st, "%s.%s" % (rec, f))
            return
        d = self.describe(eng, st, v)
        if f == "autostart" and d == ("other",):
            x = eng.decide(st, v)
            d = (C1 if x else C0) if x is not None else self.relation(eng, st, v)
        if rec == "t_machine":
            self.machine(eng, st, f, v, d, line)
        elif rec == "t_domain":
            if f in LIMITS or f == "ipckey":
                self.rep.instance("values", "domain.%s line %d" % (f, line))
                if d[0] == "ld" and d[2] != f or d[0] not in ("ld", "other"):
                    self.bad(eng, line, "domain", "%s of the domain is not what the configuration file says" % f, st, f)
        else:
            x = (loc[1], rec, f, d, self.extra(eng, st, rec, f, v, d), line)
            st.ts = tuple(sorted([y for y in st.ts if y[:3] != x[:3]] + [x], key=repr))

    def extra(self, eng, st, rec, f, v, d):
        """What else the path knows when the value is stored."""
        r = []
        while v[0] == "conv":
            v = v[3]
        if (rec, f) in (("server", "srvid"), ("group", "grpno")):
            # was it looked up before, without success?
            for g in list(st.facts):
                for x in g[1:]:
                    if isinstance(x, tuple) and x[0] == "entry" and x[1] == rec and self.plain(x[2]) == v:
                        lo, hi, _ = eng.bounds(st, x)
                        if lo is not None and lo == hi:
                            r.append(("new",) + tuple(self.describe(eng, st, y) for y in x[2:]))
        if f in ("srvid", "autostart"):
            # relations between the number of the turn and values of the configuration
            turning = False
            for k in self.known(eng, st):
                ts = [a for a in k if a is not None and a[0] == "sym" and str(a[1]).startswith("turns@")]
                zs = [a for a in k if a is not None and a[0] in ("num", "conv")]
                turning = turning or bool(ts) and len(k) - (None in k) == len(ts) + len(zs)
                if len(ts) == 1 and len(k) - (None in k) == len(ts) + len(zs) and len(zs) <= 1 and all(abs(c) == 1 for a, c in k.items() if a is not None):
                    r.append(("rel", k[ts[0]], tuple(self.describe(eng, st, a) + (k[a],) for a in zs), k.get(None, 0)))
            if not turning:
                r.append(("turn0",))
            least = {}
            for x in r:
                if x[0] == "rel":
                    least[x[1:3]] = min(x[3], least.get(x[1:3], x[3]))
            r = [x for x in r if x[0] != "rel" or x[3] == least[x[1:3]]]
        if f == "rqaddr" and rec == "server" and v[0] == "queue":
            for g in list(st.facts):
                for x in g[1:]:
                    if isinstance(x, tuple) and x[0] == "len" and x[1][0] == "cfg" and section(x[1][1]) == "servers" and x[1][2] == "RQADDR":
                        r.append(("rqaddr", eng.bounds(st, x)[1] == 0))
        for key in RANGES if f in ("srvid", "grpno", "autostart", "mindispatchthreads", "maxdispatchthreads") else ():
            for sec in ("groups", "servers"):
                if not self.given and RANGES[key][2] is not None:
                    r.append(("missing", sec, key))
        return tuple(sorted(set(r), key=repr))

    def plain(self, v):
        while v[0] == "conv":
            v = v[3]
        return v

    # ---- machine
    def machine(self, eng, st, f, v, d, line):
        if f in MACHINE:
            self.rep.instance("values", "machine.%s" % f)
            if d != ("text", "machines", MACHINE[f]):
                self.bad(eng, line, "machine", "%s of the machine is not what the configuration says" % f, st, f)
        elif f == "blocktime":
            self.rep.instance("values", "machine.blocktime")
            parts = list(d[1:]) if d[0] == "*" else [d]
            k = 1
            texts = []
            for p in parts:
                if p[0] == "c":
                    k *= p[1]
                elif p[0] in ("num", "num?"):
                    texts.append(p)
                else:
                    return
            block = [p for p in texts if p[:3] == ("num", "resources", "BLOCKTIME")]
            scan = [p for p in texts if p not in block]
            like = {}
            for g in list(st.facts):
                for x in under(g):
                    if x[0] == "unlike" and x[2] == "ms":
                        lo, hi, ne = eng.bounds(st, x)
                        like["x"] = True if lo == 0 == hi else False if 0 in ne or (lo or 0) > 0 or (hi is not None and hi < 0) else None
            sb = "BLOCKTIME" if block else None
            if len(block) > 1 or len(scan) > 1:
                return self.bad(eng, line, "blocktime", "the block time is not the number of scan units times their length", st, "blocktime")
            if not block:
                # default of 15 units
                if k % 15:
                    return self.bad(eng, line, "blocktime", "the block time is not 15 scan units if the configuration gives none", st, "blocktime")
                k //= 15
            if not scan:
                if k != 1000:
                    self.bad(eng, line, "blocktime", "a scan unit is not a second if the configuration gives none", st, "blocktime")
                return
            u = scan[0]
            t = u[1] if u[0] == "num?" else None
            zeros = 0
            if t and t[0] == "cat" and t[-1][0] == "s" and set(t[-1][1]) == {"0"}:
                zeros = len(t[-1][1])
                t = t[1] if len(t) == 3 else None
            if t and t[0] == "cut" and like.get("x") and t[2] <= 2:
                t = t[1]
            if t and t[0] == "low":
                t = t[1]
            if u[0] == "num":
                t = ("text", u[1], u[2])
            if t != ("text", "resources", "SCANUNIT") or like.get("x") is None:
                if t is None or t[0] not in ("text", "cut"):
                    return
                if t[0] == "cut" or t[2] != "SCANUNIT":
                    self.bad(eng, line, "blocktime", "the length of a scan unit is not what the configuration says", st, "blocktime")
                return
            if k * 10 ** zeros != (1 if like["x"] else 1000):
                self.bad(eng, line, "blocktime", "the length of a scan unit given in %s is not taken as such" % ("milliseconds" if like["x"] else "seconds"),
                         st, "blocktime")

    # ---- groups and servers
    def number(self, d, sec, key, ex):
        """Is this the number of the keyword, within its limits (or its default)?"""
        lo, hi, df = RANGES[key]
        if d[:3] == ("num", sec, key):
            return d[3] == lo and d[4] == hi
        return df is not None and d == ("c", df) and ("missing", sec, key) in ex

    def settle(self, eng, st, line):
        """Compare the entries made with what belongs there."""
        es = {}
        for loc, rec, f, d, ex, l in st.ts:
            es.setdefault((loc, rec), {})[f] = (d, ex, l)
        st.ts = ()
        for loc in list(st.env):
            if loc[0] == "fver" or loc[0] == "fld" and any(x[0] == "fld" and x[2] == "$entries" for x in under(loc)):
                del st.env[loc]
            elif loc[0] == "fld" and loc[2] == "len":
                st.env[loc] = ("sym", "entries of " + str(loc[1][2] if loc[1][0] == "fld" else ""))
        for f in list(st.facts):
            if any(isinstance(x, tuple) and x[0] in ("entry", "queue") for x in f[1:]):
                del st.facts[f]
        for (loc, rec), fs in sorted(es.items(), key=repr):
            if rec == "group":
                self.group(eng, st, fs)
            elif rec == "server":
                self.server(eng, st, fs)

    def expect(self, eng, st, fs, f, ok, what, line):
        if f not in fs:
            self.bad(eng, line, "entry", "%s is not stored" % what, st, "missing:" + what)
        elif not ok(fs[f][0], fs[f][1]):
            self.bad(eng, fs[f][2], "entry", "%s is not what the configuration says" % what, st, what)

    def group(self, eng, st, fs):
        line = min(x[2] for x in fs.values())
        self.rep.instance("groups", "line %d" % line)
        self.expect(eng, st, fs, "grpno", lambda d, ex: self.number(d, "groups", "GRPNO", ex), "the number of a group", line)
        for f, k in GROUP.items():
            self.expect(eng, st, fs, f, lambda d, ex: d == ("text", "groups", k), "%s of a group" % f, line)
        if "grpno" in fs and not any(x[0] == "new" for x in fs["grpno"][1]):
            self.bad(eng, line, "twice", "a group is entered without a look whether there is one with that number", st, "group")

    def server(self, eng, st, fs):
        line = min(x[2] for x in fs.values())
        if "servername" not in fs:
            return
        name = fs["servername"][0]
        if "srvid" in fs and not any(x[0] == "new" and "grpno" in fs and x[2] == fs["grpno"][0] for x in fs["srvid"][1]):
            self.bad(eng, line, "twice", "a server is entered without a look whether there is one with that number in its group", st, "server")
        if name == ("s", "BBL"):
            self.rep.instance("servers", "BBL line %d" % line)
            self.expect(eng, st, fs, "autostart", lambda d, ex: d == C1, "the automatic start of the bulletin board's server", line)
            self.expect(eng, st, fs, "rqaddr", lambda d, ex: d == ("queue", ("s", ".BBL")), "the queue of the bulletin board's server", line)
        elif name == ("text", "groups", "TMSNAME"):
            self.rep.instance("servers", "TMS line %d" % line)
            gno = lambda d: d[:3] == ("num", "groups", "GRPNO")
            self.expect(eng, st, fs, "grpno", lambda d, ex: gno(d), "the group of a transaction manager", line)
            self.expect(eng, st, fs, "srvid", lambda d, ex: d == ("sum", 30001, (1, ("turns",))) or d == ("c", 30001) and ("turn0",) in ex,
                        "the number of a transaction manager", line)
            self.expect(eng, st, fs, "srvid", lambda d, ex: self.counted(ex, "groups", "TMSCOUNT"), "the number of transaction managers of a group", line)
            self.expect(eng, st, fs, "clopt", lambda d, ex: d == ("s", "-A"), "the options of a transaction manager", line)
            self.expect(eng, st, fs, "rqaddr", lambda d, ex: d[0] == "queue" and d[1][0] == "cat" and len(d[1]) == 3 and d[1][1][0] == "txt" and
                        gno(d[1][1][1]) and d[1][2] == ("s", ".TM"), "the queue of a transaction manager", line)
            self.expect(eng, st, fs, "autostart", lambda d, ex: d == C1, "the automatic start of a transaction manager", line)
        elif name == ("text", "servers", "first"):
            self.rep.instance("servers", "server line %d" % line)
            gid = lambda d: d[0] == "given" and d[1] == ("text", "servers", "SRVGRP")
            sid = lambda d: d[:2] == ("sum", 0) and len(d) == 4 and {(k, x[:3]) for k, x in d[2:]} == {(1, ("turns",)), (1, ("num", "servers", "SRVID"))} and \
                all(x[3:] == RANGES["SRVID"][:2] for k, x in d[2:] if x[0] == "num")
            srv = lambda d, ex: sid(d) or ("turn0",) in ex and self.number(d, "servers", "SRVID", ())
            self.expect(eng, st, fs, "grpno", lambda d, ex: gid(d), "the group of a server", line)
            self.expect(eng, st, fs, "srvid", srv, "the number of a server", line)
            self.expect(eng, st, fs, "srvid", lambda d, ex: self.counted(ex, "servers", "MAX"), "the number of instances of a server", line)
            self.expect(eng, st, fs, "clopt", lambda d, ex: d == ("text", "servers", "CLOPT"), "the options of a server", line)
            self.expect(eng, st, fs, "mindispatchthreads", lambda d, ex: self.number(d, "servers", "MINDISPATCHTHREADS", ex),
                        "the least number of threads of a server", line)
            self.expect(eng, st, fs, "maxdispatchthreads", lambda d, ex: self.number(d, "servers", "MAXDISPATCHTHREADS", ex),
                        "the largest number of threads of a server", line)
            self.expect(eng, st, fs, "autostart", self.started, "the automatic start of a server", line)

            def queue(d, ex):
                if d[0] != "queue":
                    return False
                if ("rqaddr", True) in ex:
                    q = d[1]
                    return q[0] == "cat" and len(q) == 4 and q[2] == ("s", ".") and q[1][0] == q[3][0] == "txt" and gid(q[1][1]) and srv(q[3][1], fs["srvid"][1] if "srvid" in fs else ())
                return d[1] == ("text", "servers", "RQADDR") and ("rqaddr", False) in ex
            self.expect(eng, st, fs, "rqaddr", queue, "the queue of a server", line)

    def limit_ok(self, z, k, c, sec, key, ex):
        """k * (turns) + z + c >= 0 is exactly turns < number (k = -1) or turns >= number (k = 1)."""
        df = RANGES[key][2]
        want = -1 if k < 0 else 0
        if len(z) == 1:
            return self.number(z[0][:-1], sec, key, ex) and z[0][-1] == -k and c == want
        return df is not None and ("missing", sec, key) in ex and c == want - k * df

    def counted(self, ex, sec, key):
        """Is the turn known to be one of exactly as many as the configuration says?"""
        return ("turn0",) in ex or any(x[0] == "rel" and x[1] == -1 and self.limit_ok(x[2], -1, x[3], sec, key, ex) for x in ex)

    def started(self, d, ex):
        if ("turn0",) in ex:
            return d == C1
        if d[0] == "c":
            k = -1 if d[1] else 1
            return any(x[0] == "rel" and x[1] == k and self.limit_ok(x[2], k, x[3], "servers", "MIN", ex) for x in ex)
        return d[0] == "rel" and self.limit_ok(d[2], d[1], d[3], "servers", "MIN", ex)

    def nested(self, loop):
        return any(x is loop for n in walk(self.fn["b"]) if n["k"] in ("for", "rfor", "while", "do") and n is not loop for x in walk(n))

    def forget(self, eng, st, secs):
        """Nothing that follows depends on what was found out about these sections."""
        for f in list(st.facts):
            if any(section(x) in secs for x in f[1:] if isinstance(x, tuple)):
                del st.facts[f]
        for loc, v in list(st.env.items()):
            if loc[0] == "fld" and loc[1][0] == "fld" and loc[1][2] in ("mach", "domain"):
                del st.env[loc]
            elif loc[0] == "var" and isinstance(v, tuple) and (v[0] == "s" or v[0] in ("cat", "cut", "low", "cfg") and section(v) in secs):
                st.env[loc] = ("sym", "text of " + str(loc[1]))

    def loop_begin(self, eng, st, loop):
        self.settle(eng, st, loop["l"])
        me = self.turns(loop)
        for f in list(st.facts):
            if any(x == me for x in under(f)):
                del st.facts[f]
        if len(eng.stack) <= 1:
            self.forget(eng, st, ("resources", "machines"))

    def iter_end(self, eng, st, loop, how):
        if st.ts and any(x[1] == "server" for x in st.ts) and how == "break":
            self.bad(eng, loop["l"], "entry", "a loop that enters servers is left early", st, "break")
        self.settle(eng, st, loop["l"])
        if len(eng.stack) <= 1 and not self.nested(loop):
            # nothing that was found out about this entry of the configuration matters for the next
            st.facts.clear()
            self.forget(eng, st, SECTIONS)
            for loc in list(st.env):
                if loc[0] == "fld" and loc[2] == "len" or section(loc) or \
                        any(x[0] == "var" and str(x[1]).startswith(("tmp@", "rv:")) for x in under(loc)):
                    del st.env[loc]


class Loader(Conf):
    """The program that loads a configuration.  ts = what was done so far, in order"""
    limit = 200

    def opaque(self, fn):
        return fn["file"] != self.fn["file"]

    def __init__(self, rep, prog, noop):
        super().__init__(rep, prog)
        self.noop = noop

    def write(self, eng, st, loc, rec, v, line):
        f = loc[2]
        if rec != "tuxconfig" or f not in LIMITS and f != "ipckey":
            return
        self.rep.instance("values", "tuxconfig.%s line %d" % (f, line))
        d = self.describe(eng, st, v)
        if f == "ipckey":
            if d[:3] != ("num", "resources", "IPCKEY"):
                self.bad(eng, line, "limits", "the IPC key of the domain is not what the configuration says", st, f)
            return
        key, lo, hi, df = LIMITS[f]
        if d != ("num", "resources", key, lo, hi) and not (d == ("c", df) and not self.given):
            self.bad(eng, line, "limits", "%s of the domain is not what the configuration says, or not within its limits" % key, st, f)
            return
        cut = self.fits(eng, st, rec, f, v)
        if cut:
            self.bad(eng, line, "width", "%s may not fit the %d bytes in which it is kept" % (key, cut[0]), st, f)

    def done(self, st, what):
        st.ts = st.ts + (what,)

    def more(self, eng, st, call, n, m):
        if m == "parse" and "options" not in st.ts and self.noop is not None and "clara" in n.lower():
            for loc, v in list(st.env.items()):
                if loc[0] == "var" and isc(v):
                    st.env[loc] = ("sym", "option " + str(loc[1]).split("@")[0])
                    eng.logmod(loc)
            self.done(st, "options")
        if m == "ubb2mib":
            self.done(st, "entered")
            return [("ret", st, C0), ("throw", st.copy(), "std::logic_error")]
        if n in ("std::basic_ofstream::basic_ofstream", "std::basic_ofstream::open", "fopen", "open", "creat", "rename"):
            if m in ("open", "basic_ofstream") and not [a for a in call.args if a is not None]:
                return None
            if n.startswith("std::") and "std::basic_ofstream" not in n:
                return None
            self.rep.instance("files", "line %d" % call.line)
            if "entered" not in st.ts:
                self.bad(eng, call.line, "early", "the loaded configuration is replaced before the new one was found to be valid", st, "early")
            if self.noop is not None:
                x = eng.lookup(st, ("var", self.noop))
                lo, hi, _ = eng.bounds(st, x)
                if x != C0 and hi != 0 and eng.decide(st, x) is not False:
                    self.bad(eng, call.line, "noop", "the loaded configuration is replaced though only a check was asked for", st, "noop")
            self.done(st, "opened")
        if "std::basic_ios::" in n and m == "exceptions" or n.startswith("std::basic_ofstream") and m == "exceptions":
            if "ofstream" in str((strip(call.node.get("obj")) or {}).get("t", {}).get("s", "")) or True:
                self.done(st, "strict") if self.isout(call) else None
        if m == "close" and self.isout(call):
            self.done(st, "closed")
            return [("ret", st, C0)]
        if m in ("write", "put") and self.isout(call):
            self.done(st, "header")
            return [("ret", st, addr(call.obj) if call.obj is not None else C0)]
        if m in ("good", "fail", "bad", "operator!", "operator bool") and self.isout(call):
            x = eng.fresh(st, "state", call.line)
            self.done(st, "asked")
            return [("ret", st, x)]
        return None

    def isout(self, call):
        return any("basic_ofstream" in str((x.get("t") or {}).get("s")) or "std::ofstream" in str((x.get("t") or {}).get("s"))
                   for x in walk(call.node.get("obj") or {"k": "none"}))

    def branch(self, eng, st, cond, truth, node):
        pass


def option(fn, name):
    """Variable that a command line option sets."""
    for n in walk(fn["b"]):
        if n["k"] == "call" and n["n"].endswith("operator[]") and any(x["k"] == "str" and x.get("v") == name for a in n.get("args", []) for x in walk(a)):
            for x in walk(n.get("obj") or {"k": "none"}):
                if x["k"] == "ctor" and "Opt" in x.get("n", ""):
                    for y in walk(x["args"]):
                        if y["k"] == "ref" and (y.get("t") or {}).get("k") == "bool":
                            d = y["d"]
                    return d
    return None


def check(prog, rep):
    fs = [f for f in prog.fns("ubb2mib") if f.get("b")]
    for f in fs:
        for given in (True, False):
            rule = Tables(rep, prog)
            rule.fn = f
            rule.given = given
            eng, outs, _ = run_root(prog, rule, f, State(ts=()), rep=rep)
            for k, st, v in outs:
                if k == "ret":
                    rule.settle(eng, st, 0)
    for f in prog.fns("main"):
        if not f.get("b") or not any(n["k"] == "call" and n["n"] == "ubb2mib" for n in walk(f["b"])):
            continue
        noop = option(f, "-n")
        if noop is None:
            raise AnalysisBroken("the option to check only was not found")
        for given in (True, False):
            rule = Loader(rep, prog, noop)
            rule.fn = f
            rule.given = given
            eng, outs, _ = run_root(prog, rule, f, State(ts=()), rep=rep)
            for k, st, v in outs:
                if k != "ret" or v != C0:
                    continue
                rep.instance("ends", "loaded" if "opened" in st.ts else "checked")
                if "opened" in st.ts and not ("strict" in st.ts and "closed" in st.ts or "asked" in st.ts[st.ts.index("opened"):]):
                    rule.rep.violation(f["file"], 0, "main", "unwritten",
                                       "a configuration that could not be written is reported as loaded", key="unwritten", trace=st.trace())
                if "opened" not in st.ts:
                    x = eng.lookup(st, ("var", noop))
                    if eng.decide(st, x) is False:
                        rule.rep.violation(f["file"], 0, "main", "unwritten", "a configuration is reported as loaded but was not stored",
                                           key="unstored", trace=st.trace())
    rep.need("values", 12)
    rep.need("groups", 1)
    rep.need("servers", 3)
    rep.need("group numbers", 1)
