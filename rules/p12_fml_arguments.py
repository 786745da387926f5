"""Functions of fielded buffers refuse what is no fielded buffer and no field."""
from .fmlsim import *

EXPLAIN = ("Constant propagation of every invalid argument: each function of the fielded-buffer interface is analysed "
           "once with a null and once with a misaligned pointer for each of its fielded buffers, and once with every "
           "kind of invalid field identifier; on no path may the buffer be touched, all paths must return the failure "
           "value and the error they leave must be the documented one. With a field of each valid type the function "
           "must get past its checks.")

# position of the field identifier
FIELDID = {n: 1 for n in ("Fchg32", "Fadd32", "Ffind32", "Ffindlast32", "Fpres32", "Foccur32", "Flen32", "Fdel32", "Fdelall32",
                          "Fget32", "Fgetalloc32", "Ffindocc32", "CFadd32", "CFchg32", "CFfindocc32", "CFfind32", "CFget32",
                          "Ffinds32", "Fgets32")}


class ArgRule(FmlRule):
    bad = None                 # the invalid pointer

    def opaque(self, fn):
        if fn.get("rec") == "Fbfr32" and fn["n"].startswith("Fbfr32::") and base(fn["n"]).split("::")[-1] not in ("needed",):
            return True
        return super().opaque(fn)

    def use(self, eng, st, what, line):
        self.rep.violation(eng.curfile(), line or 0, eng.stack[0]["n"], "used", "an invalid fielded buffer is used (%s)" % what,
                           key="used|%s" % eng.stack[0]["n"], trace=st.trace())

    def call(self, eng, st, call):
        if self.bad is not None:
            if call.obj is not None and call.obj in (self.bad, deref(self.bad)):
                self.use(eng, st, base(call.name), call.line)
            elif call.fn is None and self.bad in call.args and self.bad != C0 and not base(call.name).startswith(("v", "f")):
                self.use(eng, st, base(call.name), call.line)
            elif self.bad == C0 and base(call.name) in ("realloc", "free") and call.args[0] == C0:
                self.use(eng, st, base(call.name), call.line)
        if call.fn is not None and call.fn.get("rec") == "Fbfr32" or base(call.name) in ("boolev", "extreader::parse"):
            st.ts = st.ts + (("work",),)
        return super().call(eng, st, call)

    def load(self, eng, st, loc, node):
        if self.bad is not None and root(loc) == deref(self.bad) or loc == ("deref", self.bad):
            self.use(eng, st, "read", (node or {}).get("l"))

    def store(self, eng, st, loc, val, node):
        super().store(eng, st, loc, val, node)
        if self.bad is not None and under(loc, ("deref", self.bad)):
            self.use(eng, st, "written", (node or {}).get("l") if isinstance(node, dict) else 0)


def failure(f):
    return C0 if f["rt"]["k"] == "ptr" else ("c", -1)


def isfailure(v, f):
    if v == failure(f):
        return True
    return f["rt"]["s"] == "double" and v is not None and v[0] == "c" and v[1] == -1


def check(prog, rep):
    num, err = constants(prog)
    rule = ArgRule(rep).start(prog)
    fs = sorted((f for f in prog.functions.values() if f.get("externc") and f.get("b") and f["f"].split("/")[-1] in FILES(prog)
                 and any(is_fbfr(p) for p in f["p"])), key=lambda f: f["n"])
    names = {f["n"] for f in fs}
    for n in FIELDID:
        if n not in names:
            raise AnalysisBroken("%s not found" % n)

    def run(f, i, v, bad):
        rule.bad = v if bad else None
        args = [v if k == i else ("sym", "p:" + p["n"]) for k, p in enumerate(f["p"])]
        st = State(ts=())
        for k, p in enumerate(f["p"]):
            if k != i and is_fbfr(p):
                # the other one is valid
                args[k] = ("c", 4096 * (k + 1))
        return run_root(prog, rule, f, st, args=args, rep=rep)

    def refused(f, outs, what, errors, why, tag):
        for o in outs:
            if o[0] != "ret":
                rep.violation(f["file"], f["l"], f["n"], "thrown", "an exception leaves the function when it is given %s" % what,
                              key="thrown|%s|%s" % (f["n"], tag), trace=o[1].trace())
                continue
            if any(e[0] == "work" for e in o[1].ts):
                rep.violation(f["file"], f["l"], f["n"], "not-refused", "the function goes on with %s" % what,
                              key="not-refused|%s|%s" % (f["n"], tag), trace=o[1].trace())
            elif not isfailure(o[2], f):
                rep.violation(f["file"], f["l"], f["n"], "not-refused", "no failure is returned for %s" % what,
                              key="not-refused|%s|%s" % (f["n"], tag), trace=o[1].trace())
            elif last_error(o[1]) not in [("c", err[e]) for e in errors]:
                rep.violation(f["file"], f["l"], f["n"], "wrong-error", "%s is not reported as %s" % (what, " or ".join(errors)),
                              key="wrong-error|%s|%s" % (f["n"], tag), trace=o[1].trace())

    for f in fs:
        for i, p in enumerate(f["p"]):
            if not is_fbfr(p):
                continue
            rep.instance("buffer-argument", "%s:%d" % (f["n"], i))
            for v, what in ((0, "a null buffer"), (4096 + 4, "a misaligned buffer"), (4096 + 1, "a misaligned buffer"),
                            (4096 + 2, "a misaligned buffer")):
                eng, outs, _ = run(f, i, ("c", v), True)
                refused(f, outs, what, ("FNOTFLD",) if not v else ("FNOTFLD", "FALIGNERR"), f, "buffer%d" % i)
        i = FIELDID.get(f["n"])
        if i is None:
            continue
        rep.instance("field-argument", f["n"])
        valid = set(num.values())
        for t in range(0, 256):
            if t not in valid:
                if t > 12 and t not in (64, 127, 128, 255):
                    continue
                eng, outs, _ = run(f, i, fldid(t), False)
                refused(f, outs, "a field of an unknown type", ("FTYPERR", "FBADFLD"), f, "field")
            else:
                eng, outs, _ = run(f, i, fldid(t), False)
                if t == num["FML32"] and f["n"].startswith("CF"):
                    continue            # no conversion to or from fielded buffers
                if not any(any(e[0] == "work" for e in o[1].ts) for o in outs):
                    rep.violation(f["file"], f["l"], f["n"], "valid-refused", "a field of a valid type is refused",
                                  key="valid-refused|%s" % f["n"])
        eng, outs, _ = run(f, i, C0, False)
        refused(f, outs, "field identifier 0", ("FBADFLD",), f, "badfld")
    rep.need("buffer-argument", 45)
    rep.need("field-argument", 19)


def FILES(prog):
    return ("fml32.cpp", "expr.cpp")


def is_fbfr(p):
    t = p["t"]
    return t["k"] == "ptr" and (t.get("p") or {}).get("r") == "Fbfr32"
