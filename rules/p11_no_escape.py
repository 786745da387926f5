"""No exception leaves the C interface or a thread."""
from sa.lib import *
from sa.effects import effects

EXPLAIN = ("Exception-effect analysis: for every function the set of exception types that can leave it (throw "
           "expressions, rethrows, throwing standard functions and the effects of every callee, virtual overriders "
           "included, minus what the enclosing handlers catch by type) is computed as a fix point over the call graph. "
           "The set must be empty for every function of the C interface, for every function declared noexcept and for "
           "every function a thread starts with; a service routine (called through a pointer) must be called inside a "
           "handler for std::exception.")


def is_service(f):
    """void f(TPSVCINFO *), called by the dispatcher."""
    ps = f.get("p") or []
    if len(ps) != 1 or (f["rt"] or {}).get("s") != "void":
        return False
    return "tpsvcinfo" in ((ps[0].get("t") or {}).get("s") or "")


def thread_starts(prog):
    for u, f in sorted(prog.functions.items()):
        for r in [f.get("b") or {}] + [i["e"] for i in f.get("inits") or [] if i.get("e")]:
            for n in walk(r):
                if n["k"] == "ctor" and base(n.get("n") or "") in ("std::thread::thread", "std::jthread::jthread"):
                    for a in n.get("args") or []:
                        for x in walk(a):
                            if x.get("fn") and x["k"] in ("ref", "lambda", "fref"):
                                g = prog.resolve(x["fn"], f["unit"])
                                if g:
                                    yield f, n, g


def check(prog, rep):
    ef = effects(prog)
    def report(g, what):
        for t in sorted(ef.esc[g["u"]]):
            if t == "std::bad_alloc":
                continue            # memory exhaustion is not covered
            ch = ef.chain(g["u"], t)
            rep.violation(g["f"], g["l"], g["n"], "escape", "%s can leave %s" % (t, what),
                          key="escape|%s|%s" % (base(g["n"]), t),
                          trace=[(c[0], c[1], c[2]) for c in ch])
    for u, f in sorted(prog.functions.items()):
        if not f.get("b"):
            continue
        if f.get("externc"):
            if is_service(f):
                rep.instance("service-routine", f["n"])
                continue
            rep.instance("c-function", f["n"])
            report(f, "the C function")
        elif f.get("nothrow") and not base(f["n"]).split("::")[-1].startswith("~"):
            rep.instance("noexcept-function", f["n"] + " " + f["u"][-80:])
            report(f, "a noexcept function (the process is aborted)")
    for f, n, g in thread_starts(prog):
        rep.instance("thread-start", g["n"])
        report(g, "the function of a thread (the process is aborted)")
    # services are called through a pointer inside a handler
    for u, f in sorted(prog.functions.items()):
        for n, handlers in calls_in_try(f.get("b")):
            if n.get("n") or n.get("fn") or not n.get("args"):
                continue
            a = n["args"]
            if len(a) == 1 and "tpsvcinfo" in str(type_of(a[0])):
                rep.instance("service-call", "%s:%s" % (f["f"], n.get("l")))
                if not any(ef.caught(h, "std::exception") for hs in handlers for h in hs):
                    rep.violation(f["f"], n.get("l"), f["n"], "service-call", "a service routine is called outside a "
                                  "handler for std::exception", key="service-call|" + base(f["n"]))
    for k, v in ef.stats.items():
        rep.count(k, len(v))
    rep.fnset = set(prog.functions)
    rep.need("c-function", 60)
    rep.need("service-call", 1)


def type_of(e):
    e = strip(e)
    while e is not None and e.get("k") == "un" and e.get("op") == "&":
        e = strip(e["e"])
    return (e or {}).get("t") or {}


def calls_in_try(n, handlers=()):
    if isinstance(n, list):
        for x in n:
            yield from calls_in_try(x, handlers)
    elif isinstance(n, dict):
        if n.get("k") == "try":
            yield from calls_in_try(n["b"], handlers + (n["h"],))
            for h in n["h"]:
                yield from calls_in_try(h["b"], handlers)
            return
        if n.get("k") == "call":
            yield n, handlers
        for k, x in n.items():
            if k not in ("t",) and isinstance(x, (dict, list)):
                yield from calls_in_try(x, handlers)
