"""Locks are released on every exit, never taken twice, survive the holder's death."""
from sa.lib import *

EXPLAIN = ("Lock-state analysis (property simulation) from every function from which a lock operation is reachable, "
           "guards, destructors, moves and exceptional exits included: the locks held at every exit equal those held "
           "at entry, no path takes a lock it already holds, every operation on the table semaphore is -1 / +1 with "
           "undo-on-exit, no blocking queue receive, send or sleep happens under the table semaphore, and application "
           "code is never called (or jumped back to) with a lock held.")

SEM_UNDO = 0x1000


class R(LockRule):
    def __init__(self, rep, reach):
        super().__init__(rep, reach)
        self.problems = []

    def on_double(self, eng, st, key, line):
        self.fail(eng, st, "self-deadlock", "the %s lock is taken while this thread already holds it" % key[1], line)

    def sem_event(self, eng, st, call, op, flg):
        self.rep.instance("semaphore-operation", "%s:%d %+d" % (call.file, call.line, op[1]))
        if abs(op[1]) != 1:
            self.fail(eng, st, "semaphore-step", "the table semaphore is changed by %d" % op[1], call.line)
        if not isc(flg) or not flg[1] & SEM_UNDO:
            self.fail(eng, st, "undo-on-exit",
                      "a semaphore operation is not undone when the process dies (no SEM_UNDO)", call.line)

    def call(self, eng, st, call):
        held = [k for k, v in st.ts[0] if v > 0]
        n = base(call.name)
        if held and call.name == "<indirect>":
            self.fail(eng, st, "callback-unlocked", "application code is called while %s is held" % held[0][1], call.line)
        if any(k[0] == "sem" for k in held) and n in BLOCKING:
            if n == "msgsnd" or n == "msgrcv":
                f = call.args[-1]
                if isc(f) and f[1] & 0x800:
                    return super().call(eng, st, call)
            self.fail(eng, st, "no-wait-under-lock", "%s() may block while the table lock is held" % n, call.line)
        return super().call(eng, st, call)


BLOCKING = {"msgsnd", "msgrcv", "nanosleep", "sleep", "usleep", "waitpid", "wait", "system"}


def check(prog, rep):
    res = lock_analysis(prog, rep, R)
    acq, block, direct = {}, {}, {}
    dn = direct_names(prog)
    for u, keys in res.acquired.items():
        for k in keys:
            acq.setdefault(k, set()).add(u)
    # an accessor of the shared object locks only while it creates that object,
    # which the lock held belongs to
    once = R(rep, res.unbalanced)
    for k in acq:
        acq[k] = reaching(prog, acq[k], lambda u: once.singleton(None, prog.functions[u]) is not None)
    blk = reaching(prog, {u for u, s in dn.items() if s & BLOCKING})
    for (u, callee), (held, st, line) in sorted(res.calls.items(), key=lambda x: x[0]):
        fn, cf = prog.functions[u], prog.functions[callee]
        rep.instance("call-under-lock", "%s -> %s" % (fn["n"], cf["n"]))
        for k in held:
            if callee in acq.get(k, ()):
                rep.violation(fn["file"], line, fn["n"], "self-deadlock",
                              "%s() is called while the %s lock is held and takes it again" % (cf["n"], k[1]),
                              trace=st.trace())
            if k[0] == "sem" and callee in blk:
                rep.violation(fn["file"], line, fn["n"], "no-wait-under-lock",
                              "%s() is called while the table lock is held and may wait" % cf["n"], trace=st.trace())
    rep.need("semaphore-operation", 2)
    rep.need("lock-balance", 8)


