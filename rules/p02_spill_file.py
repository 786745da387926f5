"""Oversized messages travel through a file that never outlives its use."""
from sa.lib import *
from sa.linear import lin

EXPLAIN = ("Typestate of the spill file (none, open, on disk, removed) and of every descriptor over all paths of the "
           "send and receive primitives, exceptions and scope exits included, plus agreement of the two sides: header "
           "fields set before the header is sent, same payload offset and length written and read, whole message sent, "
           "direct messages bounded (interval of the size at the send) by the receiver's buffer, receive capacity plus "
           "the type field bounded by the buffer size.")

Q, F = 0, 1


class R(FuxRule):
    """ts = (fds, file, sent, done): open descriptors, spill file state, sent?, all bytes moved ("all", "part")?"""
    limit = 400

    def __init__(self, rep, side):
        super().__init__(rep)
        self.side = side
        self.cap = None
        self.offs = set()
        self.roffs = set()
        self.direct = []
        self.name = None

    def mkstemp(self, eng, st, call):
        fds, f, sent, done = st.ts
        out = two_way(eng, st, call, st.ts, st.ts)
        ok = out[0][1]
        ok.ts = (fds | {out[0][2]}, "disk", sent, done)
        self.name = call.args[0]
        return out

    def open(self, eng, st, call):
        fds, f, sent, done = st.ts
        out = two_way(eng, st, call, st.ts, st.ts)
        out[0][1].ts = (fds | {out[0][2]}, f, sent, done)
        return out

    def close(self, eng, st, call):
        fds, f, sent, done = st.ts
        if call.args[0] not in fds:
            self.fail(eng, st, "closed-once", "close() of a descriptor that is not open here", call.line)
        ts = (fds - {call.args[0]}, f, sent, done)
        return two_way(eng, st, call, ts, ts)

    def unlink(self, eng, st, call):
        fds, f, sent, done = st.ts
        self.rep.instance("unlink-site", "%s:%d" % (call.file, call.line))
        ts = (fds, "gone", sent, done)
        return two_way(eng, st, call, ts, ts)

    def write(self, eng, st, call):
        fd, ptr, n = call.args[:3]
        if fd not in st.ts[0]:
            self.fail(eng, st, "open-descriptor", "write() to a descriptor that is not open", call.line)
        base_, off = payload(ptr)
        if base_ is None:
            self.fail(eng, st, "payload-region", "the spill file is not written from the message buffer", call.line)
        else:
            size = eng.lookup(st, ("fld", base_, "$size"))
            if mk_sub_(size, n) != off:
                self.fail(eng, st, "payload-region",
                          "the spill file does not hold the message from offset %s to its end" % show(off), call.line)
            self.offs.add(off)
        self.rep.instance("transfer", "%s:%d write" % (call.file, call.line))
        return self.moved(eng, st, call, n, st.ts[1])

    def read(self, eng, st, call):
        fd, ptr, n = call.args[:3]
        if fd not in st.ts[0]:
            self.fail(eng, st, "open-descriptor", "read() from a descriptor that is not open", call.line)
        base_, off = payload(ptr)
        if base_ is None:
            self.fail(eng, st, "payload-region", "the spill file is not read into the message buffer", call.line)
        else:
            size = eng.lookup(st, ("fld", base_, "$size"))
            if mk_sub_(size, n) != off:
                self.fail(eng, st, "payload-region",
                          "the message is not resized to offset %s plus the length read" % show(off), call.line)
            self.roffs.add(off)
        self.rep.instance("transfer", "%s:%d read" % (call.file, call.line))
        return self.moved(eng, st, call, n, "read")

    def moved(self, eng, st, call, n, f):
        """A transfer moves all bytes, only some of them, or fails."""
        fds, was, sent, done = st.ts
        whole, none = two_way(eng, st, call, (fds, f, sent, "all"), st.ts, okval=n)
        if not isc(n):
            none[1].facts[mk_eq(n, ("c", -1))] = False      # lengths are not negative
        part = st.copy()
        v = eng.fresh(part, base(call.name), call.line)
        part.facts[mk_lt(v, C0)] = False
        part.facts[mk_lt(v, n)] = True
        part.facts[mk_eq(v, n)] = False
        part.facts[mk_eq(v, ("c", -1))] = False
        part.ts = (fds, f, sent, "part")
        part.note(eng.curfile(), call.line, "%s moves only some of the bytes" % call.name)
        return [whole, ("ret", part, v), none]

    def msgsnd(self, eng, st, call):
        fds, f, sent, done = st.ts
        p, n = call.args[1], call.args[2]
        data = ("deref", ("sym", "p:data"))
        bytes_ = None
        self.rep.instance("transfer", "%s:%d msgsnd%s" % (call.file, call.line, " (name)" if f else ""))
        loc = deref(p)
        ttype = eng.lookup(st, ("fld", loc, "ttype"))
        if f is None:
            base_, off = payload(p)
            if base_ is None or off != C0:
                self.fail(eng, st, "direct-send", "a direct message is not sent from the start of its buffer", call.line)
            else:
                size = eng.lookup(st, ("fld", base_, "$size"))
                if mk_sub_(size, n) != ("c", 8):
                    self.fail(eng, st, "direct-send", "a direct message is not sent whole", call.line)
                _, hi, _ = eng.bounds(st, size)
                self.direct.append((call.file, call.line, hi, st.trace()))
            if ttype != ("c", Q):
                self.fail(eng, st, "transport-tag", "a direct message is not tagged as direct", call.line)
        else:
            if f != "disk":
                self.fail(eng, st, "file-exists", "the file's name is sent after the file was removed", call.line)
            if ttype != ("c", F):
                self.fail(eng, st, "transport-tag", "the name of a spill file is not tagged as a file", call.line)
            for fld in ("mtype", "cat"):
                v = eng.lookup(st, ("fld", loc, fld))
                src = [t for t in _lds(v)]
                if not any(t[1][0] == "fld" and t[1][2] == fld and t[1][1] != loc for t in src):
                    self.fail(eng, st, "header-kept",
                              "the header sent for a spilled message does not carry the message's %s" % fld, call.line,
                              key="header-kept|" + fld)
            name = ("fld", loc, "filename")
            if not any(k[0] in ("ver", "idx") and (k[1] == name or root_under(k, name)) for k in st.env) and \
                    name not in st.env:
                self.fail(eng, st, "name-sent", "the spill file's name is not put into the message", call.line)
            if done != "all":
                self.fail(eng, st, "whole-file", "the file's name is sent although not all of the message was written", call.line)
            # the name's end must be sent too, the receiver looks for it
            off, room = self.name_at(eng, st)
            form = lin(n)
            if off is not None and not any(k is not None and k[0] == "sym" for k in form):
                need = off + 1 - 8 if any(k is not None for k in form) else off + (room or 1) - 8
                if form.get(None, 0) < need:
                    self.fail(eng, st, "name-sent", "the spill file's name is sent without its end", call.line)
        a = two_way(eng, st, call, (fds, f, True, done), (fds, f, sent, done))
        return a

    def name_at(self, eng, st):
        rec = eng.prog.records.get("fux::ipc::msgfile") or {}
        off = next((x["off"] // 8 for x in rec.get("fields", []) if x["n"] == "filename"), None)
        p = self.name
        room = None
        if p is not None and p[0] == "addr":
            loc = p[1][1] if p[1][0] == "idx" else p[1]
            room = (eng.arrays.get(loc) or (None,))[0]
        return off, room

    def msgrcv(self, eng, st, call):
        base_, off = payload(call.args[1])
        cap = call.args[2]
        self.rep.instance("transfer", "%s:%d msgrcv" % (call.file, call.line))
        if base_ is None or off != C0:
            self.fail(eng, st, "receive-buffer", "a message is not received at the start of the buffer", call.line)
            return None
        size = eng.lookup(st, ("fld", base_, "$size"))
        if not (isc(size) and isc(cap)):
            raise AnalysisBroken("receive buffer size or capacity not constant")
        self.cap = cap[1]
        if cap[1] + 8 > size[1]:
            self.fail(eng, st, "receive-buffer", "msgrcv() may write %d bytes into a buffer of %d"
                      % (cap[1] + 8, size[1]), call.line)
        # content is now unknown, size unchanged
        keep = st.env.get(("fld", base_, "$size"))
        eng.havoc(st, base_, call.line)
        st.env[("fld", base_, "$size")] = keep
        out = two_way(eng, st, call, st.ts, st.ts)
        self.n = out[0][2]
        self.buf = base_
        return out

    handlers = {"mkstemp": mkstemp, "mkostemp": mkstemp, "open": open, "close": close, "unlink": unlink,
                "remove": unlink, "write": write, "read": read, "msgsnd": msgsnd, "msgrcv": msgrcv}


def _lds(v):
    from sa.engine import subterms
    return [t for t in subterms(v) if t[0] == "ld"]


def root_under(k, name):
    from sa.engine import under
    return under(k, name)


def mk_sub_(a, b):
    from sa.engine import mk_sub
    return mk_sub(a, b)


def payload(ptr):
    """(container location, offset) of a pointer into a message buffer."""
    if ptr[0] == "addr" and ptr[1][0] == "idx" and ptr[1][1][0] != "var":
        return ptr[1][1], ptr[1][2]
    return None, None


def check(prog, rep):
    # sender
    r = R(rep, "send")
    eng, outs, fn = run_root(prog, r, "fux::ipc::qsend", State(ts=(frozenset(), None, False, None)), rep=rep)
    for out in outs:
        s = out[1]
        fds, f, sent, done = s.ts
        where = (fn["file"], fn["l"], fn["n"])
        if fds:
            rep.violation(*where, "descriptor-closed", "a descriptor stays open on a path that leaves by %s"
                          % ("exception" if out[0] == "throw" else "return"), trace=s.trace())
        if f == "disk" and not sent:
            rep.violation(*where, "file-removed", "the spill file stays on disk although its name was not sent (%s)"
                          % ("exception" if out[0] == "throw" else "return"), trace=s.trace())
        if f == "gone" and sent:
            rep.violation(*where, "file-kept", "the spill file is removed although its name was sent",
                          trace=s.trace())
        rep.count("sender exits")
    # receiver
    r2 = R(rep, "recv")
    eng, outs, fn = run_root(prog, r2, "fux::ipc::qrecv", State(ts=(frozenset(), None, False, None)), rep=rep)
    if r2.cap is None:
        raise AnalysisBroken("qrecv does not receive")
    seen = set()
    for out in outs:
        s = out[1]
        fds, f, sent, done = s.ts
        where = (fn["file"], fn["l"], fn["n"])
        if fds:
            rep.violation(*where, "descriptor-closed", "a descriptor stays open on a path that leaves by %s"
                          % ("exception" if out[0] == "throw" else "return"), trace=s.trace())
        if out[0] == "ret":
            seen.add(f)
            tt = [(k, v) for k, v in s.facts.items() if k[0] == "==" and k[1][0] == "ld" and
                  k[1][1][0] == "fld" and k[1][1][2] == "ttype"]
            isfile = any(v for k, v in tt if k[2] == ("c", F)) or any(not v for k, v in tt if k[2] == ("c", Q))
            if isfile and done != "all":
                rep.violation(*where, "whole-file", "a message is handed out although not all of the file was read",
                              trace=s.trace())
            if isfile and f != "gone":
                rep.violation(*where, "file-removed", "a received spill file is not removed", trace=s.trace())
            if not isfile and f is not None:
                rep.violation(*where, "file-kept", "a file is used for a message that was sent directly",
                              trace=s.trace())
            if not isfile:
                size = eng.lookup(s, ("fld", r2.buf, "$size"))
                if mk_sub_(size, r2.n) != ("c", 8):
                    rep.violation(*where, "received-size",
                                  "a direct message is not resized to the bytes received plus the type", trace=s.trace())
        rep.count("receiver exits")
    if "gone" not in seen and not rep.findings:
        raise AnalysisBroken("no path of qrecv handles a spill file")
    for file, line, hi, tr in r.direct:
        if hi is None or hi - 8 > r2.cap:
            rep.violation(file, line, "fux::ipc::qsend", "direct-bound",
                          "a message of up to %s bytes is sent directly, the receiver takes %d"
                          % (hi if hi is not None and hi < 1 << 60 else "unbounded", r2.cap + 8), trace=tr)
    rep.instance("agreement", "payload offsets written %s read %s" % (sorted(map(show, r.offs)), sorted(map(show, r2.roffs))))
    if r.offs and r2.roffs and r.offs != r2.roffs:
        rep.violation(fn["file"], fn["l"], fn["n"], "payload-offset",
                      "the payload is written from offset %s but read back at offset %s"
                      % (sorted(map(show, r.offs)), sorted(map(show, r2.roffs))))
    if not rep.findings:
        rep.need("transfer", 5)
