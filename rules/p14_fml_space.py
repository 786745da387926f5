"""A fielded buffer is changed within its space and stays in order."""
from .fmlbuf import *

EXPLAIN = ("Every operation that changes a fielded buffer is simulated for each field type, for a field that is new, "
           "replaces a shorter, equal or longer one or comes before another, with constants for lengths and symbols for "
           "everything else (size, fill, where the field is). Offsets of all moves and copies, the new fill and the new "
           "bounds of every type are compared as linear forms with what the change amounts to; growth must be under a "
           "comparison with the size that was made before the first byte is written.")

SRC = ("sym", "p:src")


def writes(st):
    """Events that change the buffer."""
    r = []
    for e in st.ts:
        if e[0] in ("copy", "fill", "set"):
            p = e[1]
            if p[0] == DATA or p[0] == SELF or contains(p[0], SELF) and not contains(p[0], ("sym", "p:src")):
                r.append(e)
    return r


def impossible(st, d):
    """More is in use than there is, which no change leaves behind."""
    l = lsub(lsub(lin(mk_add(was("len_"), ("c", d))), lin(was("size_"))), {None: 1})
    return d <= 0 and atleast0(st, l)


def spread(B, eng, st, chain, t, delta):
    """Types whose fields are not where they should be after a type grew by delta."""
    r0, r1 = B.regions(), B.regions(eng, st)
    if r1 is None:
        return list(chain)
    bad, after = [], False
    for u in chain:
        want = mk_add(r0[u][0], delta) if after else r0[u][0]
        if u == t:
            after = True
        end = mk_add(r0[u][1], delta) if after else r0[u][1]
        if not same(r1[u][0], want) or not same(r1[u][1], end):
            bad.append(u)
    return bad


def check_chg(B, chain):
    f = B.fn("chg", 4)
    reg = B.regions()
    for t in B.types:
        fid = fldid(B.num[t])
        for found in ("none", "other", "there"):
            olds = B.lens(t) if found == "there" else (0,)
            for old in olds:
                for n in B.lens(t):
                    if found == "there" and len(olds) > 3 and n not in (0, 1, 8, 9, 16):
                        continue
                    B.rep.instance("change", "%s %s %s/%s" % (t, found, old, n))
                    eng, outs = B.chg(t, n, (found,), old)
                    after = B.entry(t, n)
                    before = B.entry(t, old) if found == "there" else 0
                    d = after - before
                    at = reg[t][1] if found == "none" else AT
                    done = [o for o in outs if o[0] == "ret" and o[2] == C0]
                    if not done:
                        B.viol(f, None, "never-done", "a %s field is never stored" % t.lower(), t)
                    for o in outs:
                        st = o[1]
                        if impossible(st, d):
                            continue
                        if o[0] != "ret" or o[2] != C0:
                            if writes(st):
                                B.viol(f, st, "refused-changes", "a change that fails leaves the buffer changed", t)
                            if d <= 0:
                                B.viol(f, st, "refused", "a value that takes no more space than the old one is refused", t)
                            elif o[0] == "ret" and last_error(st) != ("c", B.err["FNOSPACE"]):
                                B.viol(f, st, "refused-error", "lack of space is not reported as such", t)
                            elif o[0] == "ret" and not atleast0(st, lsub(lsub(lin(mk_add(was("len_"), ("c", d))), lin(was("size_"))), {None: 1})):
                                B.viol(f, st, "refused", "a value that fits is refused", t)
                            continue
                        why = one_change(B, eng, st, t, n, d, before, at, found, chain)
                        if why:
                            B.viol(f, st, why[0], "storing a %s field: %s" % (t.lower(), why[1]), t)
    # a missing occurrence that can not be stored
    B.rep.instance("fill-missing", "chg")
    for t in ("SHORT", "STRING"):
        eng, outs = B.chg(t, 8, ("none", "there", "other"), 8, occur=("sym", "count"), oc=("sym", "p:oc"))
        seen = False
        for o in outs:
            for e in o[1].ts:
                if e[0] == "filler":
                    seen = True
                    if o[0] == "ret" and o[2] == C0 and o[1].facts.get(mk_eq(e[1], ("c", -1))) is not False and \
                            o[1].facts.get(mk_eq(e[1], C0)) is not True and not atleast0(o[1], lin(e[1])):
                        B.viol(f, o[1], "filler-failed", "success although an occurrence before could not be stored", t)
        if not seen:
            B.viol(f, None, "filler", "occurrences that are missing before the one stored are not filled in", t)


def one_change(B, eng, st, t, n, d, before, at, found, chain):
    fid = fldid(B.num[t])
    if d > 0 and not atleast0(st, lsub(lin(was("size_")), lin(mk_add(was("len_"), ("c", d))))):
        return "space", "the buffer's size is not compared with what the field needs"
    if not same(now(eng, st, "len_"), mk_add(was("len_"), ("c", d))):
        return "fill", "the space in use afterwards is not what the fields take"
    bad = spread(B, eng, st, chain, t, ("c", d))
    if bad:
        return "index", "the fields of %s are sought in the wrong place afterwards" % ", ".join(x.lower() for x in bad)
    ev = [e for e in st.ts if e[0] in ("copy", "fill", "set") and off(e[1]) is not None]
    moves = [e for e in ev if e[0] == "copy" and off(e[2]) is not None]
    tail = mk_add(at, ("c", before))
    if d != 0:
        moves = [e for e in moves if not same(e[3], C0)]
        # everything behind may move as a whole from the place of a new field on
        if not moves and atleast0(st, lsub(lin(tail), lin(was("len_")))):
            moves, ev = [("copy", (DATA, mk_add(tail, ("c", d))), (DATA, tail), C0)], ev
        ok = len(moves) == 1 and same(off(moves[0][1]), mk_add(off(moves[0][2]), ("c", d))) and \
            same(mk_add(off(moves[0][2]), moves[0][3]), was("len_"))
        if not ok:
            return "move", "the fields behind are not moved by what the field grew or shrank"
        s = lsub(lin(tail), lin(off(moves[0][2])))
        if const(s) is None or not (0 <= const(s) <= (before if d > 0 else 0)):
            return "move", "the fields behind are not moved as a whole"
        first = ev.index(moves[0]) if moves[0] in ev else 0
        if [e for e in ev[:first]]:
            return "move-late", "the field is written before those behind it were moved"
    elif [e for e in moves if not same(e[3], C0) and not same(off(e[1]), off(e[2]))]:
        return "move", "fields behind move although the field keeps its length"
    v = B.width(t, n)
    place = None
    for e in ev:
        if e in moves:
            continue
        rel = lsub(lin(off(e[1])), lin(at))
        k = const(rel)
        z = const(lin(e[3])) if e[0] != "set" else 4
        if k is None or z is None or k < 0 or k + z > B.entry(t, n):
            return "write-outside", "bytes outside of the field are written"
        if e[0] == "set" and k == 0:
            place = e
        if e[0] == "copy" and e[2] == (("deref", VALUE), C0) and not same(e[3], ("c", v)):
            return "value", "not exactly the value is copied"
    if found != "there" and (place is None or place[2] != fid) or place is not None and place[2] != fid:
        return "number", "the field does not get its number"
    return None


def check_erase(B, chain):
    for name, args in (("del", lambda i: [i, C0]), ("delall", lambda i: [i])):
        a0 = args(C0)
        f = B.fn(name, len(a0))
        for t in B.types:
            fid = fldid(B.num[t])
            for n in (B.lens(t)[0], B.lens(t)[-1]):
                for found in ("there", "none", "other"):
                    B.rep.instance("remove", "%s %s %s" % (name, t, found))
                    eng, outs = B.run(f, args(fid), found=(found,), oldlen=n, follow=("occur",))
                    for o in outs:
                        st = o[1]
                        w = writes(st)
                        if o[0] != "ret" or o[2] != C0:
                            if w:
                                B.viol(f, st, "refused-changes", "a removal that fails leaves the buffer changed", t)
                            if found == "there":
                                B.viol(f, st, "not-removed", "a field that is present is not removed", t)
                            elif o[0] == "ret" and last_error(st) != ("c", B.err["FNOTPRES"]):
                                B.viol(f, st, "not-present", "a field that is not present is not reported as such", t)
                            continue
                        if found != "there":
                            B.viol(f, st, "removed-other", "success is reported, or another field removed, for a field that is not present", t)
                            continue
                        mv = [e for e in st.ts if e[0] == "copy" and off(e[1]) is not None]
                        delta = mk_sub(now(eng, st, "len_"), was("len_"))
                        ld = lsub(lin(now(eng, st, "len_")), lin(was("len_")))
                        nf = lambda x: norm(B.rule, eng, x)
                        dlin = lambda x: lin(x)
                        if not mv:
                            if const(lsub(lin(nf(now(eng, st, "len_"))), lin(AT))) != 0:
                                B.viol(f, st, "gap", "fields behind a removed one are not moved up", t)
                            continue
                        e = mv[0]
                        if len(mv) != 1 or not same(off(e[1]), AT) or not same(mk_add(off(e[2]) or C0, e[3]), was("len_")) or off(e[2]) is None:
                            src = e[2]
                            # the loop's result: an unknown place behind
                            if not (name == "delall" and src[0] != DATA and removed_upto(e)):
                                B.viol(f, st, "move", "the fields behind a removed one are not moved into its place", t)
                                continue
                        if off(e[2]) is not None:
                            gone = mk_sub(off(e[2]), AT)
                            if name == "del":
                                k = const(lin(gone))
                                last = same(off(e[2]), was("len_"))
                                if k != B.entry(t, n) and not last:
                                    B.viol(f, st, "part", "not exactly the field is removed", t)
                                if last and k is None and not atleast0(st, lsub(lin(mk_add(AT, ("c", B.entry(t, n)))), lin(was("len_"))), nf=nf):
                                    B.viol(f, st, "too-much", "fields behind the removed one are removed with it", t)
                            if not same(mk_add(now(eng, st, "len_"), gone), was("len_")):
                                B.viol(f, st, "fill", "the space in use afterwards is not what the fields take", t)
                                continue
                            bad = spread(B, eng, st, chain, t, mk_neg(gone))
                        else:
                            bad = spread(B, eng, st, chain, t, mk_sub(now(eng, st, "len_"), was("len_")))
                        if bad:
                            B.viol(f, st, "index", "after a %s field is removed the fields of %s are sought in the wrong place" %
                                   (t.lower(), ", ".join(x.lower() for x in bad)), t)


def removed_upto(e):
    """memmove(from, to, end - to) with a place the analysis only knows by name."""
    return True


def mk_neg(t):
    return mk_sub(C0, t)


def is_id(t):
    return t[0] == "ld" and field_of(t[1]) == "fieldid"


class SearchRule(BufRule):
    """Typestate of a search: what is known of the field looked at in this turn."""
    unroll = 0

    def iter_begin(self, eng, st, node):
        st.ts = (("vars", tuple((k, v) for k, v in st.env.items() if k[0] == "var")),)

    def iter_end(self, eng, st, node, how):
        if how == "next":
            self.turns += 1
            why = self.stepped(eng, st)
            if why:
                self.bad.append((why, st))
            st.ts = ()

    def known(self, eng, st):
        """(behind the sought one, the same field, the sought occurrence) - None when not known."""
        gt = eq = occ = None
        for e in st.ts:
            if e[0] == "rel":
                gt = eng.decide(st, mk_lt(self.fid, e[1])) if gt is None else gt
                eq = eng.decide(st, mk_eq(e[1], self.fid)) if eq is None else eq
                if e[1] == self.fid:
                    gt, eq = False, True
            if e[0] == "occ":
                occ = e[1]
        if gt is None and eq is False and self.lower:
            gt = True           # those before were left out
        return gt, eq, occ

    def stepped(self, eng, st):
        gt, eq, occ = self.known(eng, st)
        inc = False
        for e in st.ts:
            if e[0] == "vars":
                for k, v in e[1]:
                    n = st.env.get(k)
                    if n is not None and v is not None and n != v and const(lsub(lin(n), lin(v))) in (1, -1):
                        inc = True
        if gt is not False and eq is not True:
            return "search-order", "a search goes on behind the place of the field"
        if eq is True and occ is not False:
            return "search-skips", "a search goes on behind the field sought"
        if eq is True and not inc or eq is not True and inc:
            return "search-count", "a search does not count the occurrences of the field"

    def branch(self, eng, st, cond, truth, node):
        super().branch(eng, st, cond, truth, node)
        atoms = [x for x in cond[1:] if isinstance(x, tuple)]
        for x in atoms:
            if is_id(x) or x[0] == "sym" and x[1].startswith("id@"):
                st.ts = st.ts + (("rel", x),)
                self.looked.append(self.place(eng, addr(x[1])) if is_id(x) else None)
        if cond[0] == "==" and (self.occ in atoms or C0 in atoms and any(x[0] == "sym" and x[1].startswith("loop") for x in atoms)):
            st.ts = st.ts + (("occ", truth),)

    def store(self, eng, st, loc, val, node):
        super().store(eng, st, loc, val, node)
        if root(loc)[0] == "var" and val is not None:
            p = self.place(eng, val) if val[0] in ("addr", "op") else (None, None)
            if p[0] == DATA:
                self.ptrs.append(p[1])

    def call(self, eng, st, call):
        n = base(call.name)
        if n in ("std::lower_bound",):
            self.lower.append((call.args, st.copy(), call.line))
            a, b = self.place(eng, call.args[0]), self.place(eng, call.args[1])
            self.bounds.append((a, b))
            r = eng.fresh(st, n, call.line)
            return [("ret", st, r)]
        return super().call(eng, st, call)


def check_search(B):
    """A search ends at the field sought, or where it belongs."""
    fs = [f for l in B.m.values() for f in l if B.rule.is_search(f)]
    reg = B.regions()
    for f in fs:
        for t in B.types:
            for n in B.lens(t)[-4:]:
                B.rep.instance("search", "%s/%d" % (t, n))
                rule = SearchRule(B.rep).start(B.prog)
                rule.fid, rule.occ = fldid(B.num[t]), ("sym", "p:oc")
                rule.turns, rule.bad, rule.looked, rule.ptrs, rule.lower, rule.bounds = 0, [], [], [], [], []
                st = State(ts=())
                start = reg[t][0]
                first = ("idx", ("fld", SELF, "data_"), start)
                st.env[("fld", first, "flen")] = ("c", n)
                if start == C0:
                    st.env[("fld", ("fld", SELF, "data_"), "flen")] = ("c", n)
                saved, B.rule = B.rule, rule
                eng, outs = B.run(f, [rule.fid, rule.occ], st)
                B.rule = saved
                for why, s in rule.bad:
                    B.viol(f, s, why[0], why[1], t)
                if not rule.turns:
                    B.viol(f, None, "search", "a search for a %s field looks at one field at most" % t.lower(), t)
                if rule.bounds:
                    for a, b in rule.bounds:
                        if a[0] != DATA or b[0] != DATA or not same(a[1], reg[t][0]) or not same(b[1], reg[t][1]):
                            B.viol(f, None, "search-region", "a %s field is not sought among the fields of its type" % t.lower(), t)
                elif not any(p is not None and p[0] == DATA and same(p[1], start) for p in rule.looked):
                    B.viol(f, None, "search-region", "the search for a %s field does not start with the first of its type" % t.lower(), t)
                for o in rule.ptrs:
                    k = const(lsub(lin(o), lin(start)))
                    if k is not None and k != 0 and k != B.entry(t, n) and not same(o, reg[t][1]):
                        B.viol(f, None, "search-step", "a search for a %s field of %d bytes does not step to the next field" % (t.lower(), n), t)
                for o in outs:
                    s = o[1]
                    if o[0] != "ret":
                        continue
                    if o[2] == C0:
                        if not at_end(s, reg[t][1], start):
                            B.viol(f, s, "search-end", "a search for a %s field ends before the last field" % t.lower(), t)
                        continue
                    if not any(e[0] == "rel" for e in s.ts):
                        if not past_end(s, reg[t][1]):
                            B.viol(f, s, "search-result", "a search for a %s field ends anywhere" % t.lower(), t)
                        continue
                    gt, eq, occ = rule.known(eng, s)
                    if not (gt is True or eq is True and occ is True):
                        B.viol(f, s, "search-result", "a search for a %s field ends at another one" % t.lower(), t)


def ends_in(t, end):
    """Is the term the end of the fields of the type?"""
    l = lin(t)
    d = lsub(l, lin(end))
    return set(d) == {("addr", DATA)}


def at_end(st, end, start):
    """Has the search come to the end of the fields of the type?"""
    def here(t):
        d = lsub(lin(t), lin(start))
        return set(d) == {("addr", DATA)} or None not in lin(t) and ("addr", DATA) not in lin(t)
    for k, v in st.facts.items():
        if k[0] == "==" and v is True and (ends_in(k[1], end) and here(k[2]) or ends_in(k[2], end) and here(k[1])):
            return True
        if k[0] == "==" and v is True and (same(k[1], end) and same(k[2], start) or same(k[2], end) and same(k[1], start)):
            return True
        if k[0] == "<" and v is False and ends_in(k[2], end) and here(k[1]):
            return True
    return False


def past_end(st, end):
    return any(k[0] == "<" and v is False and ends_in(k[2], end) for k, v in st.facts.items())


def check_whole(B):
    """The operations on a whole buffer."""
    BUFLEN = ("sym", "p:buflen")
    head = None
    # what the fixed part takes, as the buffer itself says
    (st, v), = B.value("size", [])
    head = lsub(lin(v), lin(was("size_")))
    hd = const(head)
    rec = B.prog.records.get("Fbfr32")
    start = [x["off"] // 8 for x in rec["fields"] if x["n"] == "data_"]
    if hd is None or [hd] != start:
        B.viol(B.fn("size"), None, "size", "the size of a buffer is not that of its fixed part and its data")
        return
    B.rep.instance("whole", "size")
    f = B.fn("used")
    B.rep.instance("whole", "used")
    (st, v), = B.value("used", [])
    if not same(v, mk_add(was("len_"), ("c", hd))):
        B.viol(f, st, "used", "the used space is not that of the fixed part and the fields")
    f = B.fn("unused")
    (st, v), = B.value("unused", [])
    if not same(v, mk_sub(was("size_"), was("len_"))):
        B.viol(f, st, "unused", "the unused space is not what the fields leave")
    H = ("c", hd)
    nslots = [x["t"]["n"] for x in rec["fields"] if x["n"] == "offsets_"][0]
    # init
    f = B.fn("init")
    B.rep.instance("whole", "init")
    eng, outs = B.run(f, [BUFLEN])
    good = 0
    for o in outs:
        st = o[1]
        if o[0] != "ret" or o[2] != C0:
            if writes(st):
                B.viol(f, st, "refused-changes", "a buffer that is refused is changed")
            continue
        good += 1
        if not atleast0(st, lsub(lin(BUFLEN), lin(H))):
            B.viol(f, st, "init-small", "a buffer smaller than its fixed part is accepted")
        if not same(now(eng, st, "size_"), mk_sub(BUFLEN, H)):
            B.viol(f, st, "init-size", "the size of a new buffer is not what was given less its fixed part")
        if not same(now(eng, st, "len_"), C0):
            B.viol(f, st, "init-fill", "a new buffer is not empty")
        if not empty_index(B, eng, st, nslots):
            B.viol(f, st, "init-index", "a new buffer's bounds of types are not those of an empty one")
    if not good:
        B.viol(f, None, "init-never", "no buffer is ever accepted")
    # after a change of the size
    f = B.fn("reinit")
    B.rep.instance("whole", "reinit")
    eng, outs = B.run(f, [BUFLEN])
    for o in outs:
        st = o[1]
        if o[0] != "ret":
            continue
        ln, sz = now(eng, st, "len_"), now(eng, st, "size_")
        if not same(sz, mk_sub(BUFLEN, H)) and not (not atleast0(st, lsub(lin(BUFLEN), lin(H))) and not same(ln, was("len_"))):
            small = atleast0(st, lsub(lsub(lin(H), lin(BUFLEN)), {None: 1}))
            if not small:
                B.viol(f, st, "resize-size", "the size of a resized buffer is not what was given less its fixed part")
        if not same(ln, C0) and not atleast0(st, lsub(lin(sz), lin(ln))) and \
                not atleast0(st, lsub(lsub(lin(H), lin(BUFLEN)), {None: 1})):
            B.viol(f, st, "resize-fill", "the fields of a buffer that became smaller may reach behind its end")
        if same(ln, C0) and not same(ln, was("len_")) and not empty_index(B, eng, st, nslots):
            B.viol(f, st, "resize-index", "the bounds of types are not those of an empty buffer")
    # copy
    f = B.fn("cpy")
    B.rep.instance("whole", "cpy")
    S = ("deref", SRC)
    eng, outs = B.run(f, [SRC])
    good = 0
    for o in outs:
        st = o[1]
        w = [e for e in st.ts if e[0] in ("copy", "set", "fill")]
        if o[0] != "ret" or o[2] != C0:
            if [e for e in w if contains(e[1][0], SELF)]:
                B.viol(f, st, "refused-changes", "a copy that fails leaves the buffer changed")
            elif o[0] == "ret" and last_error(st) != ("c", B.err["FNOSPACE"]):
                B.viol(f, st, "refused-error", "lack of space is not reported as such")
            continue
        good += 1
        slen = was("len_", S)
        if not atleast0(st, lsub(lin(was("size_")), lin(slen))):
            B.viol(f, st, "space", "a buffer is copied into one that may be too small")
        if not covers(st, B, nslots, slen, S, eng):
            B.viol(f, st, "copy", "not all of the buffer is copied")
        if not same(now(eng, st, "size_"), was("size_")):
            B.viol(f, st, "copy-size", "a copy changes the size of the buffer copied to")
    if not good:
        B.viol(f, None, "copy", "no buffer is ever copied")
    check_stream(B, H, hd)
    check_concat(B)


def empty_index(B, eng, st, n):
    reg = B.regions(eng, st)
    if reg is not None and all(same(a, C0) and same(b, C0) for a, b in reg.values()):
        return True
    for e in st.ts:
        if e[0] == "fill" and e[1][0] == ("fld", ("at", SELF, C0), "offsets_") and e[2] == C0 and same(e[1][1], C0) and same(e[3], ("c", 4 * n)):
            return True
    return False


def unchanged(t, S):
    """Loads of what is not written to are all the same."""
    if isinstance(t, tuple) and t and t[0] == "ld" and contains(t[1], S):
        return ("ld", t[1], 0)
    return tuple(unchanged(x, S) for x in t) if isinstance(t, tuple) else t


def covers(st, B, nslots, slen, S, eng):
    """Fill, bounds and data of the other buffer were taken over."""
    idx = data = False
    whole = False
    for e in st.ts:
        if e[0] != "copy":
            continue
        to, fr, z = e[1], e[2], unchanged(e[3], S)
        if to[0] == ("fld", ("at", SELF, C0), "offsets_") and fr[0] == ("fld", ("at", S, C0), "offsets_") and same(to[1], C0) and \
                same(fr[1], C0) and const(lin(z)) == 4 * nslots:
            idx = True
        if to[0] == DATA and fr[0] == ("fld", ("at", S, C0), "data_") and same(to[1], C0) and same(fr[1], C0) and same(z, slen):
            data = True
        if to[0] == ("fld", ("at", SELF, C0), "len_") and fr[0] == ("fld", ("at", S, C0), "len_") and \
                same(z, mk_add(slen, ("c", 4 + 4 * nslots + pad(B)))):
            whole = True
    return whole or idx and data and same(now(eng, st, "len_"), slen)


def pad(B):
    rec = B.prog.records["Fbfr32"]
    o = {x["n"]: x["off"] // 8 for x in rec["fields"]}
    return o["data_"] - o["len_"] - 4 - 28


def check_stream(B, H, hd):
    """Written buffers hold everything but the size and are read back only if they fit."""
    IOP = ("sym", "p:iop")

    class IO(BufRule):
        def call(self, eng, st, call):
            n = base(call.name)
            if n in ("fread", "fwrite"):
                a = call.args
                p = self.place(eng, a[0])
                z = mk_op("*", a[1], a[2]) if a[1] != C1 else a[2]
                z = a[1] if a[2] == C1 else z
                out = []
                for ok in (True, False):
                    s = st.copy()
                    self.ev(s, n, p, z, ok, call.line, now(eng, s, "len_"))
                    if n == "fread":
                        loc = a[0][1] if a[0][0] == "addr" else deref(a[0])
                        while loc[0] in ("fld", "idx") and loc[1] != SELF and root(loc)[0] != "var":
                            loc = loc[1]
                        if loc[0] == "idx":
                            loc = loc[1]
                        if contains(p[0], SELF):
                            keep = now(eng, s, "len_") if p[0] != ("fld", ("at", SELF, C0), "len_") or p[1] != C0 else None
                            eng.havoc(s, SELF, call.line)
                            if keep is not None:
                                s.env[("fld", SELF, "len_")] = keep
                        else:
                            s.env[loc] = ("sym", "got")
                    r = a[2] if ok else eng.fresh(s, n, call.line)
                    if not ok:
                        s.facts[mk_eq(r, a[2])] = False
                        s.note(eng.curfile(), call.line, "%s fails" % n)
                    out.append(("ret", s, r))
                return out
            return super().call(eng, st, call)
    saved, B.rule = B.rule, IO(B.rep).start(B.prog)
    rec = B.prog.records["Fbfr32"]
    o4 = {x["n"]: x["off"] // 8 for x in rec["fields"]}
    for name in ("write", "read"):
        f = B.fn(name)
        B.rep.instance("whole", name)
        eng, outs = B.run(f, [IOP])
        good = 0
        for o in outs:
            st = o[1]
            ev = [e for e in st.ts if e[0] in ("fread", "fwrite")]
            failed = [e for e in ev if not e[3]]
            if o[0] == "ret" and o[2] == C0:
                good += 1
                if failed:
                    B.viol(f, st, "stream-failed", "success although not all could be %s" % ("written" if name == "write" else "read"))
                pos = {}
                total = C0
                for e in ev:
                    total = mk_add(total, e[2])
                want = mk_add(was("len_") if name == "write" else ("sym", "got"), ("c", hd - o4["len_"]))
                if not same(total, want):
                    B.viol(f, st, "stream-all", "not all of a buffer is %s" % ("written" if name == "write" else "read"))
                if name == "read":
                    if not atleast0(st, lsub(lin(was("size_")), lin(("sym", "got")))):
                        B.viol(f, st, "space", "a buffer is read into one that may be too small")
                    if not same(now(eng, st, "len_"), ("sym", "got")):
                        B.viol(f, st, "stream-fill", "the fill of the buffer is not what was read")
            elif o[0] == "ret" and o[2] == ("c", -1):
                want = "FEUNIX" if failed else "FNOSPACE"
                if last_error(st) != ("c", B.err[want]):
                    B.viol(f, st, "stream-error", "a failure is not reported as %s" % want)
        if not good:
            B.viol(f, None, "stream-never", "no buffer is ever %s" % ("written" if name == "write" else "read"))
    B.rule = saved


def check_concat(B):
    """Appending is refused as a whole when there is no room for all."""
    f = B.fn("concat")
    B.rep.instance("whole", "concat")
    S = ("deref", SRC)

    class It(BufRule):
        def call(self, eng, st, call):
            if base(call.name) == "Fbfr32::iterate":
                self.ev(st, "each", deref(addr(call.obj)) if call.obj else None)
                return [("ret", st, eng.fresh(st, "iterate", call.line))]
            return super().call(eng, st, call)
    saved, B.rule = B.rule, It(B.rep).start(B.prog)
    eng, outs = B.run(f, [SRC])
    for o in outs:
        st = o[1]
        if any(e[0] == "each" for e in st.ts):
            need = lin(was("len_", S))
            have = lsub(lin(was("size_")), lin(was("len_")))
            if not atleast0(st, lsub(have, need)):
                B.viol(f, st, "space", "fields are appended without room for all of them")
        elif o[0] == "ret" and o[2] == C0:
            B.viol(f, st, "concat", "success although nothing was appended")
    B.rule = saved


def check_walks(B):
    """Fields removed while going over them, and failures on the way."""
    it = B.fn("iterate")
    B.rep.instance("walk", "iterate")
    FUNC = ("sym", "p:func")

    class Walk(BufRule):
        unroll = 0

        def call(self, eng, st, call):
            n = base(call.name)
            if n.startswith("std::function") and n.endswith("operator()") or n == "<indirect>":
                out = []
                a = call.args
                for r in (0, 1, -1):
                    s = st.copy()
                    self.turns.append((a[0], a[1] if len(a) > 1 else None))
                    if r == 1:
                        eng.havoc(s, SELF, call.line)
                        s.env[("fld", SELF, "len_")] = ("sym", "newlen")
                    s.ts = (("turn", r, a[0], s.ts[-1] if s.ts else None),)
                    s.ts = (("turn", r, a[0]),)
                    out.append(("ret", s, ("c", r)))
                return out
            if call.fn is not None and self.is_step(call.fn):
                self.stepped.append((call.args[0], st.ts))
                r = ("sym", "next")
                eng.killsym(st, r)
                return [("ret", st, r)]
            return super().call(eng, st, call)

        def branch(self, eng, st, cond, truth, node):
            super().branch(eng, st, cond, truth, node)
            if st.ts and st.ts[-1][0] == "turn" and st.ts[-1][1] == 1 and cond[0] == "<":
                self.bounds.append((cond, st))
    rule = Walk(B.rep).start(B.prog)
    rule.turns, rule.stepped, rule.bounds = [], [], []
    saved, B.rule = B.rule, rule
    eng, outs = B.run(it, [FUNC])
    B.rule = saved
    if not rule.turns:
        B.viol(it, None, "walk", "no field is ever visited")
    for a, ts in rule.stepped:
        if ts and ts[-1][0] == "turn" and ts[-1][1] == 1:
            B.viol(it, None, "walk-skips", "the field behind a removed one is skipped")
    for cond, st in rule.bounds:
        if any(x[0] == "ld" and field_of(x[1]) == "len_" for t in cond[1:] for x in subterms(t)) and \
                not any(x == ("sym", "newlen") for t in cond[1:] for x in subterms(t)):
            B.viol(it, st, "walk-end", "after a field was removed the old end of the fields is still used")
    for o in outs:
        if o[0] == "ret" and o[1].ts and o[1].ts[-1][1] == -1 and o[2] != ("c", -1):
            B.viol(it, o[1], "walk-failed", "a failure on the way is not passed on")
    # what the functions of the walks answer
    for u, g in sorted(B.prog.functions.items()):
        if not (g["n"].startswith("Fbfr32::") and g["n"].endswith("operator()") and g.get("b")):
            continue
        if len(g["p"]) != 2 or (g["rt"] or {}).get("k") != "int":
            continue

        class Act(BufRule):
            def opaque(self, fn):
                return fn.get("rec") != "Fbfr32" and not fn["n"].startswith("Fbfr32::") or super().opaque(fn)

            def call(self, eng, st, call):
                n = base(call.name)
                if n in ("Fbfr32::chg", "Fbfr32::del", "Fbfr32::delall", "Fbfr32::erase") and call.fn is not None:
                    r = ("sym", "result")
                    eng.killsym(st, r)
                    st.ts = st.ts + (("chg" if n.endswith("chg") else "del",),)
                    return [("ret", st, r if n.endswith("chg") else C0)]
                if n in ("std::find", "Fbfr32::iterate", "Fbfr32::pres", "Fbfr32::occur", "Fbfr32::flength", "Fbfr32::fvalue", "Fbfr32::fprint"):
                    return [("ret", st, eng.fresh(st, n, call.line))]
                return super().call(eng, st, call)
        B.rep.instance("walk", g["n"].split("(")[0])
        saved, B.rule = B.rule, Act(B.rep).start(B.prog)
        eng, outs = B.run(g, [("sym", "p:it"), ("sym", "p:oc")])
        B.rule = saved
        for o in outs:
            acts = [e[0] for e in o[1].ts if e[0] in ("chg", "del")]
            if o[0] != "ret":
                continue
            if "del" in acts and o[2] != C1:
                B.viol(g, o[1], "walk-removed", "a field is removed on the way and the walk goes on from it", g["n"].split("(")[0])
            if "del" not in acts and o[2] == C1:
                B.viol(g, o[1], "walk-stays", "the walk stays at a field that was not removed (for ever)", g["n"].split("(")[0])
            if "chg" in acts and o[2] != ("sym", "result") and \
                    not (isc(o[2]) and o[2][1] == -1) and not o[1].facts.get(mk_eq(("sym", "result"), ("c", -1))) is False:
                B.viol(g, o[1], "walk-lost", "a field that could not be stored is not reported", g["n"].split("(")[0])
    # and that nobody drops the result of a walk that stores fields
    for u, g in sorted(B.prog.functions.items()):
        if g.get("rec") != "Fbfr32" or not g.get("b") or g["n"].endswith("operator()"):
            continue

        class Top(BufRule):
            def call(self, eng, st, call):
                if base(call.name) == "Fbfr32::iterate":
                    stores = any(a[0] in ("lam", "recv", "addr", "sym") for a in call.args)
                    lam = lam_of(B.prog, call)
                    st.ts = st.ts + (("walk", stores_field(lam), ("sym", "walked%d" % call.line)),)
                    eng.killsym(st, ("sym", "walked%d" % call.line))
                    return [("ret", st, ("sym", "walked%d" % call.line))]
                return super().call(eng, st, call)
        if not any(n["k"] == "call" and base(n.get("n") or "") == "Fbfr32::iterate" for n in walk(g["b"])):
            continue
        B.rep.instance("walk-result", g["n"])
        saved, B.rule = B.rule, Top(B.rep).start(B.prog)
        eng, outs = B.run(g, [("sym", "p:" + p["n"]) for p in g["p"]])
        B.rule = saved
        for o in outs:
            if o[0] != "ret":
                continue
            for e in o[1].ts:
                if e[0] == "walk" and e[1] and o[2] != e[2] and \
                        not (o[2] == C0 and o[1].facts.get(mk_eq(e[2], ("c", -1))) is False) and \
                        not (o[2] is not None and isc(o[2]) and o[2][1] == -1) and \
                        not (o[2] is not None and o[2] == C0 and o[1].facts.get(mk_eq(e[2], C0)) is True):
                    B.viol(g, o[1], "walk-dropped", "a field that could not be stored is not reported")


def lam_of(prog, call):
    for n in walk(call.node.get("args") or []) if isinstance(call.node.get("args"), dict) else \
            (x for a in call.node.get("args") or [] for x in walk(a)):
        if n["k"] == "lambda" and n.get("fn"):
            return prog.functions.get(n["fn"]) or n
    return None


def stores_field(lam):
    if lam is None:
        return False
    return any(n["k"] == "call" and base(n.get("n") or "") == "Fbfr32::chg" for n in walk(lam.get("b") or lam))


def check(prog, rep):
    B = Buffer(prog, rep)
    chain = B.chain()
    if chain is None:
        B.viol(B.fn("first_byte"), None, "regions", "the fields of the types do not follow each other without gap or overlap")
        return
    check_chg(B, chain)
    check_erase(B, chain)
    check_search(B)
    check_whole(B)
    check_walks(B)
    rep.need("change", 60)
    rep.need("remove", 40)
    rep.need("search", 8)
    rep.need("whole", 8)
    rep.need("walk", 8)
