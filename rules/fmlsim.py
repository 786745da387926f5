"""Fielded buffers: constants of the interface and helpers shared by the rules."""
from sa.lib import *

C0, C1 = ("c", 0), ("c", 1)

# bytes of a value of the type; None: as long as the value says
WIDTH = {"SHORT": 2, "LONG": 8, "CHAR": 1, "FLOAT": 4, "DOUBLE": 8, "STRING": None, "CARRAY": None, "FML32": None}
CTYPE = {"SHORT": "short", "LONG": "long", "CHAR": "char", "FLOAT": "float", "DOUBLE": "double"}
ERR = ("FNOTFLD", "FNOSPACE", "FNOTPRES", "FBADFLD", "FTYPERR", "FEUNIX", "FMALLOC", "FALIGNERR", "FEINVAL", "FEBADOP")


def constants(prog):
    """Numbers of the types and errors as the public header defines them."""
    import os, re
    from sa.facts import REPO
    txt = open(os.path.join(REPO, "include/fml32.h")).read()
    d = {m.group(1): int(m.group(2)) for m in re.finditer(r"#define\s+(F\w+)\s+\(?(\d+)\)?", txt)}
    num = {k: d["FLD_" + k] for k in WIDTH if "FLD_" + k in d}
    err = {k: d[k] for k in ERR if k in d}
    if len(num) != len(WIDTH) or len(err) != len(ERR):
        raise AnalysisBroken("constants of fml32.h not found: %s %s" % (sorted(set(WIDTH) - set(num)), sorted(set(ERR) - set(err))))
    return num, err


def fldid(t, n=7):
    return ("c", (t << 24) | n)


class FmlRule(FuxRule):
    limit = 400
    errloc = None

    def start(self, prog):
        """Where the error number of the thread is kept."""
        self.prog = prog
        f = prog.fn("_tls_Ferror32")
        _, outs, _ = run_root(prog, FuxRule(self.rep), f, State(ts=()), rep=self.rep)
        if len(outs) != 1 or outs[0][2][0] != "addr":
            raise AnalysisBroken("the place of Ferror32 was not found")
        self.errloc = outs[0][2][1]
        return self

    def store(self, eng, st, loc, val, node):
        if loc == self.errloc:
            st.ts = st.ts + (("error", val),)


def last_error(st):
    e = [x for x in st.ts if x[0] == "error"]
    return e[-1][1] if e else None
