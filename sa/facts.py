"""Extraction and loading of the type-resolved program.

Builds the libTooling extractor (tool/factdump.cpp) when its binary is missing
or older than the source, runs it over every translation unit that the
project's Makefile.am builds, and merges the per-unit JSON into one Program.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"

DEFS = [
    '-DPACKAGE_NAME="Fuxedo"', '-DPACKAGE_TARNAME="fuxedo"',
    '-DPACKAGE_VERSION="0.0.1"', '-DPACKAGE_STRING="Fuxedo 0.0.1"',
    '-DPACKAGE_BUGREPORT="x"', '-DPACKAGE_URL=""', '-DPACKAGE="fuxedo"',
    '-DVERSION="0.0.1"', '-DHAVE_STDIO_H=1', '-DHAVE_STDLIB_H=1',
    '-DHAVE_STRING_H=1', '-DHAVE_INTTYPES_H=1', '-DHAVE_STDINT_H=1',
    '-DHAVE_STRINGS_H=1', '-DHAVE_SYS_STAT_H=1', '-DHAVE_SYS_TYPES_H=1',
    '-DHAVE_UNISTD_H=1', '-DSTDC_HEADERS=1', '-DHAVE_DLFCN_H=1',
    '-DHAVE_CXX17=1', '-DHAVE_CXX_FILESYSTEM=1',
]


class AnalysisBroken(Exception):
    """The analysis itself could not be carried out (not a verdict)."""


def build_dir():
    d = os.path.join(VERIF, "build")
    try:
        os.makedirs(d, exist_ok=True)
        if os.access(d, os.W_OK):
            return d
    except OSError:
        pass
    return tempfile.mkdtemp(prefix="verif-build-")


def build_tool():
    src = os.path.join(VERIF, "tool", "factdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = build_dir()
    out = os.path.join(d, "factdump-" + h)
    if os.path.exists(out) and os.access(out, os.X_OK):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include",
           "-D_GNU_SOURCE", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so",
           "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def source_list():
    """The .cpp files that Makefile.am builds (library and programs)."""
    am = open(os.path.join(REPO, "Makefile.am")).read().replace("\\\n", " ")
    srcs = set()
    for m in re.finditer(r"^src_\w+_SOURCES\s*=\s*(.*)$", am, re.M):
        for f in m.group(1).split():
            if f.endswith(".cpp"):
                srcs.add(f)
    have = sorted("src/" + f for f in os.listdir(os.path.join(REPO, "src"))
                  if f.endswith(".cpp"))
    # automake's default: prog_SOURCES of src/x defaults to src/x.c; every .cpp
    # in src/ belongs to the build.
    return sorted(srcs | set(have))


def _dump(tool, src, out):
    cmd = [tool, REPO, os.path.join(REPO, src), out, "-std=gnu++17",
           "-I" + REPO + "/include", "-I" + REPO + "/third_party/catch",
           "-I" + REPO + "/third_party/clara", "-I" + REPO + "/third_party/GSL",
           "-resource-dir=" + LLVM + "/lib/clang/18", "-Wno-everything",
           "-DCATCH_CONFIG_NO_POSIX_SIGNALS"] + DEFS
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        return (src, r.stderr[-2000:])
    return None


class Program:
    def __init__(self):
        self.functions = {}      # usr -> dict
        self.by_name = {}        # qualified name -> [usr]
        self.records = {}        # key -> dict
        self.enums = {}          # name -> {name: value}
        self.globals = {}        # id -> dict
        self.units = []
        self.files = set()
        self.macros = {}
        self.dup = {}            # unit -> {usr: key}

    def resolve(self, usr, unit=None):
        if unit is not None and usr in self.dup.get(unit, ()):
            usr = self.dup[unit][usr]
        return self.functions.get(usr)

    def fn(self, name, required=True):
        """The unique function with this qualified name (no lambdas)."""
        us = self.by_name.get(name, [])
        if not us and required:
            raise AnalysisBroken("anchor vanished: function %s" % name)
        return self.functions[us[0]] if us else None

    def fns(self, name):
        return [self.functions[u] for u in self.by_name.get(name, [])]

    def rec(self, name, required=True):
        r = self.records.get(name)
        if r is None and required:
            raise AnalysisBroken("anchor vanished: record %s" % name)
        return r


def _resolve_types(node, types):
    """Replace type indexes by shared type dicts, iteratively."""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            for k, v in n.items():
                if k in ("t", "at", "rt", "ct", "dt", "base") and isinstance(v, int):
                    n[k] = types[v] if v >= 0 else None
                elif k in ("pt", "bases") and isinstance(v, list):
                    n[k] = [types[i] if i >= 0 else None for i in v]
                elif isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def load():
    tool = build_tool()
    srcs = source_list()
    for s in srcs:
        if not os.path.exists(os.path.join(REPO, s)):
            raise AnalysisBroken("source listed by the build is missing: " + s)
    prog = Program()
    with tempfile.TemporaryDirectory(prefix="verif-facts-") as td:
        jobs = [(s, os.path.join(td, s.replace("/", "_") + ".json")) for s in srcs]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(lambda j: _dump(tool, j[0], j[1]), jobs) if e]
        if errs:
            raise AnalysisBroken("cannot parse: " + "; ".join("%s: %s" % e for e in errs))
        for s, o in jobs:
            u = json.load(open(o))
            types = u["types"]
            for t in types:
                if t and "p" in t and isinstance(t["p"], int):
                    t["p"] = types[t["p"]] if t["p"] >= 0 else None
            prog.units.append(s)
            prog.files.update(f for f in u["files"])
            for f in u["functions"]:
                key = f["u"]
                old = prog.functions.get(key)
                if old is not None:
                    if old["f"] == f["f"]:
                        continue
                    # the same external name defined in two programs
                    key = f["u"] + "#" + s
                    prog.dup.setdefault(s, {})[f["u"]] = key
                    f["u"] = key
                _resolve_types(f, types)
                f["file"] = os.path.relpath(f["f"], REPO)
                f["unit"] = s
                prog.functions[key] = f
                prog.by_name.setdefault(f["n"], []).append(key)
            for r in u["records"]:
                old = prog.records.get(r["k"])
                if old is None or ("fields" not in old and "fields" in r):
                    _resolve_types(r, types)
                    prog.records[r["k"]] = r
            for e in u["enums"]:
                prog.enums.setdefault(e["n"], {v["n"]: v["v"] for v in e["v"]})
            for g in u["globals"]:
                if g["d"] not in prog.globals:
                    _resolve_types(g, types)
                    g["file"] = os.path.relpath(g["f"], REPO)
                    prog.globals[g["d"]] = g
    prog.macros = load_macros()
    return prog


def load_macros():
    """Object-like integer macros of the public headers and fux headers."""
    src = "".join('#include "%s"\n' % h for h in
                  ("xatmi.h", "atmi.h", "fml32.h", "xa.h", "tx.h", "userlog.h", "tpadm.h"))
    r = subprocess.run([LLVM + "/bin/clang++", "-std=gnu++17", "-I" + REPO + "/include",
                        "-dM", "-E", "-x", "c++", "-"], input=src,
                       capture_output=True, text=True)
    out = {}
    if r.returncode:
        raise AnalysisBroken("cannot preprocess the public headers: " + r.stderr[-500:])
    for line in r.stdout.splitlines():
        m = re.match(r"#define (\w+)\s+\(?(-?(?:0x[0-9a-fA-F]+|\d+))[lLuU]*\)?\s*$", line)
        m2 = re.match(r"#define (\w+)\s+\(\(FLDID32\)\s*(\d+)\)\s*$", line)
        if m2:
            out["FLDID32 " + m2.group(1)] = int(m2.group(2))
        if m and not m.group(1).startswith("__"):
            v = m.group(2)
            try:
                out[m.group(1)] = int(v, 8) if re.match(r"-?0[0-7]+$", v) else int(v, 0)
            except ValueError:
                pass
    return out


def walk(node):
    """Every dict node below (and including) node, pre-order."""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if "k" in n and not ("s" in n and isinstance(n.get("s"), str)):
                yield n
            for k, v in reversed(list(n.items())):
                if k in ("t", "at", "rt", "ct", "dt", "pt", "bases", "base"):
                    continue
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            for v in reversed(n):
                if isinstance(v, (dict, list)):
                    stack.append(v)
