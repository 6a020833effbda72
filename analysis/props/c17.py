"""Everything public can be used with every kind of user data and geometry in
every configuration.  Decided by the type checker: a translation unit that
instantiates the grid with each kind and uses the whole public interface must
compile under each set of macros, every header must compile on its own; and the
form of get_mpi_datatype used for each kind of user data is read from the
instantiated functions."""
import os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .common import *
import facts

MIN_OBLIGATIONS = 30
THOROUGH_CONFIGS = []
ALLOW_ERRORS = True
ASSUMPTIONS = ["clang 18 in C++11 mode stands for the compilers of users"]
SETS = [(), ("DEBUG",), ("DCCRG_NO_LB",), ("DEBUG", "DCCRG_NO_LB"), ("DCCRG_USER_COMPLEX",)]
KINDS = {0: "data with get_mpi_datatype, 3 geometries", 1: "data with several forms of get_mpi_datatype, basic types, arrays", 2: "additional items of cells and neighbors", 3: "transfer information of each type of data"}


def compile_(src, defs, std="c++11"):
    fl = [x for x in facts.compile_flags(defs) if not x.startswith("-std=")]
    cmd = [facts.LLVM + "/bin/clang++", "-std=" + std] + fl + ["-fsyntax-only", "-w", "-fno-color-diagnostics", "-ferror-limit=3", src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    err = [l for l in r.stderr.split("\n") if " error: " in l]
    return r.returncode, err, r.stderr


def run_once(rep, tier):
    src = os.path.join(facts.VERIF, "witness", "api.cpp")
    jobs = []
    for k in KINDS:
        for s in SETS:
            jobs.append((k, s, src, ["KIND=%d" % k] + list(s), "c++11"))
            if tier == "thorough":
                for std in ("c++14", "c++17", "c++20"):
                    jobs.append((k, s, src, ["KIND=%d" % k] + list(s), std))
    with tempfile.TemporaryDirectory(prefix="dccrg_c17_") as d:
        for h in facts.repo_headers():
            for s in SETS[:3]:
                f = os.path.join(d, os.path.basename(h) + "_" + "_".join(s) + ".cpp")
                open(f, "w").write('#include "%s"\n' % os.path.basename(h))
                jobs.append((os.path.basename(h), s, f, list(s), "c++11"))
        with ThreadPoolExecutor(8) as ex:
            for (k, s, f, defs, std), (rc, err, out) in zip(jobs, ex.map(lambda j: compile_(j[2], j[3], j[4]), jobs)):
                cfg = "+".join(s) or "default"
                what = "%s compiles on its own (%s)" % (k, cfg) if isinstance(k, str) else "%s: whole interface compiles (%s, %s)" % (KINDS[k], cfg, std)
                if rc != 0 and not err:
                    raise facts.AnalysisBroken("compiler failed: " + out[-300:])
                first = err[0] if err else ""
                rep.check(rc == 0, "compile", what, os.path.basename(first.split(": error")[0]) if first else "witness/api.cpp", first[:300])


FORMS = {"api::Plain": 0, "api::Plain_Const": 0, "api::Args": 5, "api::Args_Const": 5, "api::Both": 5, "api::Both_Const": 5}


def run(rep, prog, tier):
    p = facts.load("api.cpp", ("KIND=3",))
    if p.errors:
        return
    got = {}
    for f in p.funcs:
        if f.name == "get_cell_mpi_datatype" and f.body is not None and f.targs in FORMS:
            calls = [x for x in facts.walk(f.body) if x.get("k") in ("call", "mcall") and str(x.get("n", "")).endswith("get_mpi_datatype")]
            v = View(p, f)
            rep.saw(v)
            n = len(calls[0].get("a", [])) if len(calls) == 1 else -1
            got[f.targs] = (n, f)
            rep.check(n == FORMS[f.targs], "form", "%s: get_mpi_datatype %s is used" % (f.targs[5:], "with information about the transfer" if FORMS[f.targs] else "without arguments"),
                      "%s:%d" % (f.file, f.line), "called with %d arguments" % n)
            if n == 5:
                rs = [v.txt[x.id] for x in v.nodes if x.kind == "ret"]
                ok = any("get_mpi_datatype(arg1, arg2, arg3, arg4, arg5)" in r for r in rs)
                rep.check(ok, "form", "%s: cell, sender, receiver, direction and neighborhood are given in this order" % f.targs[5:], "%s:%d" % (f.file, f.line), "returns %s" % rs)
    rep.check(len(got) == len(FORMS), "form", "every form of get_mpi_datatype is recognised", "dccrg_get_cell_datatype.hpp", "recognised: %s" % sorted(got))
