"""Every process executes the same sequence of collective operations.  Decided
by an SPMD uniformity analysis of every public operation that communicates
collectively, with its callees inlined: no collective may be control dependent
on a value that can differ between processes unless every alternative executes
the same collectives, no collective may sit in a loop whose number of rounds
can differ, and counts, datatypes, roots and operations must be uniform."""
from .common import *
import uniform

MIN_OBLIGATIONS = 60
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["MPI, Zoltan and file operations succeed (a failing rank reports the error and may leave early)",
               "arguments documented as collective are identical on all processes",
               "members listed in uniform.REPLICATED are identical on all processes; that their updates keep them so is property C03"]

LOCAL_ARGS = {("All_Gather", "operator()"): (0,), ("All_Reduce", "operator()"): (0,), ("Dccrg", "load_cells"): (0,)}
_unis = {}


def uni(prog):
    if id(prog) not in _unis:
        _unis[id(prog)] = uniform.Uniform(prog)
    return _unis[id(prog)]


def short_cls(f):
    return (f.cls or "").split("<")[0].rsplit("::", 1)[-1]


def flow(prog, f, inline=("*mut",), local=None):
    v = View(prog, f, inline)
    if local is None:
        local = LOCAL_ARGS.get((short_cls(f), f.name), ())
    return v, uniform.Flow(uni(prog), v, local)


def entries(prog):
    U = uni(prog)
    seen = set()
    for f in prog.funcs:
        if not f.body or f.file == "main.cpp" or not U.collective_fn(f):
            continue
        if short_cls(f) == "Dccrg" and f.d.get("acc") != "public":
            continue
        if "lambda" in f.q or f.sig in seen:
            continue
        seen.add(f.sig)
        yield f


def run(rep, prog, tier):
    n = 0
    for f in entries(prog):
        v, F = flow(prog, f)
        rep.saw(v)
        n += 1
        name = "%s::%s" % (short_cls(f), f.name)
        cs = [i for i in sorted(F.live) if F.is_collective(i)]
        bad = set()
        for b in sorted(F.badbr):
            reg = F.region(b)
            inside = [i for i in cs if i in reg]
            if not inside:
                continue
            B = F.nodes[b]
            cond = pr(B.eff[1])[:200]
            why = None
            if B.eff[1][0] == "each" or any(reaches(F, i, i, reg | {b}) for i in inside):
                why = "is repeated a number of times that depends on %s (%s)" % (cond, B.where())
                i = inside[0]
            else:
                try:
                    seqs = [F.sequences(s, F.ipdom.get(b)) for s, _ in F.succ[b]]
                except OverflowError:
                    seqs = [frozenset([1]), frozenset([2])]
                if len(set().union(*seqs)) != 1:
                    i = inside[0]
                    why = "depends on %s (%s), which can differ between processes; the alternatives execute different collectives: %s" % (
                        cond, B.where(), [sorted(map(str, s))[:3] for s in seqs])
            if why and i not in bad:
                bad.add(i)
                rep.bad("matched", "%s: collective %s" % (name, F.is_collective(i)), F.nodes[i].where(), "the call " + why[:900])
        for i in cs:
            if i not in bad:
                rep.ok("matched", "%s: collective %s is executed by all processes alike" % (name, F.is_collective(i)), F.nodes[i].where())
            e = F.nodes[i].eff
            for k in uniform.UNIFORM_ARGS.get(e[1], ()):
                if k < len(e[3]):
                    rep.check(F.uniform(e[3][k], i), "arguments", "%s: argument %d of %s is the same everywhere" % (name, k, e[1]),
                              F.nodes[i].where(), "argument %s can differ between processes" % pr(e[3][k]))
    if n < 10:
        raise AnalysisBroken("only %d collective operations found" % n)


def reaches(F, a, b, within):
    st = [s for s, _ in F.succ[a]]
    seen = set()
    while st:
        i = st.pop()
        if i == b:
            return True
        if i in seen or i not in within:
            continue
        seen.add(i)
        st += [s for s, _ in F.succ[i]]
    return False
