"""DEBUG only adds checks.  Decided by comparing the control-flow graphs of every
function with and without DEBUG (after removing paths that abort): the same
effects and results must happen under equivalent conditions, and what DEBUG adds
may only change variables of its own."""
import collections
from .common import *
import facts

MIN_OBLIGATIONS = 200
THOROUGH_CONFIGS = []
ASSUMPTIONS = ["checks that abort do so only for inconsistent state"]


def table(p):
    t = {}
    for f in p.funcs:
        if f.body is not None and f.file.endswith(".hpp"):
            t.setdefault((f.q, f.sig), f)
    return t


def pure(prog, f, cache, stack=()):
    """does the function change anything but its own variables?"""
    k = (f.q, f.sig)
    if k in cache:
        return cache[k]
    if k in stack:
        return None
    v = View(prog, f)
    rec = [x["n"] for r in prog.records if f.cls and (r["q"] == f.cls or r["q"].rsplit("::", 1)[-1] == f.cls.rsplit("::", 1)[-1]) for x in r["fields"]]
    bad = None
    for m in rec:
        for n in v.writes(m):
            if n.kind != "eff" or satisfiable(v.cond(n)) is None:
                continue
            t = v.txt[n.id]
            c = re.match(r"^(\w+)\(", t)
            if c and prog.find((f.cls or "").rsplit("::", 1)[-1], c.group(1)):
                b = [x for g in prog.find((f.cls or "").rsplit("::", 1)[-1], c.group(1)) if g.body is not None for x in [pure(prog, g, cache, stack + (k,))] if x]
                if not b:
                    continue
                bad = b[0]
                break
            bad = "%s (%s)" % (t, n.where())
            break
        if bad:
            break
    for n in v.nodes:
        if not bad and n.kind == "eff" and re.match(r"^\*?arg\d+(\W.*)? [-+*/|&^%]?= ", v.txt[n.id]) and satisfiable(v.cond(n)) is not None:
            bad = "%s (%s)" % (v.txt[n.id], n.where())
    cache[k] = bad
    return bad


def own(v, n, mine, cls, prog, cache):
    """None if an effect that only DEBUG has changes nothing else"""
    t = v.txt[n.id]
    if re.match(r"^let %|^%[\w.#]+(\[|\.| [-+*/|&^%]?= )", t):
        name = re.match(r"^(?:let )?(%[\w.#]+)", t).group(1)
        return None if name in mine else "%s changes %s, which is used without DEBUG too" % (t, name)
    c = re.match(r"^([\w:]+)\((.*)\)$", t)
    if not c:
        return "%s" % t
    fn = c.group(1)
    if fn.startswith("MPI_") or fn.startswith("dccrg::All_") or fn.startswith("dccrg::Some_") or fn.startswith("dccrg::Error_String") or fn.startswith("std::") or fn in ("max", "min", "abs", "MPI_Comm_rank"):
        outs = re.findall(r"&?(%[\w.#]+)", c.group(2))
        rest = re.sub(r"&?%[\w.#]+(\[[^]]*\])?|comm\b|arg\d+\b|[\w:]+::[\w:]+|&ompi_\w+|\d+|[\s,()\-+*]|\bsize\b|\.", "", c.group(2))
        bad = [o for o in outs if o not in mine and not fn.startswith("std::")]
        return None if not [o for o in bad if "&" + o in c.group(2) or fn.startswith("dccrg::All_Gather") and o == outs[-1]] else "%s changes %s" % (t, bad)
    gs = prog.find(cls, fn.rsplit("::", 1)[-1]) or [g for g in prog.funcs if g.q == fn or g.name == fn.rsplit("::", 1)[-1]]
    gs = [g for g in gs if g.body is not None]
    if not gs:
        return None
    bad = [b for g in gs for b in [pure(prog, g, cache)] if b]
    return "%s changes the grid: %s" % (t, bad[0]) if bad else None


def run(rep, prog, tier):
    dbg = facts.load("main.cpp", ("DEBUG",))
    if dbg.errors:
        raise facts.AnalysisBroken("the tree does not compile with DEBUG: %s" % dbg.errors[:1])
    a, b = table(prog), table(dbg)
    cache = {}
    for k in sorted(a):
        f = a[k]
        where = "%s:%d" % (f.file, f.line)
        name = f.q.replace("dccrg::", "")
        if k not in b:
            if f.d.get("implicit"):
                continue
            rep.bad("same", "%s also exists with DEBUG" % name, where, "it does not")
            continue
        va, vb = View(prog, f), View(dbg, b[k])
        rep.saw(va)
        bad = None

        def ea(v):
            d = collections.defaultdict(list)
            for n in v.nodes:
                if n.kind in ("eff", "ret") and satisfiable(v.cond(n)) is not None:
                    d[v.txt[n.id] + " in " + ", ".join(v.loops(n))].append(n)
            return d
        da, db = ea(va), ea(vb)
        for t in da:
            if t not in db:
                # locals may be named differently
                bad = (da[t][0], "%s only without DEBUG" % t)
                break
            ca = simplify(OR(*[va.cond(n) for n in da[t]]), lambda t: None)
            cb = simplify(OR(*[vb.cond(n) for n in db[t]]), lambda t: None)
            if str(ca) != str(cb):
                c1, c2 = implies(ca, cb), implies(cb, ca)
                if c1 is not None or c2 is not None:
                    bad = (db[t][0], "%s happens when %s with DEBUG, when %s without" % (t, str(cb)[:150], str(ca)[:150]))
                    break
        if not bad:
            mine = {re.match(r"^let (%[\w.#]+)", t).group(1) for t in db if t not in da and t.startswith("let %")}
            mine |= {x for x in set(re.findall(r"%[\w.#]+", " ".join(db))) if x not in " ".join(da)}
            for t in db:
                if t in da:
                    if len(db[t]) > len(da[t]):
                        extra = db[t][0]
                        r = own(vb, extra, mine, (f.cls or "").rsplit("::", 1)[-1], dbg, cache) if extra.kind == "eff" and not va.neutral(vb.txt[extra.id]) else None
                        if r and not all(str(vb.cond(n)) in [str(va.cond(m)) for m in da[t]] for n in db[t]):
                            bad = (extra, "more often with DEBUG: %s" % r)
                            break
                    continue
                if db[t][0].kind == "ret":
                    bad = (db[t][0], "%s only with DEBUG" % t)
                    break
                r = own(vb, db[t][0], mine, (f.cls or "").rsplit("::", 1)[-1], dbg, cache)
                if r:
                    bad = (db[t][0], "only with DEBUG: %s" % r)
                    break
        rep.check(bad is None, "same", "%s does the same with DEBUG" % name, bad[0].where() if bad else where, bad[1] if bad else "")
