"""All geometries answer alike what isn't in the grid: cells, levels and indices
that can't exist have no coordinates (quiet NaN), coordinates outside of the
grid belong to no cell unless the grid is periodic in that dimension, when they
are wrapped into the grid in that dimension.  Decided on the control-flow graphs
of each geometry: the conditions under which each kind of answer is given, per
dimension, are compared with the specification that all geometries share."""
from .common import *
from . import c23
import facts, rules, ir, normal as N

MIN_OBLIGATIONS = 25
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["rounding of floating point numbers is not decided",
               "comparisons with NaN are treated as comparisons of numbers"]
GEOS = ("No_Geometry", "Cartesian_Geometry", "Stretched_Cartesian_Geometry")
NAN = re.compile(r"^\{?(\(?-?(quiet_NaN\(\)|nan\(\"?\"?\)|__builtin_nan\(\"?\"?\))\)?(, )?)+\}?$")
L = c23.L


def canon(t, geo=""):
    t = t.replace("mapping.", "").replace("get_last_cell()", "last_cell").replace("get_maximum_refinement_level()", "max_refinement_level")
    t = re.sub(r"\blength\.get\(\)", "LEN", t)
    t = re.sub(r"\beach\(((?:arg\d|get_real_coordinate\(arg\d\)|%[\w.#]+))\)", r"\1[DIM]", t)
    t = re.sub(r"\beach\(0\.\.(3|[\w.()%#]+\.size\(\))\)", "DIM", t)
    if geo == "No_Geometry":
        t = t.replace("get_start()[DIM]", "0")
    for d in "012":
        t = re.sub(r"\{(\(LEN\[0\] \* \(1 << max_refinement_level\)\)), (\(LEN\[1\] \* \(1 << max_refinement_level\)\)), (\(LEN\[2\] \* \(1 << max_refinement_level\)\))\}\[%s\]" % d,
                   "(LEN[%s] * (1 << max_refinement_level))" % d, t)
    t = re.sub(r"\((LEN\[[^\]]*\]) << max_refinement_level\)", r"(\1 * (1 << max_refinement_level))", t)
    return t


def lt(a, b):
    return F("atom", cmp_key("<", a, b))


def nan(val):
    return NAN.match(val) is not None


def unroll(f):
    """quantification over the dimensions written out"""
    if f.k == "atom":
        t = f.a[0]
        if t in rules.EXISTS and len(rules.EXISTS[t][0]) == 1 and re.match(r"^(each\()?(0\.\.(3|\S*size\(\))|arg\d)\)?$", rules.EXISTS[t][0][0]):
            body = unroll(rules.EXISTS[t][1])
            return OR(*[rename(body, lambda s, d=d: canon(s).replace("DIM", str(d))) for d in range(3)])
        return f
    if f.k == "b":
        return f
    return F(f.k, *[unroll(x) for x in f.a])


def equal(rep, rule, what, where, hyp, got, want):
    ce = implies(AND(hyp, want), got)
    if ce is not None:
        rep.bad(rule, what, where, "not so when %s" % show(ce))
        return
    ce = implies(AND(hyp, got), want)
    rep.check(ce is None, rule, what, where, "so also when %s" % (show(ce) if ce else ""))


def answers(rep, prog, geo, name, np, order, hyp, want, what):
    """returns NaN exactly when `want`"""
    v = view(prog, geo, name, np)
    rep.saw(v)
    sub = lambda t: canon(t, geo)
    out = [(sub(x), rename(unroll(c), sub), n) for x, c, n in c23.outcomes(v, True)]
    where = out[0][2].where() if out else "%s:%d" % (v.func.file, v.func.line)
    passes = [x for x, c, n in out if re.match(r"^get_center\(get_cell_from_indices\(%s, %s\)\)$" % order, x)]
    if order and passes and len(out) == 1:
        rep.ok("answers", "%s::%s: %s" % (geo, name, what), where)
        return
    equal(rep, "answers", "%s::%s: %s" % (geo, name, what), where, hyp, OR(*[c for x, c, n in out if nan(x)] or [~TRUE]), want)


def final(v, n, var, geo, key):
    """value classes of one element of the result: (value, condition, node) in order"""


def element(rep, prog, geo, name, rule, classes, hyp=TRUE):
    """the elements of the returned array: which values under which condition
    in each dimension"""
    v = view(prog, geo, name, 1)
    rep.saw(v)
    sub = lambda t: canon(t, geo)
    rets = [n for n in v.nodes if n.kind == "ret" and n.frame is v.L.frame]
    var = v.txt[rets[-1].id][7:] if rets else ""
    where = "%s:%d" % (v.func.file, v.func.line)
    if not re.match(r"^%[\w.#]+$", var):
        raise facts.AnalysisBroken("%s::%s doesn't return a local variable" % (geo, name))
    writes = []
    for n in v.nodes:
        if n.id not in v.txt or n.kind not in ("eff", "bind"):
            continue
        t = v.txt[n.id]
        m = re.match(r"^(?:let )?%s = (.*)$" % re.escape(var), t)
        if m:
            for d in ("DIM", "0", "1", "2"):
                x = sub(m.group(1))
                if re.match(r"^\{.*\}$", x) and (nan(x) or c23.err(x)):
                    x = x[1:-1].split(",")[0].strip()
                elif re.match(r"^arg0$", x):
                    x = "arg0[%s]" % d
                writes.append((d, x, unroll(v.cond(n)), n))
            continue
        m = re.match(r"^%s\.fill\((.*)\)$" % re.escape(var), t)
        if m:
            for d in ("DIM", "0", "1", "2"):
                writes.append((d, sub(m.group(1)), unroll(v.cond(n)), n))
            continue
        if t.startswith(var + "["):
            # the index may contain brackets itself
            k = rules_index(t, len(var))
            if k and t[k[1]:].startswith(" = "):
                d = sub(k[0])
                if d not in ("DIM", "0", "1", "2"):
                    rep.bad(rule, "%s::%s sets every dimension of its result" % (geo, name), n.where(), "element %s is set" % d)
                    return
                writes.append((d, sub(t[k[1] + 3:]), rename(unroll(v.cond(n)), sub), n))
    dims = sorted({d for d, x, c, n in writes if n.loops or not re.match(r"^(let )?%s" % re.escape(var), v.txt[n.id]) or "[" in v.txt[n.id].split(" = ")[0]})
    keys = ["DIM"] if dims == ["DIM"] else ["0", "1", "2"]
    for d in keys:
        mine = [w for w in writes if w[0] == d or (w[0] == "DIM" and d != "DIM" and w[3].loops)]
        res = []
        for i, (_, x, c, n) in enumerate(mine):
            later = [m[2] for m in mine[i + 1:]]
            res.append((x.replace("DIM", d), rename(AND(c, *[~l for l in later]), lambda t: t.replace("DIM", d)), n))
        todim = lambda t: re.sub(r"\[%s\]|\(%s\)" % (d, d), lambda m: m.group(0).replace(d, "DIM"), t) if d != "DIM" else t
        left = list(res)
        for pick, want, what in classes:
            got = [r for r in res if pick(todim(r[0]))]
            c = rename(OR(*[r[1] for r in got] or [~TRUE]), todim)
            equal(rep, rule, "%s::%s: %s%s" % (geo, name, what, "" if d == "DIM" else " (dimension %s)" % d), got[0][2].where() if got else where, hyp, c, want)


def forms(geo):
    """(x, start, end, length of a level 0 cell, 2**maximum level) and how they are written"""
    s = N.const(0) if geo == "No_Geometry" else N.atom("s")
    idx = r"\[[^\[\]]*(\[[^\[\]]*\])?[^\[\]]*\]"
    names = [(r"(each\((get_real_coordinate\()?arg0\)?\)|arg0%s|get_real_coordinate\(arg0\)%s)" % (idx, idx), "x"), (r"get_start\(\)%s" % idx, "s"), (r"get_end\(\)%s" % idx, "e"),
             (r"get_level_0_cell_length\(\)%s|parameters\.level_0_cell_length%s" % (idx, idx), "L"), (r"(mapping\.)?get_maximum_refinement_level\(\)", "M"),
             (r"parameters\.coordinates%s\[(.*)\]" % idx, r"X[\2]")]
    return N.Eval(names), N.atom("x"), s, N.atom("e")


def values(v):
    """assignments of computed values to elements of the result"""
    rets = [n for n in v.nodes if n.kind == "ret" and n.frame is v.L.frame]
    var = v.txt[rets[-1].id][7:] if rets else ""
    for n in v.nodes:
        if n.kind == "eff" and n.eff[0] == "asg" and v.txt[n.id].startswith(var + "["):
            yield n, n.eff[3]


def wrapping(rep, prog, geo):
    """how many grid lengths a coordinate is moved by"""
    v = view(prog, geo, "get_real_coordinate", 1)
    ev, x, s, e = forms(geo)
    L = N.add(e, s, -1)

    def whole(f, d, sign):
        return N.add(x, N.mul(L, N.atom((f, N.key(N.mul(d, N.inverse(L)))))), sign)
    xs, xe = N.add(x, s, -1), N.add(x, e, -1)
    neg = lambda d: {m: -c for m, c in d.items()}
    below = [whole("ceil", neg(xs), 1), whole("floor", xs, -1)]
    above = [whole("ceil", xe, -1), whole("floor", xs, -1), whole("floor", neg(xe), 1)]
    got = 0
    for n, val in values(v):
        t = canon(ir.pr(val), geo)
        if nan(t) or re.match(r"^(arg0\[\w+\]|each\(arg0\))$", t):
            continue
        got += 1
        try:
            f = ev.nf(val)
        except N.Unknown as u:
            rep.bad("periodic", "%s::get_real_coordinate: coordinates are wrapped by whole lengths of the grid" % geo, n.where(), str(u))
            continue
        c = rename(unroll(v.cond(n)), lambda z: canon(z, geo))
        d = re.search(r"arg0\[(\w+)\]", " ".join(c.atoms()) + t)
        d = d.group(1) if d else "DIM"
        low = lt("arg0[%s]" % d, "0" if geo == "No_Geometry" else "get_start()[%s]" % d)
        up = lt("get_end()[%s]" % d, "arg0[%s]" % d)
        order = OR(~low, ~up)
        ok = (f in below and (implies(AND(order, c), low) is None or f in above)) or (f in above and implies(AND(order, c), up) is None)
        rep.check(ok, "periodic", "%s::get_real_coordinate: coordinates are wrapped by as many whole lengths of the grid as needed" % geo, n.where(), "%s becomes %s when %s" % ("x", N.show(f), c))
    rep.check(got > 0, "periodic", "%s::get_real_coordinate: coordinates are wrapped" % geo, "%s:%d" % (v.func.file, v.func.line))


def index_value(rep, prog, geo):
    """which index a coordinate has"""
    v = view(prog, geo, "get_indices", 1)
    ev, x, s, e = forms(geo)
    two = N.pow2(N.atom("M"))
    length = N.atom("L") if geo == "Cartesian_Geometry" else N.const(1)
    want = N.mul(N.mul(N.add(x, s, -1), N.inverse(length)), two)
    for n, val in values(v):
        t = canon(ir.pr(val), geo)
        if c23.err(t):
            continue
        try:
            f = ev.nf(val)
        except N.Unknown as u:
            if geo != "Stretched_Cartesian_Geometry":
                rep.bad("index", "%s::get_indices: index of the smallest possible cell at the coordinate" % geo, n.where(), str(u))
            continue
        if geo == "Stretched_Cartesian_Geometry":
            stretched(rep, v, n, val, f, ev)
            continue
        a = list(f)
        ok = f == want or f == N.atom(("floor", N.key(want))) or f == N.atom(("idiv", N.key(want), N.key(N.const(1))))
        rep.check(ok, "index", "%s::get_indices: index of the smallest possible cell at the coordinate" % geo, n.where(), N.show(f))


def stretched(rep, v, n, val, f, ev):
    """index of level 0 cell and index inside of it, as searched for"""
    vs = sorted({ir.pr(y) for y in N.walk(val) if y[0] == "v"})
    if len(vs) != 2:
        return
    two = N.pow2(N.atom("M"))
    pair = [(a, b) for a in vs for b in vs if a != b and f == N.add(N.mul(N.atom(a), two), N.atom(b))]
    rep.check(len(pair) == 1, "index", "Stretched_Cartesian_Geometry::get_indices: indices of cells before plus index in the cell", n.where(), N.show(f))
    if len(pair) != 1:
        return
    A_, B_ = pair[0]
    at = N.atom("X[%s]" % A_)
    step = N.mul(N.add(N.atom("X[%s + 1]" % A_), at, -1), N.inverse(two))
    alt = N.mul(N.add(N.atom("X[1 + %s]" % A_), at, -1), N.inverse(two))
    for var, wants in ((A_, [at]), (B_, [N.add(at, N.mul(N.atom(B_), st)) for st in (step, alt)])):
        for m in v.nodes:
            if m.kind != "eff" or v.txt.get(m.id) != "%s += 1" % var or not m.loops:
                continue
            w = m.loops[-1]
            c = w.dom[1] if w.dom[0] == "while" and len(w.dom) > 1 else None
            if c is None or c[0] != "bin" or c[1] != "<":
                continue
            try:
                lo, hi = ev.nf(c[2]), ev.nf(c[3])
            except N.Unknown:
                continue
            rep.check(hi == N.atom("x") and lo in wants, "index", "Stretched_Cartesian_Geometry::get_indices: search ends at the coordinate (%s)" % var, m.where(), "%s < %s" % (N.show(lo), N.show(hi)))
            down = [d for d in v.nodes if d.kind == "eff" and v.txt.get(d.id) == "%s -= 1" % var]
            rep.check(len(down) == 1, "index", "Stretched_Cartesian_Geometry::get_indices: the cell before the place found is used (%s)" % var, m.where(), "%d sites" % len(down))


def rules_index(t, i):
    depth = 0
    for j in range(i, len(t)):
        if t[j] == "[":
            depth += 1
        elif t[j] == "]":
            depth -= 1
            if depth == 0:
                return t[i + 1:j], j + 1
    return None


def run(rep, prog, tier):
    hyp = c23.axioms()
    inv = OR(eqf("0", "arg0"), lt("last_cell", "arg0"))
    for geo in GEOS:
        for name in ("get_length", "get_center"):
            fs = [f for f in prog.find(geo, name) if len(f.params) == 1]
            answers(rep, prog, geo, name, 1, None if False else ("x", "x"), hyp, inv, "NaN exactly for cells that can't exist")
        # center of a cell of given level at given indices
        f = prog.one(geo, "get_center", 2)
        lv = [i for i, p in enumerate(f.params) if prog.types[p["t"]].replace("const ", "") == "int"]
        if lv:
            l, ix = "arg%d" % lv[0], "arg%d" % (1 - lv[0])
            want = OR(lt(l, "0"), lt("max_refinement_level", l), *[~lt("%s[%d]" % (ix, d), "(LEN[%d] * (1 << max_refinement_level))" % d) for d in range(3)])
            answers(rep, prog, geo, "get_center", 2, (ix, l), TRUE, want, "NaN exactly for levels and indices that can't exist")
        # minimum and maximum of a cell inherit the NaN
        for name in ("get_min", "get_max"):
            v = view(prog, geo, name, 1)
            rep.saw(v)
            out = [(x, c, n) for x, c, n in c23.outcomes(v, True)]
            for x, c, n in out:
                f = rename(unroll(c), lambda t: canon(t, geo))
                if re.match(r"^%[\w.#]+$", x):
                    x = "; ".join([t for t in v.txt.values() if re.match(r"^%s(\[.*\])? [-+*/]?= " % re.escape(x), t)] or [x])
                ok = nan(x) or re.search(r"get_(center|length)\(arg0\)", x) or implies(AND(hyp, f), ~inv) is None
                rep.check(bool(ok), "answers", "%s::%s: NaN for cells that can't exist" % (geo, name), n.where(), "returns %s when %s" % (x[:80], c))
        v = view(prog, geo, "get_cell", 2)
        rep.saw(v)
        out = [(canon(x, geo), rename(unroll(c), lambda t: canon(t, geo)), n) for x, c, n in c23.outcomes(v, True)]
        bad = OR(lt("arg0", "0"), lt("max_refinement_level", "arg0"))
        calc = [(x, c, n) for x, c, n in out if x == "get_cell_from_indices(get_indices(arg1), arg0)"]
        rest = [(x, c, n) for x, c, n in out if not c23.err(x) and x != "get_cell_from_indices(get_indices(arg1), arg0)"]
        ce = implies(~bad, OR(*[c for x, c, n in calc] or [~TRUE]))
        rep.check(ce is None and not rest, "answers", "%s::get_cell: the cell of given level at the indices of given coordinate" % geo, out[0][2].where(),
                  "returns %s" % (rest[0][0][:80] if rest else "something else when %s" % show(ce or {})))
        c, s, e = "arg0[DIM]", "0" if geo == "No_Geometry" else "get_start()[DIM]", "get_end()[DIM]"
        inside = AND(~lt(c, s), ~lt(e, c))
        per = A("topology.is_periodic(DIM)")
        order = OR(~lt(c, s), ~lt(e, c))
        element(rep, prog, geo, "get_real_coordinate", "periodic", [
            (lambda x: nan(x), AND(~inside, ~per), "NaN exactly outside of the grid in dimensions that aren't periodic"),
            (lambda x: x == c, inside, "coordinates inside of the grid stay exactly those"),
            (lambda x: x != c and not nan(x), AND(~inside, per), "coordinates are wrapped exactly outside of the grid in periodic dimensions")], order)
        wrapping(rep, prog, geo)
        index_value(rep, prog, geo)
        c = "get_real_coordinate(arg0)[DIM]"
        inside = AND(~lt(c, s), ~lt(e, c))
        order = OR(~lt(c, s), ~lt(e, c))
        element(rep, prog, geo, "get_indices", "periodic", [
            (lambda x: c23.err(x), ~inside, "error index exactly for coordinates outside of the grid after wrapping"),
            (lambda x: not c23.err(x), inside, "an index exactly for coordinates inside of the grid after wrapping")], order)
        # an index isn't decremented below zero
        for f in prog.funcs:
            if (f.cls or "").rsplit("::", 1)[-1] != geo or f.body is None:
                continue
            types = {x["n"]: prog.types[x["t"]].replace("const ", "") for x in facts.walk(f.body) if "id" in x and "n" in x and "t" in x and isinstance(x["t"], int)}
            v = View(prog, f)
            for n in v.nodes:
                m = re.match(r"^(%([A-Za-z_]\w*)[\w.#]*) -= (\d+)$", v.txt.get(n.id, "")) if n.kind == "eff" else None
                if m and types.get(m.group(2), "").startswith("unsigned"):
                    ce = implies(v.cond(n), lt("0", m.group(1)))
                    rep.saw(v)
                    rep.check(ce is None, "start of grid", "%s::%s: %s isn't decremented below zero" % (geo, f.name, m.group(2)), n.where(), "decremented when %s" % (show(ce) if ce else ""))
