"""The mapping between cells and indices tells valid input from invalid and
keeps the range of ids current.  Decided on the control-flow graphs: for every
query of Mapping the condition under which each answer is returned (the error
value, the given cell itself, or the answer computed from its indices and the
next level) is compared with the documented one, given what the refinement level
of a cell means; after every change of length or maximum refinement level the
last cell is recomputed, and only levels and lengths whose ids fit are accepted."""
from .common import *
import facts

MIN_OBLIGATIONS = 25
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["the numbers computed by the mapping for valid input are not decided (see C24)"]
L = "get_refinement_level(arg0)"
ERR = re.compile(r"^(0|dccrg::error_cell|dccrg::error_index|18446744073709551615|-1)$")


def canon(t):
    t = t.replace("get_last_cell()", "last_cell").replace("get_maximum_refinement_level()", "max_refinement_level")
    t = re.sub(r"\blength(_rw)?\.get\(\)", "LEN", t)
    t = re.sub(r"\((LEN\[[^\]]*\]) << max_refinement_level\)", r"(\1 * (1 << max_refinement_level))", t)
    t = re.sub(r"\(\(1 << max_refinement_level\) \* (LEN\[[^\]]*\])\)", r"(\1 * (1 << max_refinement_level))", t)
    return t


def unroll(f):
    """quantification over the three dimensions written out"""
    if f.k == "atom":
        t = f.a[0]
        import rules
        if t in rules.EXISTS and list(rules.EXISTS[t][0]) in (["0..3"], ["each(0..3)"]):
            body = unroll(rules.EXISTS[t][1])
            return OR(*[rename(body, lambda s, d=d: s.replace("each(0..3)", str(d))) for d in range(3)])
        m = re.match(r"^exists\(0\.\.3: ", t)
        return f
    if f.k == "b":
        return f
    return F(f.k, *[unroll(x) for x in f.a])


def each3(f, n, v):
    """the condition of something done inside a loop over the dimensions"""
    if any(l == "0..3" for l in v.loops(n)):
        return OR(*[rename(f, lambda s, d=d: s.replace("each(0..3)", str(d))) for d in range(3)])
    return f


def outcomes(v, ret):
    """(value, condition) pairs of what a function returns"""
    out = []
    for n in v.nodes:
        if n.kind != "ret" or n.frame is not v.L.frame:
            continue
        t = v.txt[n.id]
        val = t[len("return "):] if t.startswith("return ") else ""
        c = each3(unroll(v.cond(n)), n, v)
        if re.match(r"^%[\w.#]+$", val):
            defs = [(m, re.match(r"^(?:let )?%s = (.*)$" % re.escape(val), v.txt[m.id])) for m in v.nodes if m.id in v.txt and m.kind == "eff"]
            defs = [(m, x.group(1)) for m, x in defs if x and not m.loops]
            other = [m for m in v.nodes if m.kind == "eff" and re.match(r"^%s(\[.*\])? (=|\+=|-=)" % re.escape(val), v.txt[m.id]) and (m, 0) not in [(d, 0) for d, _ in defs]]
            if defs and not other:
                for i, (m, x) in enumerate(defs):
                    later = [unroll(v.cond(k)) for k, _ in defs[i + 1:]]
                    out.append((x, AND(c, unroll(v.cond(m)), *[~l for l in later]), n))
                continue
        out.append((val, c, n))
    return out


def lets(v):
    sub = []
    for n in v.nodes:
        if n.id in v.txt:
            m = re.match(r"^let (%[\w.#]+) = get_refinement_level\(arg0\)$", v.txt[n.id])
            if m:
                sub.append(m.group(1))
    return sub


def lt(t):
    a, b = t.split(" < ", 1)
    return F("atom", cmp_key("<", a, b))


def axioms():
    neg, gt, zero = lt("%s < 0" % L), lt("max_refinement_level < %s" % L), eqf("0", L)
    inv = OR(eqf("0", "arg0"), lt("last_cell < arg0"))
    same = OR(AND(neg, inv), AND(~neg, ~inv))
    return AND(same, ~gt, OR(~zero, ~neg), ~lt("max_refinement_level < 0"), OR(~neg, lt("%s < max_refinement_level" % L)),
               OR(neg, lt("0 < %s" % L), zero), ~AND(lt("0 < %s" % L), zero), ~AND(neg, lt("0 < %s" % L)), ~lt("last_cell < 0"),
               OR(AND(~eqf("0", L), eqf(L, "max_refinement_level")), TRUE),
               OR(~eqf(L, "max_refinement_level"), ~lt("%s < max_refinement_level" % L)),
               OR(eqf(L, "max_refinement_level"), lt("%s < max_refinement_level" % L), gt))


def cases(rep, prog, name, table, np=1):
    """table: (which values, description, when)"""
    v = view(prog, "Mapping", name, np)
    rep.saw(v)
    hyp = axioms()
    locs = lets(v)

    def sub(t):
        for x in locs:
            t = t.replace(x, L)
        return canon(t)
    got = [(canon(sub(val)), rename(c, sub), n) for val, c, n in outcomes(v, True)]
    used = set()
    for pick, what, want in table:
        mine = [(val, c, n) for val, c, n in got if pick(val)]
        used |= {id(n) for _, _, n in mine}
        c = OR(*[c for _, c, _ in mine]) if mine else ~TRUE
        where = mine[0][2].where() if mine else "%s:%d" % (v.func.file, v.func.line)
        text = "%s returns %s exactly when it should" % (name, what)
        ce = implies(AND(hyp, want), c)
        if ce is not None:
            rep.bad("answers", text, where, "not returned when %s" % show(ce))
            continue
        ce = implies(AND(hyp, c), want)
        rep.check(ce is None, "answers", text, where, "returned also when %s" % (show(ce) if ce else ""))
    for val, c, n in got:
        if id(n) not in used and satisfiable(AND(hyp, c)) is not None:
            rep.bad("answers", "%s returns only documented answers" % name, n.where(), "returns %s when %s" % (val, c))


def err(val):
    if ERR.match(val):
        return True
    m = re.match(r"^\{(.*)\}$", val)
    return bool(m) and all(ERR.match(x.strip()) for x in m.group(1).split(","))


def from_indices(level):
    w = {"+1": (r"\(%s \+ 1\)", r"\(1 \+ %s\)"), "-1": (r"\(%s - 1\)",), "0": ("0",)}[level]
    rx = re.compile(r"^get_cell_from_indices\(get_indices\(arg0\), (%s)\)$" % "|".join(x % re.escape(L) if "%s" in x else x for x in w))
    return lambda val: rx.match(val) is not None


def run(rep, prog, tier):
    inv = OR(eqf("0", "arg0"), lt("last_cell < arg0"))
    top = ~lt("%s < max_refinement_level" % L)
    zero = eqf("0", L)
    itself = lambda val: val == "arg0"
    cases(rep, prog, "get_child", [
        (err, "the error cell", inv), (itself, "the given cell", AND(~inv, top)),
        (from_indices("+1"), "the cell of the next level at the same indices", AND(~inv, ~top))])
    cases(rep, prog, "get_parent", [
        (err, "the error cell", inv), (itself, "the given cell", AND(~inv, zero)),
        (from_indices("-1"), "the cell of the previous level at the same indices", AND(~inv, ~zero))])
    cases(rep, prog, "get_level_0_parent", [
        (err, "the error cell", inv), (itself, "the given cell", AND(~inv, zero)),
        (from_indices("0"), "the level 0 cell at the same indices", AND(~inv, ~zero))])
    cases(rep, prog, "get_siblings", [
        (err, "error cells", inv), (lambda val: re.match(r"^\{arg0(, (0|dccrg::error_cell))*\}$", val) is not None, "just the given cell", AND(~inv, zero)),
        (lambda val: val in ("get_all_children(get_parent(arg0))", "get_all_children(get_cell_from_indices(get_indices(arg0), (%s - 1)))" % L), "the children of its parent", AND(~inv, ~zero))])
    cases(rep, prog, "get_cell_length_in_indices", [
        (err, "the error index", inv), (lambda val: not err(val), "a length", ~inv)])
    cases(rep, prog, "get_indices", [
        (err, "error indices", inv), (lambda val: not err(val), "indices", ~inv)])
    level(rep, prog)
    children(rep, prog)
    from_idx(rep, prog)
    limits(rep, prog)


def level(rep, prog):
    v = view(prog, "Mapping", "get_refinement_level", 1)
    rep.saw(v)
    inv = OR(eqf("0", "arg0"), lt("last_cell < arg0"))
    inside = lambda t: None
    # what the search itself decides is left open
    bad = [(x, rename(c, canon), n) for x, c, n in outcomes(v, True)]
    loc = lambda t: "%" in t
    e = OR(*[c for x, c, n in bad if x == "-1"])
    o = OR(*[c for x, c, n in bad if x != "-1"])
    ce = implies(inv, e)
    rep.check(ce is None, "answers", "get_refinement_level returns -1 for every invalid cell", bad[0][2].where(), "not returned when %s" % (show(ce) if ce else ""))
    ce = implies(AND(inv, o), ~TRUE)
    rep.check(ce is None, "answers", "get_refinement_level returns a level only for valid cells", bad[0][2].where(), "returned when %s" % (show(ce) if ce else ""))
    atoms = {t for t in e.atoms()}
    for x, c, n in bad:
        if x != "-1":
            continue
        if not n.loops and any(m.kind == "ret" and m.loops for m in v.nodes[:v.nodes.index(n)]):
            continue  # after a search that returns what it finds
        c2 = simplify(c, lambda t: False if loc(t) and re.search(r"max_refinement_level < %|%[\w.#]+ == |exists", t) else None)
        ce = implies(c2, inv)
        rep.check(ce is None, "answers", "get_refinement_level refuses only invalid cells", n.where(), "-1 when %s" % (show(ce) if ce else ""))


def children(rep, prog):
    v = view(prog, "Mapping", "get_all_children", 1)
    rep.saw(v)
    hyp = axioms()
    inv = OR(eqf("0", "arg0"), lt("last_cell < arg0"))
    locs = lets(v)

    def sub(t):
        for x in locs:
            t = t.replace(x, L)
        return canon(t)
    what = "get_all_children gives children exactly to valid cells below the maximum refinement level"
    w = [n for n in v.nodes if n.kind == "eff" and re.search(r"get_cell_from_indices\(", v.txt[n.id]) and not v.txt[n.id].startswith("let ")]
    w += [n for n in v.nodes if n.kind == "ret" and "get_cell_from_indices(" in v.txt[n.id]]
    if not w:
        rep.bad("answers", what, "%s:%d" % (v.func.file, v.func.line), "no child is computed from indices")
        return
    c = OR(*[rename(v.cond(n), sub) for n in w])
    c = simplify(c, lambda t: True if "%" in t or "each(" in t else None)
    want = AND(~inv, lt("%s < max_refinement_level" % L))
    ce = implies(AND(hyp, want), c)
    if ce is not None:
        rep.bad("answers", what, w[0].where(), "no children when %s" % show(ce))
        return
    ce = implies(AND(hyp, c), want)
    rep.check(ce is None, "answers", what, w[0].where(), "children also when %s" % (show(ce) if ce else ""))
    init = [n for n in v.nodes if n.id in v.txt and re.match(r"^let %[\w.#]+ = \{(0|dccrg::error_cell)(, (0|dccrg::error_cell)){7}\}$", v.txt[n.id])]
    fill = [n for n in v.nodes if n.kind == "eff" and re.search(r"\.fill\((0|dccrg::error_cell)\)", v.txt[n.id])]
    rets = [n for n in v.nodes if n.kind == "ret" and err(v.txt[n.id][7:])]
    rep.check(bool(init or fill or rets), "answers", "get_all_children gives error cells otherwise", "%s:%d" % (v.func.file, v.func.line), "the result is not preset with error cells")


def from_idx(rep, prog):
    v = view(prog, "Mapping", "get_cell_from_indices", 2)
    rep.saw(v)
    out = [(canon(x), rename(c, canon), n) for x, c, n in outcomes(v, True)]
    ok = [(x, c, n) for x, c, n in out if not err(x)]
    e = OR(*[c for x, c, n in out if err(x)])
    outside = OR(*[~lt("arg0[%d] < (LEN[%d] * (1 << max_refinement_level))" % (d, d)) for d in range(3)])
    want = OR(outside, lt("arg1 < 0"), lt("max_refinement_level < arg1"))
    what = "get_cell_from_indices returns the error cell exactly for indices outside of the grid and levels that don't exist"
    where = out[0][2].where()
    ce = implies(want, e)
    if ce is not None:
        rep.bad("answers", what, where, "accepted when %s" % show(ce))
        return
    ce = implies(e, want)
    rep.check(ce is None, "answers", what, where, "refused also when %s" % (show(ce) if ce else ""))


def limits(rep, prog):
    for f in prog.funcs:
        if (f.cls or "").rsplit("::", 1)[-1] != "Mapping" or f.body is None or f.name == "update_last_cell" or f.name.startswith("~") or f.d.get("implicit"):
            continue
        v = View(prog, f)
        ws = [n for n in v.nodes if n.kind == "eff" and re.match(r"^(max_refinement_level [-+]?= |length_rw\.set\(|length_rw = )", v.txt[n.id])]
        if not ws:
            continue
        rep.saw(v)
        ups = [n for n in v.nodes if n.kind == "eff" and (re.match(r"^update_last_cell\(", v.txt[n.id]) or re.match(r"^last_cell = ", v.txt[n.id]))]
        import ir
        for n in ws:
            path = ir.path_avoiding([n], lambda m: m.kind in ("exit", "ret"), lambda m: m in ups)
            bad = None
            if path is not None:
                end = path[-1] if isinstance(path, list) else path
                # a refused length is not a change
                bad = refused(v, n, ups)
            rep.check(bad is None, "last cell", "%s: the last cell is recomputed after %s" % (f.name, v.txt[n.id][:40]), n.where(), "not recomputed when %s" % bad)
    v = view(prog, "Mapping", "set_maximum_refinement_level", 1)
    rep.saw(v)
    fits = AND(~lt("arg0 < 0"), ~lt("get_maximum_possible_refinement_level() < arg0"))
    where = "%s:%d" % (v.func.file, v.func.line)
    for want, cond, what in ((True, fits, "accepts exactly the levels whose ids fit"), (False, ~fits, "refuses exactly the levels whose ids don't fit")):
        c = ret_formula(v, want)
        ce = implies(cond, c) or implies(c, cond)
        rep.check(ce is None, "limits", "set_maximum_refinement_level %s" % what, where, "differs when %s" % (show(ce) if ce else ""))
    ws = [n for n in v.nodes if n.kind == "eff" and v.txt[n.id].startswith("max_refinement_level = ")]
    c = OR(*[v.cond(n) for n in ws] or [~TRUE])
    ce = implies(fits, c) or implies(c, fits)
    rep.check(ce is None and all(v.txt[n.id] == "max_refinement_level = arg0" for n in ws), "limits", "set_maximum_refinement_level sets the given level exactly when it is accepted", where, "differs when %s" % (show(ce) if ce else ""))
    v = view(prog, "Mapping", "set_length", 1)
    rep.saw(v)
    where = "%s:%d" % (v.func.file, v.func.line)
    fits = ~lt("get_maximum_possible_refinement_level() < max_refinement_level")
    c = ret_formula(v, True)
    ce = implies(c, fits)
    rep.check(ce is None, "limits", "set_length accepts a length only if ids of cells of the maximum refinement level fit", where, "accepted when %s" % (show(ce) if ce else ""))
    ce = implies(c, A("length_rw.set(arg0)"))
    rep.check(ce is None, "limits", "set_length accepts a length only if Grid_Length does", where, "accepted when %s" % (show(ce) if ce else ""))


def refused(v, n, ups):
    """the condition under which the change at n was made and stays, but the last
    cell isn't recomputed"""
    c = v.cond(n)
    if "length_rw.set(" in v.txt[n.id]:
        c = AND(c, A(v.txt[n.id]))
    u = OR(*[v.cond(m) for m in ups] or [~TRUE])
    # paths on which the old value is restored
    back = OR(*[v.cond(m) for m in v.nodes if m.kind == "eff" and m.id != n.id and re.match(r"^(length_rw\.set\((%|length)|max_refinement_level = %|length_rw = %)", v.txt[m.id])] or [~TRUE])
    if re.match(r"^length_rw\.set\((%|length)", v.txt[n.id]):
        return None
    ce = implies(AND(c, ~back), u)
    return show(ce) if ce is not None else None
