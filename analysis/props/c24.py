"""Cell numbering and positions of cells follow their formulas.  Decided by
symbolic normal forms: the value every mapping and geometry function returns for
a valid cell is rewritten to a sum of products of grid length, cell length, powers
of two, integer quotients and remainders and compared with the formula of the
documentation, so that ids, indices and coordinates are inverses of each other
for every grid."""
from .common import *
import facts, ir, normal
from normal import Unknown, const, atom, add, mul, pow2, idiv, inverse, key, show as shownf

MIN_OBLIGATIONS = 12
THOROUGH_CONFIGS = [("DEBUG",)]
ASSUMPTIONS = ["arithmetic is exact (overflow is C23, rounding isn't judged)", "a function written in a form without a normal form isn't judged"]
M, l = atom("M"), atom("l")
half = const("1/2")
NAMES = [(r"length(?:_rw)?\.get\(\)\[(\d)\]", r"L\1"), (r"(?:this\.)?max_refinement_level|(?:mapping\.)?get_maximum_refinement_level\(\)", "M"),
         (r"(?:mapping\.)?get_refinement_level\(arg0\)", "l"), (r"(?:mapping\.)?get_indices\(arg0\)\[(\d)\]", r"I\1"),
         (r"parameters\.start\[(\d)\]|get_start\(\)\[(\d)\]", lambda m: "S" + (m.group(1) or m.group(2))),
         (r"parameters\.level_0_cell_length\[(\d)\]|get_level_0_cell_length\(\)\[(\d)\]", lambda m: "c" + (m.group(1) or m.group(2))),
         (r"parameters\.coordinates\[(\d)\]\[(.*)\]", r"X\1[\2]"), (r"arg0\[(\d)\]", r"J\1"), (r"arg1\[(\d)\]", r"J\1")]
L = [atom("L%d" % d) for d in range(3)]
I = [atom("I%d" % d) for d in range(3)]
J = [atom("J%d" % d) for d in range(3)]
S = [atom("S%d" % d) for d in range(3)]
c = [atom("c%d" % d) for d in range(3)]
LLL = mul(mul(L[0], L[1]), L[2])


def below(n):
    """number of cells of refinement levels less than n"""
    return atom(("sum", key(const(0)), key(n), key(mul(LLL, pow2(mul(const(3), atom("i")))))))


def value(v, expand=None, names=()):
    """values returned for valid input: [(node, value)]"""
    out = []
    for n in v.nodes:
        if n.kind != "ret" or n.frame is not v.L.frame or n.eff[1] is None:
            continue
        t = v.txt[n.id]
        if re.search(r"error_index|quiet_NaN|return (0|-1|arg\d)$|NaN", t):
            continue
        for c, got in normal.runs(v, n, lambda: normal.Eval(list(names) + NAMES, expand)):
            out.append((n, c, got))
    return out


def compare(rep, v, what, want, expand=None, names=(), rule="numbering"):
    rep.saw(v)
    for n, cond, got in value(v, expand, names):
        if got is None or isinstance(got, list) != isinstance(want, list):
            continue
        for d, (g, w) in enumerate(zip(got, want)) if isinstance(want, list) else [(0, (got, want))]:
            if g is None:
                continue
            s = known(cond, names)
            if s is None:
                continue
            try:
                for name, num in s:
                    g, w = normal.subst(g, name, num), normal.subst(w, name, num)
            except Unknown:
                continue
            rep.check(key(g) == key(w), rule, what + (" (%s)" % "xyz"[d] if isinstance(want, list) else ""), n.where(), "is %s, must be %s" % (shownf(g), shownf(w)))


def known(cond, names):
    """[(name, number)] that a condition gives, None if it bounds something so that it might be a number"""
    ev = normal.Eval(list(names) + NAMES)
    out = []
    for a in cond.atoms():
        m = re.match(r"^\((-?\d+) == (.*)\)$", a) or re.match(r"^\((.*) == (-?\d+)\)$", a)
        if m and implies(cond, F("atom", a)) is None:
            x, y = m.groups() if m.group(1).lstrip("-").isdigit() else reversed(m.groups())
            out.append((ev.name(y), int(x)))
        for r, pol in ((r"^\((.*) < (\d+)\)$", True), (r"^\((\d+) < (.*)\)$", False)):
            m = re.match(r, a)
            k = int(m.group(2 if pol else 1)) if m else 9
            if m and k + (not pol) <= 1 and k + (not pol) > 0 and implies(cond, F("atom", a) if pol else ~F("atom", a)) is None:
                return None
    return out


def numbering(rep, prog):
    lev = atom("arg1")
    v = view(prog, "Mapping", "get_cell_from_indices", 2)
    x = [idiv(J[d], pow2(add(M, lev, -1))) for d in range(3)]
    want = add(add(add(add(const(1), below(lev)), x[0]), mul(mul(x[1], L[0]), pow2(lev))), mul(mul(mul(x[2], L[0]), L[1]), pow2(mul(const(2), lev))))
    compare(rep, v, "id of the cell of a level at given indices", want)
    v = view(prog, "Mapping", "get_indices", 1)
    r = add(add(atom("arg0"), const(1), -1), below(l), -1)
    s = pow2(add(M, l, -1))
    l0, l1 = mul(L[0], pow2(l)), mul(L[1], pow2(l))
    mod = lambda a, b: atom(("mod", key(a), key(b)))
    compare(rep, v, "indices of a cell", [mul(mod(r, l0), s), mul(mod(idiv(r, l0), l1), s), mul(idiv(r, mul(l0, l1)), s)])
    v = view(prog, "Mapping", "get_cell_length_in_indices", 1)
    compare(rep, v, "length of a cell in indices", s)
    # last cell
    v = view(prog, "Mapping", "update_last_cell", 0)
    rep.saw(v)
    end = [n for n in v.nodes if n.kind == "exit"][0]
    want = below(add(M, const(1)))
    for c, got in final(v, end, (".", ("this",), "last_cell")):
        if got is not None and not isinstance(got, list) and known(c, ()) == []:
            rep.check(key(got) == key(want), "numbering", "id of the last possible cell", "%s:%d" % (v.func.file, v.func.line), "is %s, must be %s" % (shownf(got), shownf(want)))
    level(rep, prog)
    family(rep, prog)


def final(v, end, target):
    import types
    r = types.SimpleNamespace(**{k: getattr(end, k) for k in ("id", "kind", "guards", "loops", "line", "func", "file", "succ", "pred", "frame")})
    r.eff = ("ret", target)
    cond = v.cond
    old = v.nodes
    v2 = types.SimpleNamespace(nodes=[n for n in old if n is not end] + [r], cond=lambda n, **kw: TRUE if n is r else cond(n, **kw), txt=v.txt, L=v.L)
    return normal.runs(v2, r, lambda: normal.Eval(NAMES))


def level(rep, prog):
    """a cell's level is the first up to which there are at least as many cells as its id"""
    v = view(prog, "Mapping", "get_refinement_level", 1)
    rep.saw(v)
    W = "%s:%d" % (v.func.file, v.func.line)
    acc = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "asg" and n.eff[1] == "+=" and len(n.loops) == 1 and n.eff[3] != ("i", 1)]
    if len(acc) != 1:
        return
    a = acc[0]
    tot = a.eff[2]
    inc = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "asg" and n.eff[1] == "+=" and n.eff[3] == ("i", 1) and len(n.loops) == 1]
    ev = normal.Eval(NAMES)
    if len(inc) == 1:
        i = inc[0].eff[2]
    elif a.loops[0].dom[0] == "range":
        el = [x for x in normal.walk(a.eff) if x[0] == "el" and x[1] == a.loops[0].dom]
        if not el:
            return
        i = el[0]
    else:
        return
    ev.env[i] = atom("i")
    try:
        got = ev.nf(a.eff[3])
    except Unknown:
        return
    want = mul(LLL, pow2(mul(const(3), atom("i"))))
    rep.check(key(got) == key(want), "numbering", "number of cells of a level, when looking for the level of a cell", a.where(), "is %s, must be %s" % (shownf(got), shownf(want)))
    ini = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "init" and n.eff[1] in (tot, i)]
    for n in ini:
        first = n.eff[1] == tot and len(inc) == 1 and v.nodes.index(inc[0]) < v.nodes.index(a)
        try:
            g = normal.Eval(NAMES).nf(n.eff[2])
        except Unknown:
            continue
        rep.check(g == (LLL if first else {}), "numbering", "the search for the level of a cell starts at level 0", n.where(), v.txt[n.id])
    if len(inc) == 1:
        t = ir.pr(tot)
        past = F("atom", cmp_key("<", t, "arg0"))
        cn = v.cond(inc[0])
        if any(t in x for x in cn.atoms()):
            rep.check(implies(cn, past) is None, "numbering", "cells up to the last of a level aren't of a higher level", inc[0].where(), "level is increased if %s" % cn)


def family(rep, prog):
    """children are the cells of next level at the indices of their parent, half its length apart"""
    v = view(prog, "Mapping", "get_all_children", 1)
    rep.saw(v)
    ch = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "asg" and n.eff[1] == "=" and n.eff[2][0] == "[]" and n.eff[3][0] == "call" and n.eff[3][1] == "get_cell_from_indices"]
    if len(ch) != 1 or len(ch[0].eff[3][3]) != 2 or ch[0].eff[3][3][0][0] != "ilist":
        return
    idx, lv = ch[0].eff[3][3]
    ev = normal.Eval(NAMES)
    # level at this point
    rl = [n for n in v.nodes if n.kind == "eff" and n.eff[0] in ("init", "asg") and not n.loops and n.eff[1 if n.eff[0] == "init" else 2] == lv]
    for n in rl:
        try:
            if n.eff[0] == "init" or n.eff[1] == "=":
                ev.env[lv] = ev.nf(n.eff[2] if n.eff[0] == "init" else n.eff[3])
            elif n.eff[1] in ("+=", "-="):
                ev.env[lv] = add(ev.env[lv], ev.nf(n.eff[3]), 1 if n.eff[1] == "+=" else -1)
        except (Unknown, KeyError, TypeError):
            return
    try:
        got = ev.nf(lv)
    except Unknown:
        return
    rep.check(key(got) == key(add(l, const(1))), "family", "children are of the next refinement level", ch[0].where(), "level is %s" % shownf(got))
    step = pow2(add(add(M, l, -1), const(1), -1))
    for d, x in enumerate(idx[1]):
        offs = [y for y in normal.walk(x) if y[0] == "v" and ir.pr(y).startswith("%") and y not in ev.env]
        if len(set(offs)) != 1:
            continue
        o = offs[0]
        try:
            got = ev.nf(x)
            want = add(I[d], atom(ev.name(ir.pr(o))))
            rep.check(key(got) == key(want), "family", "children are offset from indices of their parent (%s)" % "xyz"[d], ch[0].where(), "is %s" % shownf(got))
            ini = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "init" and n.eff[1] == o]
            inc = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "asg" and n.eff[2] == o]
            wh = [q.dom for q in ch[0].loops if q.dom[0] == "while" and any(y == o for y in normal.walk(q.dom))]
            if len(ini) == 1 and len(inc) == 1 and len(wh) == 1 and inc[0].eff[1] == "+=" and wh[0][1][0] == "bin" and wh[0][1][1] in ("<", "!=") and wh[0][1][2] == o:
                rep.check(ev.nf(ini[0].eff[2]) == {}, "family", "first child is at the indices of its parent (%s)" % "xyz"[d], ini[0].where(), v.txt[ini[0].id])
                g = ev.nf(inc[0].eff[3])
                rep.check(key(g) == key(step), "family", "children are a child's length apart (%s)" % "xyz"[d], inc[0].where(), "distance is %s" % shownf(g))
                h = ev.nf(wh[0][1][3])
                rep.check(key(h) == key(mul(const(2), step)), "family", "there are two children side by side (%s)" % "xyz"[d], ini[0].where(), "offsets go up to %s" % shownf(h))
        except Unknown:
            continue
    for name, want in (("get_parent", r"get_cell_from_indices\(get_indices\(arg0\), \(get_refinement_level\(arg0\) - 1\)\)"),
                       ("get_child", r"get_cell_from_indices\(get_indices\(arg0\), \((get_refinement_level\(arg0\) \+ 1|1 \+ get_refinement_level\(arg0\))\)\)"),
                       ("get_siblings", r"get_all_children\(get_parent\(arg0\)\)"),
                       ("get_level_0_parent", r"get_cell_from_indices\(get_indices\(arg0\), 0\)")):
        v = view(prog, "Mapping", name, 1)
        rep.saw(v)
        for n in v.nodes:
            m = re.match(r"^return (get_cell_from_indices\(get_indices\(arg0\), (?:.*)\)|get_all_children\(.*\))$", v.txt.get(n.id, "")) if n.kind == "ret" else None
            if m:
                rep.check(re.match("^%s$" % want, m.group(1)) is not None, "family", "%s is the cell of the right level at the same indices" % name, n.where(), m.group(1))


def positions(rep, prog, cls):
    """[start], [end], and per cell functions of one geometry"""
    done = {}
    two = lambda n, k: view(prog, cls, n, k)

    def expand(x, ev):
        if x[0] == "call" and x[2] in (None, ("this",)):
            if x[1] in ("get_start", "get_end", "get_level_0_cell_length") and not x[3] and (x[1], 0) in done:
                return done[(x[1], 0)]
            if len(x[3]) == 1 and x[3][0][0] == "v" and x[3][0][1] == "arg0" and (x[1], 1) in done:
                return done[(x[1], 1)]
        return None

    def learn(name, k, want, what):
        try:
            v = two(name, k)
        except facts.AnalysisBroken:
            return
        compare(rep, v, "%s: %s" % (cls, what), want, expand, rule="positions")
        done[(name, k)] = want
    if cls == "Cartesian_Geometry":
        st, unit = S, c
    elif cls == "No_Geometry":
        st, unit = [const(0)] * 3, [const(1)] * 3
    X = lambda d, k: atom("X%d[%s]" % (d, shownf(k)))
    if cls == "Stretched_Cartesian_Geometry":
        k0 = [idiv(I[d], pow2(M)) for d in range(3)]
        st = [X(d, const(0)) for d in range(3)]
        end = [X(d, L[d]) for d in range(3)]
        unit = [add(X(d, add(k0[d], const(1))), X(d, k0[d]), -1) for d in range(3)]
        learn("get_level_0_cell_coord_start_index", 1, k0, "index of the unrefined cell that a cell is in")
        mn = [add(X(d, k0[d]), mul(mul(unit[d], pow2(M, -1)), add(I[d], mul(k0[d], pow2(M)), -1))) for d in range(3)]
    else:
        end = [add(st[d], mul(unit[d], L[d])) for d in range(3)]
        mn = [add(st[d], mul(mul(unit[d], I[d]), pow2(M, -1))) for d in range(3)]
    ln = [mul(unit[d], pow2(l, -1)) for d in range(3)]
    learn("get_start", 0, st, "start of the grid")
    learn("get_level_0_cell_length", 0, unit, "length of unrefined cells") if cls != "Stretched_Cartesian_Geometry" else None
    learn("get_end", 0, end, "end of the grid")
    learn("get_length", 1, ln, "length of a cell")
    learn("get_center", 1, [add(mn[d], mul(ln[d], half)) for d in range(3)], "center of a cell")
    learn("get_min", 1, mn, "minimum of a cell")
    learn("get_max", 1, [add(mn[d], ln[d]) for d in range(3)], "maximum of a cell")
    if cls != "Stretched_Cartesian_Geometry":
        lev = atom("arg0")
        learn("get_center", 2, [add(add(st[d], mul(mul(unit[d], J[d]), pow2(M, -1))), mul(mul(unit[d], half), pow2(lev, -1))) for d in range(3)], "center for indices and level")


def run(rep, prog, tier):
    ir.TYPED = True
    numbering(rep, prog)
    for cls in ("Cartesian_Geometry", "No_Geometry", "Stretched_Cartesian_Geometry"):
        positions(rep, prog, cls)
