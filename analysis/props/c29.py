"""New and loaded grids consist of the right cells.  Decided on the control-flow
graphs of the functions that create level 0 cells, default neighborhoods and the
cells of a loaded grid: numbers of cells per process in normal form, loops that
number cells, the set of offsets, and the chain of parents that is refined."""
from .common import *
import facts, ir, normal as N
from normal import Unknown, Split, const, atom, add, mul

MIN_OBLIGATIONS = 15
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["space-filling curve (USE_SFC) isn't analysed, its library isn't available",
               "numbers of cells written in a form without normal form aren't judged", "arithmetic is exact (C16)"]
PRE = r"(?:mapping(?:_rw)?\.)?"
LEN = PRE + r"length(?:_rw)?\.get\(\)\[(\d)\]"
NAMES = [(LEN, r"L\1"), (r"comm_size", "P"), (PRE + r"get_refinement_level\((.*)\)", r"level(\1)")]
T = mul(mul(atom("L0"), atom("L1")), atom("L2"))
P = atom("P")


def tsub(t):
    t = re.sub(LEN, r"L\1", t)
    for a, b, c in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
        t = t.replace("((L%d * L%d) * L%d)" % (a, b, c), "T").replace("(L%d * (L%d * L%d))" % (a, b, c), "T").replace("(L%d * L%d * L%d)" % (a, b, c), "T")
    return re.sub(r"\bcomm_size\b", "P", t)


class Cases(Exception):
    def __init__(self, c):
        self.c = c


def values(v, x, sc, ev, depth=0):
    """normal form of x under scenario sc"""
    env = {}
    for y in [y for y in N.walk(x) if y[0] == "v"]:
        ws = [n for n in v.nodes if n.kind in ("eff", "bind") and ((n.eff[0] in ("init", "let") and n.eff[1] == y) or (n.eff[0] == "asg" and n.eff[2] == y))] if depth < 4 else []
        got = None
        for n in ws:
            if n.eff[0] == "asg" and n.eff[1] != "=":
                raise Unknown("value of " + ir.pr(y))
            c = rename(v.cond(n), tsub)
            if implies(sc, c) is None:
                got = n
            elif implies(sc, ~c) is not None:
                raise Cases(c)
        if got is not None:
            env[y] = values(v, got.eff[3] if got.eff[0] == "asg" else got.eff[2], sc, ev, depth + 1)
    old = dict(ev.env)
    ev.env.update(env)
    ev.assume = sc
    try:
        if x == ("undef",) or ir.pr(x) == "undef()":
            return atom("undefined")
        return ev.nf(x)
    except Split as e:
        raise Cases(rename(e.args[0], tsub))
    finally:
        ev.env = old


def leaves(v, x, sc, depth=0):
    """(what is assumed beyond sc, normal form) for all cases the code distinguishes"""
    ev = N.Eval(NAMES)
    try:
        return [(sc, values(v, x, sc, ev))]
    except Cases as e:
        if depth > 3:
            raise Unknown("too many cases")
        out = []
        for c in (e.c, ~e.c):
            if implies(AND(sc, c), ~TRUE) is not None:
                out += leaves(v, x, AND(sc, c), depth + 1)
        return out


def ints(rep, rule, what, where, got, wants):
    rep.check(got in wants, rule, what, where, "%s, should be %s" % (N.show(got), N.show(wants[0])))


def creation(rep, prog):
    v = view(prog, "Dccrg", "create_level_0_cells")
    rep.saw(v)
    rule = "level 0"
    asg = v.find(["cell_process[$c] = $p"])
    rep.check(len(asg) >= 1, rule, "cells are recorded", "%s:%d" % (v.func.file, v.func.line))
    ok0 = ~eqf("0", "arg0")
    for n, env in asg:
        doms = v.loops(n)
        c, p = env["c"], env["p"]
        if re.match(r"^\d+$", c):
            rep.bad(rule, "ids follow each other without gaps", n.where(), "always cell " + c)
            continue
        if len(doms) != 2 or not re.match(r"^%[\w.#]+$", c):
            continue          # another way of numbering
        rep.check(doms[0] == "0..comm_size" and p == "each(0..comm_size)", rule, "processes get cells one after another", n.where(), "process %s of %s" % (p, doms[0]))
        rep.check(implies(ok0, v.cond(n)) is None, rule, "every cell is recorded", n.where(), "only when %s" % v.cond(n))
        ch = [m for m in v.nodes if m.kind == "eff" and m.eff[0] in ("init", "asg") and ir.pr(m.eff[2 if m.eff[0] == "asg" else 1]) == c]
        ini = [m for m in ch if m.eff[0] == "init"]
        inc = [m for m in ch if m.eff[0] == "asg"]
        rep.check(len(ini) == 1 and v.txt[ini[0].id] == "let %s = 1" % c and not ini[0].loops, rule, "ids start from 1", ini[0].where() if ini else n.where(), v.txt[ini[0].id] if ini else "")
        rep.check(len(inc) == 1 and v.txt[inc[0].id] == "%s += 1" % c and [l.loop for l in inc[0].loops] == [l.loop for l in n.loops] and implies(ok0, v.cond(inc[0])) is None, rule, "ids follow each other without gaps", inc[0].where() if inc else n.where(), v.txt[inc[0].id] if inc else "")
        if inc:
            rep.not_after(v, rule, [n], inc[:1], "a cell is recorded before counting to the next one")
        for l in n.loops:
            ex = v.loop_exits(l)
            rep.check(not ex, rule, "all cells of all processes are created", n.where(), "the loop is left early")
        # storage
        cd = v.find(["cell_data.[](%s)" % c, "cell_data[%s] = $x" % c, "cell_data.emplace(%s, $x)" % c])
        rep.check(len(cd) == 1 and [l.loop for l in cd[0][0].loops] == [l.loop for l in n.loops], rule, "cells of this process get storage", n.where(), "%d sites" % len(cd))
        for m, _ in cd:
            want = eqf("rank", p)
            got = v.cond(m)
            rep.check(implies(AND(ok0, want), got) is None and implies(got, want) is None, rule, "storage for exactly the cells of this process", m.where(), "when %s" % got)
            if inc:
                rep.not_after(v, rule, [m], inc[:1], "storage is for the cell recorded")
        rep.check(doms[1].startswith("0..") or not re.match(r"^-?\d+\.\.", doms[1]), rule, "as many cells as counted are created", n.where(), doms[1])
        for m in v.nodes:
            t = tsub(v.txt.get(m.id, "")) if m.kind in ("eff", "bind") else ""
            k = re.search(r"L\d\)? \* \(?L\d", t)
            rep.check(not k, rule, "the number of level 0 cells is the product of lengths", m.where(), t) if k or "T" in t.split() else None
        # numbers of cells
        l2 = n.loops[1].dom
        cnt = l2[-1] if l2[0] in ("range", "upto", "to") else None
        if cnt is None:
            try:
                cnt = [y for y in l2 if isinstance(y, tuple)][-1]
            except IndexError:
                continue
        small = F("atom", cmp_key("<", "T", "P"))
        even = eqf("0", "(T % P)")
        el = n.loops[0]
        q = N.idiv(T, P)
        up = N.idiv(add(add(T, P), const(1), -1), P)
        for name, sc, K in (("fewer cells than processes", AND(small, ~even, F("atom", cmp_key("<", "0", "(T % P)"))), [const(1), add(q, const(1)), up]),
                            ("divisible", AND(~small, even, ~F("atom", cmp_key("<", "0", "(T % P)"))), [q, up]),
                            ("not divisible", AND(~small, ~even, F("atom", cmp_key("<", "0", "(T % P)"))), [add(q, const(1)), up])):
            try:
                number(rep, v, rule, name, cnt, n, AND(ok0, sc), K)
            except (Unknown, Split) as e:
                rep.notes = getattr(rep, "notes", []) + [str(e)]


def number(rep, v, rule, name, cnt, n, sc, K):
    """cnt is k - 1 on the first k * P - T processes and k on others"""
    el = "each(0..P)"
    found = leaves(v, cnt, sc)
    lims = sorted({m.group(1) for c, _ in found for a in c.atoms() for m in [re.match(r"^\(%s < (.*)\)$" % re.escape(el), a)] if m})
    what = "%s: numbers of cells of processes add up to those of the grid" % name
    txt = "; ".join("%s when %s" % (N.show(f), c) for c, f in found)
    odd = [a for c, _ in found for a in c.atoms() if el in a and not a.startswith("(%s < " % el)]
    if odd or len(lims) > 1:
        rep.bad(rule, what, n.where(), txt)
        return
    if not lims:
        for c, f in found:
            rep.check(name == "divisible" and f in K, rule, what, n.where(), txt)
        return
    first = F("atom", "(%s < %s)" % (el, lims[0]))
    ex = [g.cond for m in v.nodes for g in m.guards] + [y for m in v.nodes if m.kind in ("eff", "bind") for y in N.walk(m.eff)]
    lim = [y[3] if tsub(ir.pr(y[2])) == el else y[2] for x in ex for y in N.walk(x) if y[0] == "bin" and y[1] in ("<", "<=") and lims[0] in (tsub(ir.pr(y[3])), tsub(ir.pr(y[2])))]
    if not lim:
        raise Unknown("limit " + lims[0])
    for c, f in leaves(v, lim[0], sc):
        for d, val in found:
            if implies(AND(c, d), ~TRUE) is None:
                continue
            isf = implies(d, first) is None
            if not isf and implies(d, ~first) is not None:
                rep.bad(rule, what, n.where(), txt)
                continue
            ok = False
            for k in K:
                # either the first k * P - T get one fewer or the first T - (k - 1) * P get one more
                if f == add(mul(k, P), T, -1) and val == (add(k, const(1), -1) if isf else k):
                    ok = True
                if f == add(T, mul(add(k, const(1), -1), P), -1) and val == (k if isf else add(k, const(1), -1)):
                    ok = True
            rep.check(ok, rule, what + (", first processes" if isf else ", other processes"), n.where(), "%s for first %s processes: %s" % (N.show(val), N.show(f), isf))


FACES = {tuple(s if i == d else 0 for i in range(3)) for d in range(3) for s in (-1, 1)}


def offsets(rep, prog):
    v = view(prog, "Dccrg", "initialize_neighborhoods")
    rep.saw(v)
    rule = "default neighborhood"
    where = "%s:%d" % (v.func.file, v.func.line)
    zero = eqf("0", "neighborhood_length")
    push = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "mut" and n.eff[1] in ("push_back", "emplace_back", "insert") and ir.pr(n.eff[2]) == "neighborhood_of"]
    consts, other = [], []
    for n in push:
        t = v.txt[n.id]
        m = re.match(r"^neighborhood_of\.\w+\(\{(-?\d+), (-?\d+), (-?\d+)\}\)$", t)
        k = re.match(r"^neighborhood_of\.\w+\(each\((?:const )?(?:std::)?\w*(\{[-\d, {}]+\})\)\)$", t)
        if k and len(n.loops) == 1 and not v.loop_exits(n.loops[0]):
            consts += [(n, tuple(int(y) for y in x)) for x in re.findall(r"\{(-?\d+), (-?\d+), (-?\d+)\}", k.group(1))]
            continue
        (consts if m else other).append((n, tuple(int(x) for x in m.groups()) if m else None))
    for n in v.nodes:
        m = re.match(r"^neighborhood_of = (?:(?:const )?(?:std::)?\w*)(\{[-\d, {}]+\})$", v.txt.get(n.id, "")) if n.kind == "eff" else None
        if m:
            consts += [(n, tuple(int(y) for y in x)) for x in re.findall(r"\{(-?\d+), (-?\d+), (-?\d+)\}", m.group(1))]
    if consts:
        rep.check(sorted(o for _, o in consts) == sorted(FACES), rule, "the six face neighbors if length is 0", consts[0][0].where(), str(sorted(o for _, o in consts)))
        for n, o in consts:
            c = v.cond(n)
            rep.check(implies(zero, c) is None and implies(c, zero) is None and (not n.loops or "each(" in v.txt[n.id]), rule, "face neighbors exactly if length is 0: %s" % (o,), n.where(), "when %s" % c)
    for n, _ in other:
        t = v.txt[n.id]
        m = re.match(r"^neighborhood_of\.\w+\(\{(.*), (.*), (.*)\}\)$", t)
        if not m:
            rep.bad(rule, "offsets have three components", n.where(), t)
            continue
        xs = m.groups()
        rep.check(len(set(xs)) == 3, rule, "offsets of all combinations of dimensions", n.where(), t)
        # the cell itself is left out, nothing else is
        allz = AND(*[eqf("0", x) for x in xs])
        inr = TRUE
        for x in set(xs):
            inr = AND(inr, bounds(rep, v, n, x, rule))
        c = v.cond(n)
        hyp = AND(~zero, inr)
        ce = implies(AND(hyp, ~allz), c)
        rep.check(ce is None, rule, "every offset but that of the cell itself", n.where(), "not when %s" % (show(ce) if ce else ""))
        ce = implies(AND(hyp, c), ~allz)
        rep.check(ce is None, rule, "the cell itself isn't its neighbor", n.where(), "when %s" % (show(ce) if ce else ""))
        ce = implies(c, ~zero)
        rep.check(ce is None, rule, "only if length isn't 0", n.where(), "when %s" % (show(ce) if ce else ""))
        for l in n.loops:
            rep.check(not v.loop_exits(l), rule, "all offsets are visited", n.where(), "the loop over %s is left early" % ir.pr(l.dom))
    rep.check(bool(other) and bool(consts), rule, "both kinds of neighborhoods are set up", where)
    to = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "mut" and n.eff[1] in ("push_back", "emplace_back") and ir.pr(n.eff[2]) == "neighborhood_to"]
    for n in to:
        t = v.txt[n.id]
        if n.loops and v.loops(n)[-1] == "neighborhood_of":
            e = "each(neighborhood_of)"
            rep.check(t.split("(", 1)[1] == "{-%s[0], -%s[1], -%s[2]})" % (e, e, e), rule, "neighborhood_to has the opposite offsets", n.where(), t)
            rep.check(implies(TRUE, v.cond(n)) is None and not v.loop_exits(n.loops[-1]), rule, "neighborhood_to has all opposite offsets", n.where(), str(v.cond(n)))
            rep.not_after(v, rule, push, [n], "neighborhood_of is complete when neighborhood_to is made")
    rep.check(bool(to), rule, "neighborhood_to is set up", where)


def bounds(rep, v, n, x, rule):
    """x runs from -length to length; gives what is known of x inside of its loop"""
    l = "neighborhood_length"
    if re.match(r"^each\(.*\)$", x):
        m = re.match(r"^each\(-%s\.\.\((%s \+ 1|1 \+ %s)\)\)$" % (l, l, l), x)
        rep.check(m is not None, rule, "offsets from -length to length", n.where(), x)
        return TRUE
    ch = [m for m in v.nodes if m.kind == "eff" and m.eff[0] in ("init", "asg") and ir.pr(m.eff[2 if m.eff[0] == "asg" else 1]) == x]
    ini = [v.txt[m.id] for m in ch if m.eff[0] == "init"]
    inc = [m for m in ch if m.eff[0] == "asg"]
    rep.check(ini in (["let %s = -%s" % (x, l)], ["let %s = -(%s)" % (x, l)], ["let %s = (0 - %s)" % (x, l)]), rule, "offsets start from -length", n.where(), str(ini))
    lp = [q for q in n.loops if x in ir.pr(q.dom)]
    rep.check(len(inc) == 1 and v.txt[inc[0].id] == "%s += 1" % x and len(lp) == 1 and inc[0].loops and inc[0].loops[-1].loop is lp[0].loop and not [g for g in inc[0].guards if g.kind == "if" and x in ir.pr(g.cond)],
              rule, "offsets grow by one", inc[0].where() if inc else n.where(), v.txt[inc[0].id] if inc else "")
    if len(lp) != 1:
        return TRUE
    t = ir.pr(lp[0].dom)
    good = ["(abs(%s) < (%s + 1))" % (x, l), "(abs(%s) <= %s)" % (x, l), "(%s < (%s + 1))" % (x, l), "(%s <= %s)" % (x, l), "(%s != (%s + 1))" % (x, l)]
    rep.check(t in ["while(%s)" % g for g in good], rule, "offsets end at length", n.where(), t)
    return fml(lp[0].dom[1])


def loading(rep, prog):
    rule = "loading"
    v = view(prog, "Dccrg", "cell_overlaps_local")
    rep.saw(v)
    par = "mapping_rw.get_level_0_parent(arg0)"
    known = F("atom", "has(cell_process, %s)" % par)
    mine = eqf("cell_process[%s]" % par, "rank")
    data = F("atom", "has(cell_data, %s)" % par)
    for n in v.nodes:
        if n.kind != "ret" or n.frame is not v.L.frame:
            continue
        t = v.txt[n.id]
        if t not in ("return true", "return false"):
            f = fml(n.eff[1])
            ok = any(implies(AND(h, f), w) is None and implies(AND(h, w), f) is None for h, w in ((TRUE, AND(known, mine)), (known, mine), (TRUE, data)))
            rep.check(ok, rule, "cells belong to the process of their level 0 parent", n.where(), t)
            continue
        c = v.cond(n)
        want = AND(known, mine) if t == "return true" else ~AND(known, mine)
        wd = data if t == "return true" else ~data
        ok = (implies(want, c) is None and implies(c, want) is None) or (implies(wd, c) is None and implies(c, wd) is None)
        rep.check(ok, rule, "cells belong to the process of their level 0 parent (%s)" % t, n.where(), "when %s" % c)
    v = view(prog, "Dccrg", "get_cells_overlapping_local", 1)
    rep.saw(v)
    ins = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "mut" and n.eff[1] in ("insert", "emplace")]
    rep.check(len(ins) >= 1, rule, "cells of this process are selected", "%s:%d" % (v.func.file, v.func.line))
    for n in ins:
        t = v.txt[n.id]
        if not n.loops:
            continue
        e = "each(arg0)"
        want = A("cell_overlaps_local(%s)" % e)
        c = v.cond(n)
        rep.check(t.endswith("(%s)" % e) and v.loops(n) == ["arg0"] and not v.loop_exits(n.loops[0]), rule, "every given cell is looked at", n.where(), t)
        rep.check(implies(want, c) is None and implies(c, want) is None, rule, "exactly cells of this process are selected", n.where(), "when %s" % c)
    v = view(prog, "Dccrg", "load_cells", 1)
    rep.saw(v)
    parents(rep, v, rule)


def parents(rep, v, rule):
    sel = r"(get_cells_overlapping_local\(arg0\)|arg0|%[\w.#]+)"
    ins = v.find(["$s[$i].insert($x)", "$s[$i].push_back($x)", "$s[$i].emplace($x)"])
    ref = v.find(["refine_completely($x)", "refines_rw.insert($x)"])
    stop = [n for n, _ in v.find(["stop_refining($x)", "stop_refining()"])]
    rep.check(bool(ref) and bool(stop), rule, "parents are refined", "%s:%d" % (v.func.file, v.func.line))
    rep.check(bool(ins), rule, "parents are collected", "%s:%d" % (v.func.file, v.func.line))
    for n, env in ins:
        s, i, x = env["s"], env["i"], env["x"]
        if not n.loops or not re.match("^%s$" % sel, v.loops(n)[0]):
            rep.bad(rule, "parents of all cells are collected", n.where(), "loop over %s" % (v.loops(n)[:1]))
            continue
        rep.check(not v.loop_exits(n.loops[0]), rule, "parents of all cells are collected", n.where(), "loop is left early")
        e = "each(%s)" % v.loops(n)[0]
        cur = re.match(r"^mapping_rw\.get_parent\((%[\w.#]+)\)$", x)
        if cur:
            cur, before = cur.group(1), True
        elif re.match(r"^%[\w.#]+$", x):
            cur, before = x, False
        else:
            rep.bad(rule, "parents are collected", n.where(), x)
            continue
        ch = [m for m in v.nodes if m.kind == "eff" and m.eff[0] in ("init", "asg") and ir.pr(m.eff[2 if m.eff[0] == "asg" else 1]) == cur]
        ini = [m for m in ch if m.eff[0] == "init"]
        up = [m for m in ch if m.eff[0] == "asg"]
        rep.check(len(ini) == 1 and v.txt[ini[0].id] == "let %s = %s" % (cur, e), rule, "the chain of parents starts from the cell", n.where(), v.txt[ini[0].id] if ini else "")
        same = lambda m: [l.loop for l in m.loops] == [l.loop for l in n.loops]
        rep.check(len(up) == 1 and v.txt[up[0].id] == "%s = mapping_rw.get_parent(%s)" % (cur, cur) and same(up[0]) and len(n.loops) == 2, rule, "every parent up to level 0 is refined", n.where(), v.txt[up[0].id] if up else "")
        if len(n.loops) != 2 or not up:
            continue
        if before:
            rep.not_after(v, rule, [n], up, "the parent of the current cell is collected")
        # the level it is collected for
        lv = re.match(r"^%[\w.#]+$", i)
        dom = ir.pr(n.loops[1].dom)
        if not lv:
            rep.check(i in ("mapping_rw.get_refinement_level(%s)" % x, "(mapping_rw.get_refinement_level(%s) - 1)" % cur) , rule, "parents are collected for their level", n.where(), i)
            continue
        ich = [m for m in v.nodes if m.kind == "eff" and m.eff[0] in ("init", "asg") and ir.pr(m.eff[2 if m.eff[0] == "asg" else 1]) == i]
        ii = [m for m in ich if m.eff[0] == "init"]
        dn = [m for m in ich if m.eff[0] == "asg"]
        lev = ["mapping_rw.get_refinement_level(%s)" % y for y in (cur, e)]
        okd = len(dn) == 1 and v.txt[dn[0].id] == "%s -= 1" % i and same(dn[0])
        rep.check(len(ii) == 1 and okd, rule, "parents are one level up", n.where(), v.txt[dn[0].id] if dn else "")
        if len(ii) != 1 or not okd:
            continue
        hd = n.loops[1].loop.node
        after = ir.path_avoiding([dn[0]], lambda q: q is n, lambda q: q is hd) is not None
        t = v.txt[ii[0].id]
        first = ["let %s = %s" % (i, y) for y in lev] if after else ["let %s = (%s - 1)" % (i, y) for y in lev]
        rep.check(t in first, rule, "parents are collected for their level", n.where(), t)
        good = ["(0 < %s)" % i, "(1 <= %s)" % i, "(0 != %s)" % i, "(%s != 0)" % i] if after else ["(0 <= %s)" % i, "(-1 < %s)" % i]
        rep.check(dom in ["while(%s)" % g for g in good], rule, "parents of all levels down to 0 are collected", n.where(), dom)
    mx = v.find(["MPI_Allreduce(&$a, &$b, 1, $t, $o, $c)"])
    lim = None
    for n, env in mx:
        if "max" in env["o"]:
            lim = env["b"]
            put = [m for m in v.nodes if m.kind == "eff" and m.eff[0] == "asg" and ir.pr(m.eff[2]) == env["a"]]
            rep.check(bool(put), rule, "the largest level of cells is used", n.where(), "%s doesn't change" % env["a"])
            for m in put:
                rep.check(bool(m.loops) and not v.loop_exits(m.loops[0]) and re.match("^%s$" % sel, v.loops(m)[0]) is not None, rule, "the level of all cells counts", m.where(), v.txt[m.id])
                t = v.txt[m.id]
                e = "mapping_rw.get_refinement_level(each(%s))" % v.loops(m)[0] if m.loops else ""
                a = env["a"]
                mxs = ["%s = std::max(%s, %s)" % (a, e, a), "%s = std::max(%s, %s)" % (a, a, e)]
                less = F("atom", cmp_key("<", a, e))
                rep.check((t in mxs and implies(TRUE, v.cond(m)) is None) or (t == "%s = %s" % (a, e) and implies(less, v.cond(m)) is None and (implies(v.cond(m), less) is None or implies(v.cond(m), ~F("atom", cmp_key("<", e, a))) is None)), rule, "the largest level of cells is used", m.where(), "%s when %s" % (t, v.cond(m)))
        else:
            rep.bad(rule, "the largest level of all processes is used", n.where(), v.txt[n.id])
    for n, env in ref:
        ls = v.loops(n)
        okl = len(ls) == 2 and lim is not None and ls[0] == "0..%s" % lim and ls[1].endswith("[each(0..%s)]" % lim) and env["x"] == "each(%s)" % ls[1]
        rep.check(okl, rule, "parents are refined starting from level 0", n.where(), "%s in %s" % (env["x"], ls))
        rep.check(implies(TRUE, v.cond(n)) is None and not [l for l in n.loops if v.loop_exits(l)], rule, "all parents of all levels are refined", n.where(), str(v.cond(n)))
        if okl:
            st = [m for m in stop if [l.loop for l in m.loops] == [n.loops[0].loop] and implies(TRUE, v.cond(m)) is None]
            rep.check(len(st) == 1, rule, "refinement is committed after every level", n.where(), "%d sites" % len(st))
            if st:
                rep.not_after(v, rule, [n], st, "refinement is committed after requests of a level")


def run(rep, prog, tier):
    ir.TYPED = True
    creation(rep, prog)
    offsets(rep, prog)
    loading(rep, prog)
