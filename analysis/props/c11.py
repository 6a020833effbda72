"""What the partitioner is told.  Decided on the control-flow graphs of the
functions given to Zoltan: counts and lists must be produced under equivalent
conditions over the same cells and neighbors, each value must be that of the
cell it is given for, and every query function must be registered with its grid."""
from .common import *
from .c10 import split_args

MIN_OBLIGATIONS = 40
THOROUGH_CONFIGS = [("DEBUG",)]
ASSUMPTIONS = ["what Zoltan does with the answers is not decided"]

G = "arg0."


def asm(t):
    return True if t == "has(arg0.neighbors_of, each(arg0.cell_data).first)" else False if t == cmp_key("==", "0", "each(arg0.cell_data).first") else None


def real_neighbor(n, cell):
    return ~eqf(n, cell) & ~eqf("0", n)


def cursor(v, text, loops, want, hyp=TRUE):
    """is `text` a position that starts from 0 and advances by one for every
    element of the loops for which `want` holds?"""
    if len(loops) == 1 and text == "each(0..%s.size())" % loops[0] or text == "each(%s)" % loops[0] and loops[0].startswith("0.."):
        return None if implies(hyp, want) is None else "not every element has a position"
    if not re.match(r"^%[\w.#]+$", text):
        return "position is %s" % text
    init = [b["x"] for n, b in v.find("let %s = $x" % text)]
    if init != ["0"]:
        return "position starts from %s" % init
    incs = [n for n in v.nodes if n.kind == "eff" and re.match(r"^%s (\+=|-=|\*=|/=|=) " % re.escape(text), v.txt[n.id])]
    if any(v.txt[n.id] != text + " += 1" for n in incs):
        return "position is also changed by %s" % [v.txt[n.id] for n in incs]
    return incs


def advances(v, incs, specs, fix, hyp):
    """increments happen exactly per the (loops, condition) in specs"""
    left = list(incs)
    for loops, want in specs:
        mine = [n for n in left if sorted(v.loops(n)) == sorted(loops)]
        left = [n for n in left if n not in mine]
        if len(mine) != 1:
            return "advanced %d times for each element of %s" % (len(mine), loops)
        c = fix(v.cond(mine[0]))
        if implies(AND(hyp, want), c) is not None or implies(AND(hyp, c), want) is not None:
            return "advanced when %s" % c
    return "also advanced at %s" % left[0].where() if left else None


def pos_ok(rep, v, what, text, write, specs, hyp=TRUE):
    """the position a list element is written to"""
    fix = lambda f: simplify(f, asm)
    r = cursor(v, text, list(specs[0][0]), TRUE, hyp)
    if isinstance(r, list):
        r = advances(v, r, specs, fix, hyp)
    rep.check(r is None, "position", "%s: %s" % (v.func.name, what), write.where(), str(r))


def value(rep, v, rule, pats, want, what, loops, hyp=TRUE):
    return spec(rep, v, rule, pats, want, what, loops, assume=asm, hyp=hyp)


def counts(rep, v, target, specs, what, loops, hyp=TRUE):
    """target ends up as the number of (loops, condition) elements"""
    rep.saw(v)
    what = "%s: %s" % (v.func.name, what)
    fix = lambda f: simplify(f, asm)
    name = target
    sets = [(n, b["x"]) for n, b in v.find("%s = $x" % target)]
    direct = [n for n, _ in v.find("%s += 1" % target)]
    if not direct:
        # through a local count
        loc = [(n, x) for n, x in sets if re.match(r"^%[\w.#]+$", x)]
        if len(loc) == 1 and len(sets) == 1:
            name = loc[0][1]
            bad = [n for n, _ in v.find("%s += 1" % name)]
            c = fix(v.cond(loc[0][0]))
            if implies(hyp, c) is not None or sorted(v.loops(loc[0][0])) != sorted(loops):
                rep.bad("count", what, loc[0][0].where(), "not given when %s" % c)
                return
            init = [b["x"] for n, b in v.find("let %s = $x" % name)]
            if len(init) != 1 or init[0] not in ("0", "1"):
                rep.bad("count", what, loc[0][0].where(), "starts from %s" % init)
                return
            if init == ["1"]:
                specs = [s for s in specs if sorted(s[0]) != sorted(loops)]
        elif len(sets) == 1 and re.match(r"^each\(0\.\..*\)$", sets[0][1]):
            pass
    else:
        zero = [n for n, x in sets if x == "0"]
        if len(zero) != 1 or len(sets) != 1 or implies(hyp, fix(v.cond(zero[0]))) is not None:
            rep.bad("count", what, (sets[0][0] if sets else direct[0]).where(), "does not start from 0")
            return
        if not all(v.dominates(zero[0], d) for d in direct):
            rep.bad("count", what, zero[0].where(), "set to 0 after counting")
            return
    incs = [n for n in v.nodes if n.kind == "eff" and re.match(r"^%s (\+=|-=|\*=|/=) " % re.escape(name), v.txt[n.id])]
    if not incs or any(not v.txt[n.id].endswith(" += 1") for n in incs):
        rep.bad("count", what, (incs[0] if incs else v.nodes[0]).where(), "counted by %s" % [v.txt[n.id] for n in incs])
        return
    r = advances(v, incs, specs, fix, hyp)
    rep.check(r is None, "count", what, incs[0].where(), str(r))


def objects(rep, prog):
    v = view(prog, "Dccrg", "get_number_of_cells", 2)
    rep.saw(v)
    rs = [v.txt[n.id] for n in v.nodes if n.kind == "ret"]
    rep.check(rs == ["return arg0.cell_data.size()"], "objects", "get_number_of_cells: gives the number of local cells", v.nodes[0].where(), "returns %s" % rs)
    v = view(prog, "Dccrg", "fill_cell_list")
    L, c = ["arg0.cell_data"], "each(arg0.cell_data).first"
    for n, b in v.find("arg3[$i] = %s" % c)[:1]:
        pos_ok(rep, v, "cells are listed one after another", b["i"], n, [(L, TRUE)])
        i = b["i"]
        value(rep, v, "objects", "arg3[%s] = %s" % (i, c), TRUE, "every local cell is listed", L)
        w = F("atom", cmp_key("<", "0", "arg5"))
        has = A("has(arg0.cell_weights, %s)" % c)
        tern = v.find("arg6[%s] = (has(arg0.cell_weights, %s) ? arg0.cell_weights[%s] : 1)" % (i, c, c))
        if tern:
            value(rep, v, "objects", "arg6[%s] = (has(arg0.cell_weights, %s) ? arg0.cell_weights[%s] : 1)" % (i, c, c), w, "each cell has its weight", L)
        else:
            one = v.find("arg6[%s] = 1" % i)
            w1 = value(rep, v, "objects", "arg6[%s] = arg0.cell_weights[%s]" % (i, c), w & has, "the weight given to a cell is used", L)
            if one and w1 and implies(v.cond(one[0][0]), ~has) is not None:
                # default first, then overwritten
                value(rep, v, "objects", "arg6[%s] = 1" % i, w, "the weight of other cells is 1", L)
                rep.check(v.dominates(one[0][0], w1[0]), "objects", "fill_cell_list: the weight given is not replaced by the default", one[0][0].where(), "it is")
            else:
                value(rep, v, "objects", "arg6[%s] = 1" % i, w & ~has, "the weight of other cells is 1", L)
        return
    rep.bad("objects", "fill_cell_list: every local cell is listed", v.nodes[0].where(), "no such effect")


def graph(rep, prog):
    v1 = view(prog, "Dccrg", "fill_number_of_neighbors_for_cells")
    v2 = view(prog, "Dccrg", "fill_neighbor_lists")
    i, cell = "each(0..arg3)", "arg4[each(0..arg3)]"
    here = A("has(arg0.cell_data, %s)" % cell)
    nb = "each(arg0.neighbors_of[%s]).first" % cell
    L0, L = ["0..arg3"], ["0..arg3", "arg0.neighbors_of[%s]" % cell]
    want = real_neighbor(nb, cell)
    for v in (v1, v2):
        counts(rep, v, "arg6[%s]" % i, [(L, want)], "the number of neighbors given for a cell is that of its neighbors other than itself", L0, hyp=here)
        err = "*arg7" if v is v1 else "*arg11"
        unknown(rep, v, err, ~here, L0, "cells without data here are refused")
    for a, val, cond, w in (("arg7", nb, TRUE, "each neighbor counted is listed"), ("arg8", "arg0.cell_process[%s]" % nb, TRUE, "the owner of each neighbor is given"),
                            ("arg10", "1", F("atom", cmp_key("<", "0", "arg9")), "all neighbors weigh the same")):
        ms = v2.find("%s[$i] = %s" % (a, val))
        if not ms:
            rep.bad("graph", "fill_neighbor_lists: %s" % w, v2.nodes[0].where(), "required effect missing")
            continue
        n, b = ms[0]
        value(rep, v2, "graph", "%s[%s] = %s" % (a, b["i"], val), want & cond, w, L, hyp=here)
        pos_ok(rep, v2, "%s: one after another" % w, b["i"], n, [(L, want)], hyp=here)
    v = view(prog, "Dccrg", "fill_with_cell_coordinates")
    rep.saw(v)
    unknown(rep, v, "*arg8", ~here, L0, "cells without data here are refused")
    ctr = "arg0.geometry_rw.get_center(%s)" % cell
    if v.find("arg7[((%s * 3) + each(0..3))] = %s[each(0..3)]" % (i, ctr)):
        value(rep, v, "graph", "arg7[((%s * 3) + each(0..3))] = %s[each(0..3)]" % (i, ctr), TRUE, "the center of each cell is given", L0 + ["0..3"], hyp=here)
    else:
        for d in range(3):
            idx = "(%s * 3)" % i if d == 0 else "((%s * 3) + %d)" % (i, d)
            value(rep, v, "graph", "arg7[%s] = %s[%d]" % (idx, ctr, d), TRUE, "coordinate %d of the center of each cell is given" % d, L0, hyp=here)
    for f in prog.find("Dccrg", "get_grid_dimensionality"):
        w = View(prog, f)
        rep.saw(w)
        rs = [w.txt[n.id] for n in w.nodes if n.kind == "ret"]
        rep.check(rs == ["return 3"], "graph", "get_grid_dimensionality: coordinates have 3 components", "%s:%d" % (f.file, f.line), "returns %s" % rs)


def unknown(rep, v, err, want, loops, what):
    rep.saw(v)
    ns = [n for n in v.nodes if n.kind == "eff" and re.match(r"^%s = (?!0$)" % re.escape(err), v.txt[n.id])]
    c = OR(*[v.cond(n) for n in ns]) if ns else FALSE
    ok = implies(want, c) is None and implies(c, want) is None
    rep.check(ok, "refuse", "%s: %s" % (v.func.name, what), ns[0].where() if ns else v.nodes[0].where(), "an error is given when %s" % c)
    zero = [n for n, _ in v.find("%s = 0" % err)]
    if zero and ns:
        rep.not_after(v, "refuse", zero, ns, "%s: the error is not taken back" % v.func.name)


def hypergraph(rep, prog):
    c = "each(arg0.cell_data).first"
    nb = "each(arg0.neighbors_of[%s]).first" % c
    L0, L = ["arg0.cell_data"], ["arg0.cell_data", "arg0.neighbors_of[%s]" % c]
    want = real_neighbor(nb, c)
    v = view(prog, "Dccrg", "fill_number_of_hyperedges")
    value(rep, v, "hypergraph", "*arg1 = arg0.cell_data.size()", TRUE, "there is one hyperedge per local cell", [])
    value(rep, v, "hypergraph", "*arg3 = 1", TRUE, "the format is that of the lists", [])
    conn = [(L0, TRUE), (L, want)]
    counts(rep, v, "*arg2", conn, "connections are those of each cell to itself and to its neighbors", [])
    v = view(prog, "Dccrg", "fill_hyperedge_lists")
    ok = eqf("1", "arg4") & eqf("arg0.cell_data.size()", "arg2")
    rep.saw(v)
    cells = v.find("arg5[$i] = %s" % c)
    offs = [(n, b) for n, b in v.find("arg6[$i] = $x")]
    selfs = v.find("arg7[$i] = %s" % c)
    nbs = v.find("arg7[$i] = %s" % nb)
    if not (cells and offs and selfs and nbs):
        rep.bad("hypergraph", "fill_hyperedge_lists: cells, positions and connections are listed", v.nodes[0].where(), "required effect missing")
    else:
        i = cells[0][1]["i"]
        value(rep, v, "hypergraph", "arg5[%s] = %s" % (i, c), ok, "each cell is listed", L0)
        pos_ok(rep, v, "cells are listed one after another", i, cells[0][0], [(L0, TRUE)], hyp=ok)
        k = offs[0][1]["x"]
        rep.check(offs[0][1]["i"] == i and len(offs) == 1, "hypergraph", "fill_hyperedge_lists: the start of connections is given at the position of their cell", offs[0][0].where(), "given at %s" % offs[0][1]["i"])
        value(rep, v, "hypergraph", "arg6[%s] = %s" % (offs[0][1]["i"], k), ok, "the start of connections is given for each cell", L0)
        value(rep, v, "hypergraph", "arg7[%s] = %s" % (k, c), ok, "each cell is connected to itself", L0)
        value(rep, v, "hypergraph", "arg7[%s] = %s" % (k, nb), ok & want, "each cell is connected to its neighbors other than itself", L)
        pos_ok(rep, v, "connections are listed one after another", k, nbs[0][0], conn, hyp=ok)
        incs = [n for n, _ in v.find("%s += 1" % k)]
        late = [n for n in incs if not v.dominates(offs[0][0], n)]
        rep.check(not late, "hypergraph", "fill_hyperedge_lists: the start of connections is that before any connection of the cell", late[0].where() if late else offs[0][0].where(), "connections may be counted before")
    v = view(prog, "Dccrg", "fill_number_of_edge_weights")
    value(rep, v, "hypergraph", "*arg1 = arg0.cell_data.size()", TRUE, "there is one weight per hyperedge", [])
    v = view(prog, "Dccrg", "fill_edge_weights")
    ok = eqf("arg0.cell_data.size()", "arg3")
    ms = v.find("arg5[$i] = %s" % c)
    if not ms:
        rep.bad("hypergraph", "fill_edge_weights: each hyperedge is listed", v.nodes[0].where(), "required effect missing")
    else:
        i = ms[0][1]["i"]
        value(rep, v, "hypergraph", "arg5[%s] = %s" % (i, c), ok, "each hyperedge is listed", L0)
        pos_ok(rep, v, "hyperedges are listed one after another", i, ms[0][0], [(L0, TRUE)], hyp=ok)
        w = F("atom", cmp_key("<", "0", "arg4"))
        counts(rep, v, "arg7[%s]" % i, [(L, want)], "the weight of a hyperedge is its number of neighbors", L0, hyp=ok & w)


def hierarchy(rep, prog):
    v = view(prog, "Dccrg", "get_number_of_load_balancing_hierarchies", 2)
    rep.saw(v)
    rs = [v.txt[n.id] for n in v.nodes if n.kind == "ret"]
    rep.check(rs == ["return arg0.processes_per_part.size()"], "hierarchy", "get_number_of_load_balancing_hierarchies: all levels are given", v.nodes[0].where(), "returns %s" % rs)
    out = F("atom", cmp_key("<", "arg1", "0")) | ~F("atom", cmp_key("<", "arg1", "arg0.processes_per_part.size()"))
    v = view(prog, "Dccrg", "get_part_number", 3)
    unknown(rep, v, "*arg2", out, [], "levels that do not exist are refused")
    v = view(prog, "Dccrg", "set_partitioning_options")
    nil = [t for t in ("(arg2 == nil())", cmp_key("==", "arg2", "nil()")) if any(t in str(v.cond(n)) for n in v.nodes if n.kind in ("eff", "ret"))]
    bad = out | F("atom", nil[0]) if nil else out
    unknown(rep, v, "*arg3", bad, [], "levels that do not exist are refused")
    o = "each(arg0.partitioning_options[arg1])"
    value(rep, v, "hierarchy", "Zoltan_Set_Param(arg2, %s.first.c_str(), %s.second.c_str())" % (o, o), ~bad, "every option of the level is given to the partitioner of that level", ["arg0.partitioning_options[arg1]"])


REG = [("Num_Obj_Fn", "get_number_of_cells"), ("Obj_List_Fn", "fill_cell_list"), ("Num_Geom_Fn", "get_grid_dimensionality"), ("Geom_Multi_Fn", "fill_with_cell_coordinates"),
       ("Num_Edges_Multi_Fn", "fill_number_of_neighbors_for_cells"), ("Edge_List_Multi_Fn", "fill_neighbor_lists"), ("HG_Size_CS_Fn", "fill_number_of_hyperedges"),
       ("HG_CS_Fn", "fill_hyperedge_lists"), ("HG_Size_Edge_Wts_Fn", "fill_number_of_edge_weights"), ("HG_Edge_Wts_Fn", "fill_edge_weights"),
       ("Hier_Num_Levels_Fn", "get_number_of_load_balancing_hierarchies"), ("Hier_Part_Fn", "get_part_number"), ("Hier_Method_Fn", "set_partitioning_options")]


def registration(rep, prog):
    v = view(prog, "Dccrg", "initialize_zoltan")
    rep.saw(v)
    for z, f in REG:
        ns = [n for n in v.nodes if n.kind == "eff" and re.match(r"^Zoltan_Set_%s\(" % z, v.txt[n.id])]
        ok = False
        got = "not registered"
        for n in ns:
            args = split_args(v.txt[n.id][v.txt[n.id].index("(") + 1:-1])
            got = v.txt[n.id]
            ok = re.search(r"\b%s\b" % f, args[1]) and (z == "Num_Geom_Fn" or args[2] == "this") and implies(TRUE, simplify(v.cond(n), okz)) is None
        rep.check(bool(ok) and len(ns) == 1, "register", "initialize_zoltan: %s answers for this grid" % f, ns[0].where() if ns else v.nodes[0].where(), got)
    for p, val in (("NUM_GID_ENTRIES", "1"), ("NUM_LID_ENTRIES", "0"), ("OBJ_WEIGHT_DIM", "1"), ("RETURN_LISTS", "ALL")):
        ns = [n for n in v.nodes if n.kind == "eff" and v.txt[n.id].startswith("Zoltan_Set_Param(") and "'%s'" % p in v.txt[n.id]]
        ok = len(ns) == 1 and "'%s'" % val in v.txt[ns[0].id] and implies(TRUE, simplify(v.cond(ns[0]), okz)) is None
        rep.check(ok, "register", "initialize_zoltan: %s is %s" % (p, val), ns[0].where() if ns else v.nodes[0].where(), "is not")


def okz(t):
    """Zoltan could be created"""
    if "nil()" in t:
        return False
    if t.startswith("Zoltan_") or "Zoltan_Init" in t:
        return "==" in t
    return None


def run(rep, prog, tier):
    objects(rep, prog)
    graph(rep, prog)
    hypergraph(rep, prog)
    hierarchy(rep, prog)
    registration(rep, prog)
