"""Which requests to refine, unrefine, not refine and not unrefine are recorded,
rejected and cancelled, and how stop_refining resolves them: requests not to
refine win over refining and spread to smaller neighbors, refining spreads to
larger neighbors in both directions and on all processes until nothing changes,
unrefining gives way to refining, to requests not to unrefine and to smaller
neighbors.  Decided on the control-flow graph: conditions under which each
record changes must be equivalent to the rules below."""
from .common import *

MIN_OBLIGATIONS = 45
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["what neighbor searches and the cell numbering return is not decided here",
               "library calls (MPI) succeed"]

LV = "mapping_rw.get_refinement_level(%s)"
ALIAS = [(re.compile(r"mapping_rw\.get_all_children\((?:mapping_rw\.)?get_parent\(((?:[^()]|\([^()]*\))*)\)\)"), r"mapping_rw.get_siblings(\1)")]


def canon(t):
    for a, b in ALIAS:
        t = a.sub(b, t)
    return t


def lt(a, b):
    return F("atom", cmp_key("<", a, b))


def asm_for(cell):
    """a cell with data here is known and owned by this process, and its
    neighbor lists exist"""
    def f(t):
        if re.match(r"^\(get_neighbors_(of|to)\(%s, \S+\) == nil\(\)\)$" % re.escape(cell), t):
            return False
        if t == cmp_key("==", "0", "each(mapping_rw.get_siblings(%s))" % cell):
            return False
        if re.match(r"^has\(neighbors_(of|to)?, %s\)$" % re.escape(cell), t):
            return True
        # the error cell is never recorded
        m = re.match(r"^has\(cells_(?:not_)?to_(?:un)?refine, 0\)$", t)
        if m:
            return False
        return None
    return f


def local(f, cell):
    """owned here <=> data stored here"""
    a, b = cmp_key("==", "cell_process[%s]" % cell, "rank"), "has(cell_data, %s)" % cell
    return rename(f, lambda t: canon(b if t == a else t))


def same(rep, v, rule, got, want, what, where, cell, hyp=TRUE):
    asm = asm_for(cell)
    got, want = simplify(local(got, cell), asm), simplify(local(want, cell), asm)
    # here means known
    hyp = hyp & (~A("has(cell_data, %s)" % cell) | A("has(cell_process, %s)" % cell)) & (~A("has(cell_process, %s)" % cell) | ~eqf("0", cell))
    hyp = simplify(hyp, asm)
    ce = implies(AND(hyp, want), got)
    if ce is not None:
        rep.bad(rule, what, where, "does not happen when %s" % show(ce))
        return False
    ce = implies(AND(hyp, got), want)
    if ce is not None:
        rep.bad(rule, what, where, "happens also when %s" % show(ce))
        return False
    rep.ok(rule, what, where)
    return True


def when(rep, v, rule, pats, want, what, cell, loops=(), hyp=TRUE):
    """the effect happens, for every element of the loops, iff want"""
    rep.saw(v)
    what = "%s: %s" % (v.func.name, what)
    ms = v.find([pats] if isinstance(pats, str) else pats)
    good = [n for n, _ in ms if sorted(canon(l) for l in v.loops(n)) == sorted(loops)]
    if not good:
        rep.bad(rule, what, (ms[0][0] if ms else v.nodes[0]).where(), "required effect missing" + (": found only in loops %s" % v.loops(ms[0][0]) if ms else ""))
        return []
    c = OR(*[v.cond(n) for n in good])
    if same(rep, v, rule, c, want, what, good[0].where(), cell, hyp):
        for n in good:
            for l in n.loops:
                ex = [x for x in v.loop_exits(l) if satisfiable(v.exit_cond(x)) is not None]
                if ex:
                    rep.bad(rule, what, ex[0][0].where(), "the loop over %s may end early when %s" % (pr(l.dom), v.exit_cond(ex[0])))
    return good


def returns(rep, v, rule, want, what, cell, hyp=TRUE, drop=None):
    rep.saw(v)
    got = []
    for n in v.nodes:
        if n.kind == "ret" and n.frame is v.L.frame and n.eff[1] is not None:
            f = AND(v.cond(n), fml(truth(n.eff[1])))
            doms = v.loops(n)
            # returning from inside a loop: some element made it so
            f = EX(doms, f) if doms else f
            got.append(f)
    same(rep, v, rule, OR(*got), want, "%s: %s" % (v.func.name, what), "%s:%d" % (v.func.file, v.func.line), cell, hyp)


def only_writes(rep, v, rule, field, pats, what):
    """no other change of a record"""
    bad = []
    for n in v.writes(field):
        t = v.txt[n.id]
        if not any(match(p, canon(t)) is not None for p in pats):
            bad.append(n)
    rep.check(not bad, rule, "%s: %s" % (v.func.name, what), bad[0].where() if bad else "%s:%d" % (v.func.file, v.func.line),
              "other change: " + (v.txt[bad[0].id] if bad else ""))


def requests(rep, prog):
    a = "arg0"
    sib = "mapping_rw.get_siblings(arg0)"
    S = "each(%s)" % sib
    known = ~eqf("0", a) & A("has(cell_process, arg0)")
    here = known & A("has(cell_data, arg0)")
    maxl = eqf("mapping_rw.get_maximum_refinement_level()", LV % a)
    top = eqf("0", LV % a)

    # ---- refine
    v = view(prog, "Dccrg", "refine_completely")
    nb = "each(neighbors_of[arg0]).first"
    veto = A("has(cells_not_to_refine, arg0)") | EX("neighbors_of[arg0]", lt(LV % nb, LV % a) & A("has(cells_not_to_refine, %s)" % nb))
    ok = here & ~maxl & ~veto
    when(rep, v, "refine", "cells_to_refine.insert(arg0)", ok, "request recorded exactly for local cells that may be refined", a)
    when(rep, v, "refine", "cells_to_unrefine.erase(%s)" % S, ok, "cancels unrefining of its siblings", a, [sib])
    for d in ("of", "to"):
        n = "each(neighbors_%s[arg0]).first" % d
        s2 = "mapping_rw.get_siblings(%s)" % n
        hyp = ~eqf("0", "each(%s)" % s2)
        when(rep, v, "refine", "cells_to_unrefine.erase(each(%s))" % s2, ok & ~lt(LV % a, LV % n),
             "cancels unrefining of neighbors_%s that are not smaller" % d, a, ["neighbors_%s[arg0]" % d, s2], hyp)
    when(rep, v, "refine", ["dont_unrefine(arg0)", "cells_not_to_unrefine.insert(arg0)"], here & maxl,
         "a cell of maximum level is at least not unrefined", a) if v.find("dont_unrefine(arg0)") else None
    if not v.find("dont_unrefine(arg0)"):
        rep.check(bool(v.find("cells_not_to_unrefine.insert(arg0)")), "refine", "refine_completely: a cell of maximum level is at least not unrefined", v.nodes[0].where(), "no such effect")
    returns(rep, v, "refine", here & (maxl | ~veto), "reports success exactly if accepted", a)
    only_writes(rep, v, "refine", "cells_to_refine", ["cells_to_refine.insert(arg0)"], "changes no other refine requests")
    only_writes(rep, v, "refine", "cells_not_to_refine", [], "keeps requests not to refine")

    # ---- unrefine
    v = view(prog, "Dccrg", "unrefine_completely")
    kids = ~eqf(S, "get_child(%s)" % S)
    sveto = A("has(cells_to_refine, %s)" % S) | A("has(cells_not_to_unrefine, %s)" % S)
    pre = set()
    for n in v.nodes:
        for t in v.cond(n).atoms():
            m = re.match(r"^exists\((find_neighbors_of\((?:mapping_rw\.)?get_parent\(arg0\), neighborhood_of\)): ", t)
            if m:
                pre.add((m.group(1), t))
    pf = OR(*[F("atom", t) for _, t in sorted(pre)]) if pre else FALSE
    may = here & ~top & ~EX(sib, kids) & ~EX(sib, sveto)
    base = may & ~pf
    done = EX(sib, A("has(cells_to_unrefine, %s)" % S))
    ins = [n for n, _ in v.find("cells_to_unrefine.insert(arg0)")]
    got = OR(*[v.cond(n) for n in ins]) if ins else FALSE
    rep.saw(v)
    same(rep, v, "unrefine", got & ~done, base & ~done, "unrefine_completely: request recorded exactly for local cells that may be unrefined",
         ins[0].where() if ins else v.nodes[0].where(), a)
    # what may keep a request out early is only what would cancel it later
    for dom, t in sorted(pre):
        n = "each(%s).first" % dom
        lim = [x for x in ("(max_ref_lvl_diff + %s)" % (LV % p) for p in ("get_parent(arg0)", "mapping_rw.get_parent(arg0)"))]
        allowed = OR(*[lt(l, LV % n) | (eqf(l, LV % n) & A("has(cells_to_refine, %s)" % n)) for l in lim])
        body = EXISTS[t][1]
        hyp = AND(*[~lt(LV % n, l) | TRUE for l in lim])
        ce = implies(AND(hyp, body), allowed)
        rep.check(ce is None, "unrefine", "unrefine_completely: rejected for a neighbor only if that is too small or will be", ins[0].where() if ins else "",
                  "rejected also when %s" % (show(ce) if ce else ""))
    only_writes(rep, v, "unrefine", "cells_to_unrefine", ["cells_to_unrefine.insert(arg0)"], "changes no other unrefine requests")
    returns(rep, v, "unrefine", here & (top | ~EX(sib, kids)), "reports success unless the cell cannot have been meant", a,
            hyp=~(EX(sib, kids) & EX(sib, ~kids & sveto)) & ~(pf & EX(sib, kids)))

    # ---- don'ts
    v = view(prog, "Dccrg", "dont_refine")
    ok = known & ~maxl
    when(rep, v, "dont", "cells_to_refine.erase(arg0)", ok, "cancels the request to refine", a)
    when(rep, v, "dont", "cells_not_to_refine.insert(arg0)", ok, "recorded for every known cell below maximum level", a)
    returns(rep, v, "dont", known, "reports success for known cells", a)
    only_writes(rep, v, "dont", "cells_to_refine", ["cells_to_refine.erase(arg0)"], "changes no other refine requests")
    v = view(prog, "Dccrg", "dont_unrefine")
    ok = known & ~top
    done = EX(sib, A("has(cells_not_to_unrefine, %s)" % S))
    for pat, lp, w in (("cells_to_unrefine.erase(%s)" % S, [sib], "cancels unrefining of all siblings"),
                       ("cells_not_to_unrefine.insert(arg0)", [], "recorded for every known cell above level 0")):
        when(rep, v, "dont", pat, ok & ~done, w, a, lp, hyp=~done)
    returns(rep, v, "dont", known, "reports success for known cells", a)

    # ---- by coordinate
    for f in ("refine_completely", "unrefine_completely", "dont_unrefine", "dont_refine"):
        g = prog.find("Dccrg", f + "_at")
        for h in g:
            v = View(prog, h)
            rep.saw(v)
            ms = [n for n, _ in v.find(f + "(get_existing_cell(arg0))")]
            c = OR(*[v.cond(n) for n in ms]) if ms else FALSE
            e = ~eqf("0", "get_existing_cell(arg0)")
            rep.check(ms and implies(e, c) is None, "by-coordinate", "%s_at makes the request of the cell at that coordinate" % f, "%s:%d" % (h.file, h.line), "it does not")
            ret = OR(*[AND(v.cond(n), fml(truth(n.eff[1]))) for n in v.nodes if n.kind == "ret" and n.eff[1] is not None])
            q = A(f + "(get_existing_cell(arg0))")
            rep.check(implies(AND(ret, e), q) is None and implies(AND(q, e), ret) is None and implies(ret, e | q) is None,
                      "by-coordinate", "%s_at reports what the request reported" % f, "%s:%d" % (h.file, h.line), "result: %s" % ret)


def phase(prog, name):
    fs = prog.find("Dccrg", name)
    return view(prog, "Dccrg", name) if fs else view(prog, "Dccrg", "stop_refining")


def gathered(rep, v, rule, field, what, src=None, cleared=False):
    """the record becomes everyone's: either all_to_all_set, or gathered and inserted"""
    rep.saw(v)
    out = [n for n, _ in v.find("all_to_all_set(%s)" % field)]
    out = [n for n in out if not v.loops(n) and implies(TRUE, v.cond(n)) is None]
    if out:
        rep.ok(rule, what, out[0].where())
        return out
    for n, b in v.find("%s.insert(each($A[each(0..comm_size)]))" % field) + v.find("%s.insert(each(each($A)))" % field):
        if implies(TRUE, v.cond(n)) is not None:
            continue
        for g, bb in v.find("dccrg::All_Gather($S, %s, comm)" % b["A"]):
            if v.loops(g) != v.loops(n)[:len(v.loops(g))] or implies(TRUE, v.cond(g)) is not None:
                continue
            for d, _ in v.find("let %s = %s" % (bb["S"], src or field)):
                rep.ok(rule, what, n.where())
                return [n, g, d]
            fl = inflows(v, bb["S"])
            if any(x == "each(%s)" % (src or field) and implies(TRUE, c) is None for x, c, _, _ in fl):
                rep.ok(rule, what, n.where())
                return [n, g] + [y[3] for y in fl]
    rep.bad(rule, what, v.nodes[0].where(), "no such exchange on every path")
    return []


def resolve(rep, prog):
    # ---- order
    v = view(prog, "Dccrg", "stop_refining")
    rep.saw(v)
    seq = ["override_refines", "induce_refines", "override_unrefines", "execute_refines"]
    prev = None
    for f in seq:
        if not prog.find("Dccrg", f):
            continue
        ms = [n for n, _ in v.find(f + "()") if not v.loops(n)]
        c = OR(*[v.cond(n) for n in ms]) if ms else FALSE
        rep.check(len(ms) == 1 and implies(TRUE, c) is None, "order", "stop_refining: %s happens once" % f, ms[0].where() if ms else v.nodes[0].where(), "not on every path")
        if ms:
            if prev:
                rep.check(v.dominates(prev[0], ms[0]), "order", "stop_refining: %s after %s" % (f, prev[1]), ms[0].where(), "order changed")
            prev = (ms[0], f)

    # ---- requests not to refine
    v = phase(prog, "override_refines")
    rep.saw(v)
    flows = []
    for n, b in v.find("all_to_all_set($N)"):
        if v.loops(n):
            flows.append((n, b["N"]))
    rep.check(bool(flows), "dont-spread", "override_refines: newly vetoed cells are made known to all processes until none are left", v.nodes[0].where(), "no exchange in the loop")
    for n, N in flows[:1]:
        fl = inflows(v, N)
        for d in ("of", "to"):
            okk = False
            why = "smaller cells of neighbors_%s are not vetoed" % d
            for val, c, ls, m in fl:
                mm = re.match(r"^each\(neighbors_%s\[(each\(%%[\w.#]+\))\]\)\.first$" % d, val)
                if not mm:
                    continue
                D = mm.group(1)
                free = lambda t, val=val, D=D: (False if re.match(r"^has\(%%[\w.#]+, %s\)$" % re.escape(val), t) or re.match(r"^\(get_neighbors_(of|to)\(%s, \S+\) == nil\(\)\)$" % re.escape(D), t)
                                                or t == cmp_key("==", "0", val) else True if t == "has(cell_data, %s)" % D or t == cmp_key("==", "cell_process[%s]" % D, "rank") or re.match(r"^has\(neighbors_(of|to), %s\)$" % re.escape(D), t) else None)
                c2 = simplify(c, free)
                want = lt(LV % D, LV % val)
                ce, ce2 = implies(want, c2), implies(c2, want)
                if ce is None and ce2 is None:
                    okk = True
                else:
                    why = "vetoed under another condition: %s" % show(ce if ce is not None else ce2)
            rep.check(okk, "dont-spread", "override_refines: requests not to refine spread to smaller neighbors_%s" % d, n.where(), why)
    end = gathered(rep, v, "dont-spread", "cells_not_to_refine", "override_refines: every process knows all requests not to refine")
    er = [n for n, _ in v.find("cells_to_refine.erase(each(cells_not_to_refine))") if v.loops(n) == ["cells_not_to_refine"] and implies(TRUE, v.cond(n)) is None]
    er += [n for n, _ in v.find(["cells_to_refine.erase(each(cells_to_refine))"]) if "has(cells_not_to_refine" in str(v.cond(n))]
    rep.check(bool(er), "dont-spread", "override_refines: vetoed cells are not refined", v.nodes[0].where(), "they are not removed from cells_to_refine")
    g = gathered(rep, v, "dont-spread", "cells_to_refine", "override_refines: every process knows all cells to refine")
    if end and er and g:
        rep.not_after(v, "dont-spread", end[:1], er, "override_refines: all vetoes are known before they are applied") if v.loops(end[0]) == [] else None
        rep.not_after(v, "dont-spread", er, g[1:2] or g, "override_refines: vetoes are applied before cells to refine are exchanged")

    # ---- induced refines
    v = phase(prog, "induce_refines")
    rep.saw(v)
    fl = [x for x in inflows(v, "cells_to_refine")]
    want = {}
    for d in ("of", "to"):
        want[d] = None
    remote = None
    for val, c, ls, m in fl:
        mm = re.match(r"^each\(neighbors_(of|to)\[(each\(%[\w.#]+\[rank\]\)|each\(%[\w.#]+\))\]\)\.first$", val)
        if mm:
            want[mm.group(1)] = want[mm.group(1)] or []
            want[mm.group(1)].append((val, mm.group(2), c, m))
        elif val in ("each(local_cells_on_process_boundary)", CD):
            remote = remote or []
            remote.append((val, c, m))
        elif re.match(r"^each\((%[\w.#]+\[each\(0\.\.comm_size\)\]|each\(%[\w.#]+\))\)$", val):
            continue
        else:
            rep.bad("induce", "induce_refines: only too large neighbors are refined in addition", m.where(), "also inserts %s" % val)
    for d in ("of", "to"):
        what = "induce_refines: a larger local cell in neighbors_%s of a refined cell is refined" % d
        if not want[d]:
            rep.bad("induce", what, v.nodes[0].where(), "no such effect")
            continue
        for val, R, c, m in want[d]:
            free = lambda t, val=val: (False if t == cmp_key("==", "0", val) or t == "has(cells_to_refine, %s)" % val else
                                       True if re.match(r"^\(0 < dccrg::All_Reduce\(", t) or "while" in t else None)
            c2 = rename(simplify(c, free), lambda t, val=val: cmp_key("==", "cell_process[%s]" % val, "rank") if t == "has(cell_data, %s)" % val else t)
            w = lt(LV % val, LV % R) & eqf("cell_process[%s]" % val, "rank")
            ce = implies(w, c2)
            ce2 = implies(c2, w) if ce is None else None
            rep.check(ce is None and ce2 is None, "induce", what, m.where(),
                      ("not when %s" % show(ce)) if ce is not None else ("also when %s" % show(ce2) if ce2 is not None else ""))
    what = "induce_refines: a larger local cell next to a cell refined by another process is refined"
    if not remote:
        rep.bad("induce", what, v.nodes[0].where(), "no such effect")
    else:
        for val, c, m in remote:
            R = None
            for t in c.atoms():
                mm = re.search(r"is_neighbor\(%s, (each\(%%.*\))\)$" % re.escape(val), t) or re.search(r"is_neighbor\((each\(%%.*\)), %s\)$" % re.escape(val), t)
                if mm:
                    R = mm.group(1)
            free = lambda t, val=val, R=R: (False if t == "has(cells_to_refine, %s)" % val or t == cmp_key("==", "0", val) or re.match(r"^\(each\(0\.\.comm_size\) == rank\)$", t) else
                                            True if re.match(r"^\(0 < dccrg::All_Reduce\(", t) or "while" in t or (R and t in ("has(remote_cells_on_process_boundary, %s)" % R, "has(remote_neighbors, %s)" % R)) else None)
            c2 = rename(simplify(c, free), lambda t, val=val, R=R: "NEIGHBORS" if R and t in ("is_neighbor(%s, %s)" % (val, R), "is_neighbor(%s, %s)" % (R, val)) else t)
            w = A("NEIGHBORS") & lt(LV % val, LV % (R or "?"))
            ce = implies(w, c2)
            ce2 = implies(c2, w) if ce is None else None
            rep.check(R is not None and ce is None and ce2 is None, "induce", what, m.where(),
                      ("not when %s" % show(ce)) if ce is not None else ("also when %s" % show(ce2) if ce2 is not None else "no neighbor test"))
    # induced cells are the next to be looked at
    news = [b["S"] for n, b in v.find("dccrg::All_Gather($S, $A, comm)") if v.loops(n)]
    for S in news[:1]:
        vals = lambda L: {x[0] for x in L if not re.match(r"^each\((%[\w.#]+\[each\(0\.\.comm_size\)\]|each\(%[\w.#]+\))\)$", x[0])}
        n1, n2 = vals(inflows(v, S)), vals(fl)
        rep.check(n1 == n2, "induce", "induce_refines: every induced refine is examined in turn", v.nodes[0].where(), "not examined: %s" % sorted(n2 - n1) if n2 - n1 else "examined in addition: %s" % sorted(n1 - n2))
    rep.check(bool(news), "induce", "induce_refines: new refines are exchanged until there are none anywhere", v.nodes[0].where(), "no exchange in the loop")
    whiles = [n for n in v.nodes if any("All_Reduce" in l or "while()" in l for l in v.loops(n))]
    rep.check(bool(whiles), "induce", "induce_refines: repeated until no process has new refines", v.nodes[0].where(), "no loop controlled by all processes")
    gathered(rep, v, "induce", "cells_to_refine", "induce_refines: every process knows all cells to refine")

    # ---- unrefines
    v = phase(prog, "override_unrefines")
    rep.saw(v)
    ex = gathered(rep, v, "unrefine-override", "cells_not_to_unrefine", "override_unrefines: every process knows all requests not to unrefine")
    fin = None
    for n, b in v.find("$F.insert(each(cells_to_unrefine))") + v.find("$F.push_back(each(cells_to_unrefine))"):
        if v.loops(n) == ["cells_to_unrefine"]:
            fin = (n, b["F"])
    if not fin:
        rep.bad("unrefine-override", "override_unrefines: cells to unrefine are filtered", v.nodes[0].where(), "cannot find the cells that remain")
        return
    n, Fv = fin
    U = "each(cells_to_unrefine)"
    sib = "mapping_rw.get_siblings(%s)" % U
    S = "each(%s)" % sib
    c = rename(v.cond(n), canon)
    asm = lambda t: False if t == cmp_key("==", "0", S) else True if re.match(r"^has\(neighbors_, ", t) else None
    c = simplify(c, asm)
    # the walk over surrounding cells
    walk, elem = None, None
    for t in c.atoms():
        if t in EXISTS:
            els, body = EXISTS[t]
            for e in els:
                if e.startswith("each(while("):
                    walk = els
                    for bt in body.atoms():
                        mm = re.search(r"get_refinement_level\((each\(%[\w.#]+\)|%[\w.#]+\[0\])\)", bt)
                        if mm:
                            elem = mm.group(1)
    what = "override_unrefines: a cell stays in the list exactly if nothing around it prevents unrefining"
    if not walk or not elem:
        rep.bad("unrefine-override", what, n.where(), "no examination of surrounding cells decides it: %s" % str(c)[:300])
    else:
        key = "spec-walk"
        more = ~A("empty(%s)" % re.match(r"^(?:each\()?(%[\w.#]+)", elem).group(1))
        EXISTS[key] = (walk, more & (lt(LV % U, LV % elem) | (eqf(LV % U, LV % elem) & A("has(cells_to_refine, %s)" % elem))))
        want = ~EX(sib, A("has(cells_to_refine, %s)" % S) | A("has(cells_not_to_unrefine, %s)" % S)) & ~F("atom", key)
        drop = lambda t: asm(t)
        EXn = {t: EXISTS[t] for t in c.atoms() if t in EXISTS}
        for t, (els, body) in EXn.items():
            EXISTS[t] = (els, simplify(rename(body, canon), asm))
        ce = implies(want, c)
        ce2 = implies(c, want) if ce is None else None
        for t, x in EXn.items():
            EXISTS[t] = x
        rep.check(ce is None and ce2 is None, "unrefine-override", what, n.where(),
                  ("removed although %s" % show(ce)) if ce is not None else ("kept although %s" % show(ce2) if ce2 is not None else ""))
        # which cells are walked through
        W = re.match(r"^(?:each\()?(%[\w.#]+)", elem).group(1)
        starts = [x for x in inflows(v, W)]
        seeds = [x for x in starts if x[0] == "each(neighbors_[%s])" % U]
        rep.check(bool(seeds), "unrefine-override", "override_unrefines: the examination starts from the face neighbors", n.where(), "it does not")
        steps = [x for x in starts if x[0] == "each(neighbors_[%s])" % elem]
        okk, why = False, "it does not"
        for val, cc, ls, m in steps:
            cc = rename(cc, canon)
            free = lambda t, val=val: (False if t == cmp_key("==", "0", val) or re.match(r"^has\(%%[\w.#]+, %s\)$" % re.escape(val), t) else
                                       False if t.startswith("empty(") else asm(t))
            cc = simplify(cc, free)
            cc = simplify(cc, lambda t: False if t in EXISTS else None)
            w = OR(*[A("is_neighbor(%s, %s)" % (p, val)) for p in ("mapping_rw.get_parent(%s)" % U, "get_parent(%s)" % U)])
            ce = None
            for p in ("mapping_rw.get_parent(%s)" % U, "get_parent(%s)" % U):
                w = A("is_neighbor(%s, %s)" % (p, val))
                if implies(w, cc) is None and implies(cc, w) is None:
                    okk = True
            why = "the condition is %s" % cc
        rep.check(okk, "unrefine-override", "override_unrefines: the examination continues through all cells that would be neighbors of the parent", n.where(), why)
    if ex:
        rep.not_after(v, "unrefine-override", ex[:1], [n], "override_unrefines: requests not to unrefine are exchanged before they are applied")
    gathered(rep, v, "unrefine-override", "cells_to_unrefine", "override_unrefines: every process knows all cells to unrefine", src=Fv)


def run(rep, prog, tier):
    requests(rep, prog)
    resolve(rep, prog)
