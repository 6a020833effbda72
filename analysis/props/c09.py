"""What committing refinement does to the records of refined and unrefined
cells.  Decided on the control-flow graph of execute_refines: every change of
the ownership, data, pin and weight records must exist for every element of its
domain under a condition equivalent to the required one, in an order in which
nothing is read after it was removed, and there must be no other change."""
from .common import *

MIN_OBLIGATIONS = 40
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["the cells to refine and to unrefine are the same on every process (see C03, C08)", "cells are never both refined and unrefined (see C08)",
               "library calls (MPI) succeed"]
CH = "mapping_rw.get_all_children(%s)"


def captured(v, uses, val):
    """where the value is taken: in a local variable or where it is used"""
    b = [n for n in v.nodes if n.kind == "bind" and n.eff[0] in ("let", "init") and pr(n.eff[2]) == val]
    return b or uses


def run(rep, prog, tier):
    v = view(prog, "Dccrg", "execute_refines") if prog.find("Dccrg", "execute_refines") else view(prog, "Dccrg", "stop_refining")
    R = "each(cells_to_refine)"
    K = "each(%s)" % (CH % R)
    LR, LK = ["cells_to_refine"], ["cells_to_refine", CH % R]
    mine = eqf("cell_process[%s]" % R, "rank")
    U = "each(cells_to_unrefine)"
    PU = "mapping_rw.get_parent(%s)" % U
    SU = CH % PU
    # collected first in a local container?
    W, LW = "each(%s)" % SU, ["cells_to_unrefine", SU]
    for n, b in v.find(["$A.insert(each(%s))" % s for s in (SU, "mapping_rw.get_siblings(%s)" % U)]):
        if b["A"].startswith("%"):
            rep.check(sorted(v.loops(n))[0] == "cells_to_unrefine" and implies(TRUE, v.cond(n)) is None, "unrefine", "all siblings of a cell to unrefine are removed with it", n.where(),
                      "only when %s" % v.cond(n))
            W, LW = "each(%s)" % b["A"], [b["A"]]
            break
    PW, LP = PU, ["cells_to_unrefine"]
    for n, b in v.find("$B.insert(%s)" % PU):
        if b["B"].startswith("%") and v.loops(n) == ["cells_to_unrefine"] and implies(TRUE, v.cond(n)) is None:
            PW, LP = "each(%s)" % b["B"], [b["B"]]
    PofW = "mapping_rw.get_parent(%s)" % W
    wmine, pmine = eqf("cell_process[%s]" % W, "rank"), eqf("cell_process[%s]" % PofW, "rank")

    def sub(t):
        # data is stored exactly where the cell is owned
        for c in (R, W):
            if t == "has(cell_data, %s)" % c:
                return cmp_key("==", "cell_process[%s]" % c, "rank")
        return t

    def asm(t):
        if t in (cmp_key("==", "0", R), cmp_key("==", "0", K), cmp_key("==", "0", W), cmp_key("==", "0", U), cmp_key("==", PU, U), cmp_key("==", PofW, W)):
            return False
        if t in ["has(cell_process, %s)" % x for x in (R, W, U)] or t == "has(cell_process, %s)" % PofW:
            return True
        return None
    E = lambda rule, pats, want, what, loops: spec(rep, v, rule, pats, want, what, loops, assume=asm, sub=sub)

    def erase(rule, rec, key, want, what, loops):
        pats = ["%s.erase(%s)" % (rec, key)]
        return spec(rep, v, rule, pats, want, what, loops, assume=lambda t: True if t == "has(%s, %s)" % (rec, key) else asm(t), sub=None if rec == "cell_data" else sub)

    # ---- refined cells
    own = E("refine", ["cell_process[%s] = cell_process[%s]" % (K, R), "cell_process.emplace(%s, cell_process[%s])" % (K, R)], TRUE, "children belong to the process of the refined cell, on every process", LK)
    save = E("refine", ["refined_cell_data[%s] = cell_data[%s]" % (R, R), "refined_cell_data.emplace(%s, cell_data[%s])" % (R, R)], mine, "data of a refined cell is kept for the user", LR)
    drop = erase("refine", "cell_data", R, mine, "a refined cell has no data any more", LR)
    make = E("refine", ["cell_data.[](%s)" % K, "cell_data.emplace(%s, $x)" % K, "cell_data[%s] = $x" % K], mine, "children get data on the owner only", LK)
    E("refine", "%new_cells.push_back({})".format(K) if v.find("%%new_cells.push_back(%s)" % K) else ["$n.push_back(%s)" % K], mine, "children are reported as new local cells", LK)
    for rec, w in (("pin_requests", TRUE), ("new_pin_requests", TRUE), ("cell_weights", mine)):
        has = A("has(%s, %s)" % (rec, R))
        cond = has & w
        s = E("refine", "%s[%s] = %s[%s]" % (rec, K, rec, R), cond, "children inherit %s of the refined cell" % rec, LK) if rec != "cell_weights" else \
            spec(rep, v, "refine", "%s[%s] = %s[%s]" % (rec, K, rec, R), has, "children inherit %s of the refined cell" % rec, LK, assume=asm, sub=sub, hyp=mine)
        e = spec(rep, v, "refine", "%s.erase(%s)" % (rec, R), TRUE, "the refined cell itself is no longer in %s" % rec, LR,
                 assume=lambda t, rec=rec: True if t == "has(%s, %s)" % (rec, R) else asm(t), sub=sub, hyp=w)
        if s and e:
            rep.not_after(v, "order", captured(v, s, "%s[%s]" % (rec, R)), e, "%s is inherited before the record of the refined cell is removed" % rec)
    gone = erase("refine", "cell_process", R, TRUE, "a refined cell is no longer known", LR)
    if save and drop:
        rep.not_after(v, "order", captured(v, save, "cell_data[%s]" % R), drop, "data of a refined cell is kept before it is removed")
    if own and gone:
        rep.not_after(v, "order", captured(v, own, "cell_process[%s]" % R), gone, "ownership is inherited before the refined cell is removed")

    # ---- unrefined cells
    first = ["%s[0]" % SU, "mapping_rw.get_siblings(%s)[0]" % U, "each(%s)" % SU]
    pown = E("unrefine", ["cell_process[%s] = cell_process[%s]" % (PU, x) for x in first[:2]], TRUE, "the parent belongs to the process of the first of its children, on every process", LP if False else ["cells_to_unrefine"])
    for rec, w in (("cell_process", TRUE), ("pin_requests", TRUE), ("new_pin_requests", TRUE), ("cell_weights", wmine)):
        g = spec(rep, v, "unrefine", "%s.erase(%s)" % (rec, W), TRUE, "a removed cell is no longer in %s" % rec, LW,
                 assume=lambda t, rec=rec: True if t == "has(%s, %s)" % (rec, W) else asm(t), sub=sub, hyp=w)
        if rec == "cell_process" and g and pown:
            rep.not_after(v, "order", pown, g, "the owner of the parent is determined before its children are removed")
    keep = E("unrefine", ["unrefined_cell_data[%s] = cell_data[%s]" % (W, W), "unrefined_cell_data.emplace(%s, cell_data[%s])" % (W, W)], wmine & pmine, "data of removed cells stays here if the parent is here", LW)
    snd = E("unrefine", ["cells_to_send[cell_process[%s]].push_back(std::make_pair(%s, $t))" % (PofW, W), "cells_to_send[cell_process[%s]].emplace_back(%s, $t)" % (PofW, W)], wmine & ~pmine, "data of removed cells is sent to the process of the parent", LW)
    rcv = E("unrefine", ["cells_to_receive[cell_process[%s]].push_back(std::make_pair(%s, $t))" % (W, W), "cells_to_receive[cell_process[%s]].emplace_back(%s, $t)" % (W, W)], ~wmine & pmine, "data of removed cells is received by the process of the parent", LW)
    era = [n for n, _ in v.find("cell_data.erase(%s)" % W) if v.loops(n) == LW]
    c = simplify(rename(OR(*[v.cond(n) for n in era]), sub), asm) if era else FALSE
    ce = implies(wmine, c)
    rep.check(ce is None, "unrefine", "execute_refines: data of removed cells is no longer that of a cell", era[0].where() if era else v.nodes[0].where(), "not erased when %s" % (show(ce) if ce else ""))
    par = E("unrefine", ["cell_data.[](%s)" % p for p in {PW, PU}] + ["cell_data[%s] = $x" % PW, "cell_data.emplace(%s, $x)" % PW], eqf("cell_process[%s]" % PW, "rank"), "the parent gets data on its owner only", [LP, ["cells_to_unrefine"]])
    tr = [n for n, b in v.find("start_user_data_transfers(unrefined_cell_data, cells_to_receive, cells_to_send, $i)")]
    ws = [n for n, _ in v.find("wait_user_data_transfer_sends()")]
    rep.check(bool(tr), "unrefine", "execute_refines: data of removed cells is received as that of removed cells", v.nodes[0].where(), "no such transfer")
    if tr:
        if snd and rcv:
            rep.not_after(v, "order", snd + rcv, tr, "transfers start after all of them are known")
        late = [n for n in era if implies(rename(v.cond(n), sub), wmine & pmine) is not None]
        if late and ws:
            rep.not_after(v, "order", ws, late, "sent data is removed after it was sent")
        if keep:
            own_era = [n for n in era if n not in late] or era
            rep.not_after(v, "order", keep, own_era, "data of removed cells is kept before it is removed")

    # ---- no other changes
    allowed = {
        "cell_process": ["cell_process[%s] = $x" % K, "cell_process[%s] = $x" % PU, "cell_process.erase(%s)" % R, "cell_process.erase(%s)" % W, "cell_process.emplace(%s, $x)" % K, "cell_process.emplace(%s, $x)" % PU],
        "cell_data": ["cell_data.erase(%s)" % R, "cell_data.erase(%s)" % W, "cell_data.[](%s)" % K, "cell_data.[](%s)" % PW, "cell_data.[](%s)" % PU, "cell_data.emplace($x, $y)", "cell_data[%s] = $x" % K, "cell_data[%s] = $x" % PW],
        "refined_cell_data": ["refined_cell_data.clear()", "refined_cell_data[%s] = $x" % R, "refined_cell_data.emplace(%s, $x)" % R],
        "unrefined_cell_data": ["unrefined_cell_data.clear()", "unrefined_cell_data[%s] = $x" % W, "unrefined_cell_data.emplace(%s, $x)" % W, "start_user_data_transfers($x)"],
    }
    for rec in ("pin_requests", "new_pin_requests", "cell_weights"):
        allowed[rec] = ["%s[%s] = $x" % (rec, K), "%s.erase(%s)" % (rec, R), "%s.erase(%s)" % (rec, W)]
    for rec, pats in sorted(allowed.items()):
        bad = [n for n in v.writes(rec) if not any(match(p, v.txt[n.id]) is not None for p in pats) and not v.txt[n.id].startswith("start_user_data")]
        rep.check(not bad, "other", "execute_refines: no other change of %s" % rec, bad[0].where() if bad else "%s:%d" % (v.func.file, v.func.line), "also: %s" % (v.txt[bad[0].id] if bad else ""))
    for rec in ("refined_cell_data", "unrefined_cell_data"):
        cl = spec(rep, v, "other", "%s.clear()" % rec, TRUE, "data kept from an earlier commit is dropped", [])
        fl = [n for n in v.writes(rec) if n not in cl and not v.txt[n.id].endswith(".clear()")]
        if cl and fl:
            rep.not_after(v, "order", cl, fl, "kept data of this commit is not dropped")
    for rec in ("cells_to_refine", "cells_to_unrefine"):
        cl = spec(rep, v, "other", "%s.clear()" % rec, TRUE, "requests are used up", [])
        users = [n for n in v.nodes if n.kind == "eff" and n not in cl and rec in v.loops(n)]
        if cl and users:
            rep.not_after(v, "order", users, cl, "requests are not dropped before they were carried out")

    # ---- what the user sees of removed cells
    g = view(prog, "Dccrg", "get_removed_cells")
    spec(rep, g, "visible", ["$r.push_back(each(unrefined_cell_data).first)", "$r.insert(each(unrefined_cell_data).first)", "$r.emplace_back(each(unrefined_cell_data).first)"], TRUE,
         "lists every removed cell whose data is here", ["unrefined_cell_data"])
    for f in prog.find("Dccrg", "operator[]"):
        g = View(prog, f)
        seen = []
        for rec in ("cell_data", "remote_neighbors", "refined_cell_data", "unrefined_cell_data"):
            cond = A("has(%s, arg0)" % rec)
            for s in seen:
                cond = cond & ~A("has(%s, arg0)" % s)
            seen.append(rec)
            ms = [n for n in g.nodes if n.kind == "ret" and g.txt[n.id] == "return &%s[arg0]" % rec]
            c = OR(*[g.cond(n) for n in ms]) if ms else FALSE
            # a cell is in one of the records only, except removed and re-created ones
            ce, ce2 = implies(cond, c), implies(c, A("has(%s, arg0)" % rec))
            rep.saw(g)
            rep.check(ce is None and ce2 is None, "visible", "operator[] gives the data in %s unless an earlier record has it" % rec, ms[0].where() if ms else "%s:%d" % (f.file, f.line),
                      "not when %s" % show(ce) if ce is not None else "also when %s" % (show(ce2) if ce2 else ""))
        nul = [n for n in g.nodes if n.kind == "ret" and "nil" in g.txt[n.id]]
        c = OR(*[g.cond(n) for n in nul]) if nul else FALSE
        want = AND(*[~A("has(%s, arg0)" % s) for s in seen])
        rep.check(implies(want, c) is None and implies(c, want) is None, "visible", "operator[] gives null exactly for cells without data here", "%s:%d" % (f.file, f.line), "condition: %s" % c)
    g = view(prog, "Dccrg", "clear_refined_unrefined_data")
    for rec in ("refined_cell_data", "unrefined_cell_data"):
        spec(rep, g, "visible", "%s.clear()" % rec, TRUE, "frees all of %s" % rec, [])
