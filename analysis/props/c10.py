"""Pins, weights and what load balancing moves.  Decided on the control-flow
graph: conditions under which pins and weights are recorded, merged and applied
must be equivalent to the rules, the cells each side of load balancing adds and
removes must be those pinned elsewhere plus those the partitioner moved that are
not pinned, and the three phases must happen in order."""
from .common import *

MIN_OBLIGATIONS = 40
THOROUGH_CONFIGS = [("DEBUG",)]  # with DCCRG_NO_LB there is no load balancing
ASSUMPTIONS = ["what Zoltan returns as new partition is not decided", "cell_data holds exactly the cells owned by this process"]


def requests(rep, prog):
    a = "arg0"
    mine = eqf("cell_process[arg0]", "rank")
    known = A("has(cell_process, arg0)")

    def asm(t):
        if t == cmp_key("==", "arg0", "get_child(arg0)"):
            return True        # known cells have no children
        if t == cmp_key("==", "0", "arg0"):
            return False
        return None

    def sub(t):
        return cmp_key("==", "cell_process[arg0]", "rank") if t == "has(cell_data, arg0)" else t
    hyp = known | ~mine
    E = lambda v, pats, want, what, hy=TRUE: spec(rep, v, "request", pats, want, what, [], assume=asm, sub=sub, hyp=hyp & hy)

    def rets(v, want, what):
        rep.saw(v)
        got = simplify(rename(ret_formula(v), sub), asm)
        w = simplify(want, asm)
        ce = implies(AND(hyp, w), got)
        ce2 = implies(AND(hyp, got), w) if ce is None else None
        rep.check(ce is None and ce2 is None, "request", "%s: %s" % (v.func.name, what), "%s:%d" % (v.func.file, v.func.line),
                  "fails when %s" % show(ce) if ce is not None else "also when %s" % (show(ce2) if ce2 is not None else ""))
    v = view(prog, "Dccrg", "pin", 2)
    valid = F("atom", cmp_key("<", "arg1", "comm_size")) & ~F("atom", cmp_key("<", "arg1", "0"))
    ok = known & mine & valid
    already = A("has(pin_requests, arg0)") & eqf("arg1", "pin_requests[arg0]")
    E(v, "new_pin_requests[arg0] = arg1", ok, "recorded for local cells and existing processes unless it is so already", ~already)
    er = [n for n, _ in v.find(["new_pin_requests.erase(arg0)", "new_pin_requests[arg0] = arg1"])]
    c = simplify(rename(OR(*[v.cond(n) for n in er]), sub), asm) if er else FALSE
    rep.check(er and implies(AND(hyp, ok), c) is None, "request", "pin: an older request for the cell does not survive", "%s:%d" % (v.func.file, v.func.line), "it may")
    rets(v, ok, "succeeds exactly for local cells and existing processes")
    v = view(prog, "Dccrg", "unpin", 1)
    ok = known & mine
    E(v, ["new_pin_requests[arg0] = comm_size"], ok & A("has(pin_requests, arg0)"), "a recorded pin will be removed everywhere")
    er = [n for n, _ in v.find(["new_pin_requests.erase(arg0)", "new_pin_requests[arg0] = comm_size"])]
    c = simplify(rename(OR(*[v.cond(n) for n in er]), sub), asm) if er else FALSE
    rep.check(er and implies(AND(hyp, ok), c) is None, "request", "unpin: a request to pin the cell does not survive", "%s:%d" % (v.func.file, v.func.line), "it may")
    rets(v, ok, "succeeds exactly for local cells")
    v = view(prog, "Dccrg", "unpin_local_cells", 0)
    spec(rep, v, "request", "unpin(%s)" % CD, TRUE, "unpins every local cell", [["cell_data"], ["cells_rw"], ["local_cells()"]])
    v = view(prog, "Dccrg", "unpin_all_cells", 0)
    for r in ("new_pin_requests", "pin_requests"):
        spec(rep, v, "request", "%s.clear()" % r, TRUE, "removes all of %s" % r, [])
    v = view(prog, "Dccrg", "set_cell_weight", 2)
    E(v, "cell_weights[arg0] = arg1", known & mine, "recorded for local cells")
    rets(v, known & mine, "succeeds exactly for local cells")
    v = view(prog, "Dccrg", "get_cell_weight", 1)
    rep.saw(v)
    for val, want in (("cell_weights[arg0]", known & mine & A("has(cell_weights, arg0)")), ("1", known & mine & ~A("has(cell_weights, arg0)"))):
        ns = [n for n in v.nodes if n.kind == "ret" and v.txt[n.id] == "return " + val]
        c = simplify(rename(OR(*[v.cond(n) for n in ns]), sub), asm) if ns else FALSE
        rep.check(implies(AND(hyp, want), c) is None and implies(AND(hyp, c), want) is None, "request", "get_cell_weight: gives %s for local cells %s weight" % (val, "with" if val != "1" else "without"),
                  "%s:%d" % (v.func.file, v.func.line), "condition: %s" % c)


def merge(rep, prog):
    v = view(prog, "Dccrg", "update_pin_requests") if prog.find("Dccrg", "update_pin_requests") else view(prog, "Dccrg", "make_new_partition")
    gs = v.find("dccrg::All_Gather($L, $G, comm)")
    src = {}
    for n, b in gs:
        for x, c, ls, m in inflows(v, b["L"]):
            if ls == ["new_pin_requests"] and implies(TRUE, c) is None:
                src[b["G"]] = x.replace("each(new_pin_requests)", "")
    cells = [g for g, s in src.items() if s == ".first"]
    procs = [g for g, s in src.items() if s == ".second"]
    rep.check(len(cells) == 1 and len(procs) == 1, "merge", "update_pin_requests: cells and processes of all requests are exchanged", v.nodes[0].where(), "found %s" % src)
    if len(cells) != 1 or len(procs) != 1:
        return
    C, P = cells[0], procs[0]
    idx = [("each(0..%s.size())" % C, "each(0..each(%s).size())" % C, "each(each(%s))" % C),
           ("each(0..comm_size)", "each(0..%s[each(0..comm_size)].size())" % C, "each(%s[each(0..comm_size)])" % C),
           ("each(0..%s.size())" % P, "each(0..each(%s).size())" % P, "%s[each(0..%s.size())][each(0..each(%s).size())]" % (C, P, P))]
    done = False
    for i, j, cell in idx:
        for proc in ("%s[%s][%s]" % (P, i, j), "each(%s)[%s]" % (P, j), "each(each(%s))" % P):
            if not v.find("pin_requests[%s] = %s" % (cell, proc)):
                continue
            done = True
            lim = F("atom", cmp_key("<", proc, "comm_size"))
            n = v.find("pin_requests[%s] = %s" % (cell, proc))[0][0]
            lp = v.loops(n)
            rep.check(len(lp) == 2, "merge", "update_pin_requests: for every request of every process", n.where(), "loops: %s" % lp)
            spec(rep, v, "merge", "pin_requests[%s] = %s" % (cell, proc), lim, "a requested pin is recorded for the process requested with that cell", lp)
            spec(rep, v, "merge", "pin_requests.erase(%s)" % cell, ~lim, "a pin is removed when that was requested", lp,
                 assume=lambda t: True if t == "has(pin_requests, %s)" % cell else None)
    rep.check(done, "merge", "update_pin_requests: requests of all processes are recorded", v.nodes[0].where(), "no such effect with matching cell and process")
    rep.not_after(v, "merge", [n for n in v.nodes if "new_pin_requests" in v.loops(n)], [n for n, _ in gs], "requests are listed before they are exchanged")
    cl = spec(rep, v, "merge", "new_pin_requests.clear()", TRUE, "requests are used up", [])
    if cl:
        rep.not_after(v, "merge", [n for n in v.nodes if "new_pin_requests" in v.loops(n)], cl, "requests are listed before they are dropped")


def partition(rep, prog):
    v = view(prog, "Dccrg", "make_new_partition")
    p, t = "each(pin_requests).first", "each(pin_requests).second"
    mine, here = eqf("cell_process[%s]" % p, "rank"), eqf(t, "rank")

    def sub(x):
        return cmp_key("==", "cell_process[%s]" % p, "rank") if x == "has(cell_data, %s)" % p else x

    def asm(x):
        return {"has(cell_process, %s)" % p: True, "has(pin_requests, %s)" % p: True}.get(x)
    E = lambda pats, want, what, loops, **kw: spec(rep, v, "partition", pats, want, what, loops, assume=kw.pop("assume", asm), sub=sub, **kw)
    pu = [n for n, _ in v.find("update_pin_requests()")]
    if prog.find("Dccrg", "update_pin_requests"):
        rep.check(pu and implies(TRUE, v.cond(pu[0])) is None, "partition", "make_new_partition: new pin requests are taken into account", v.nodes[0].where(), "not on every path")
    adds = E("added_cells.insert(%s)" % p, ~mine & here, "cells pinned here that are elsewhere are added", ["pin_requests"])
    rems = E("removed_cells.insert(%s)" % p, mine & ~here, "cells pinned elsewhere that are here are removed", ["pin_requests"])
    rc = E(["cells_to_receive[cell_process[%s]].push_back(std::make_pair(%s, $t))" % (p, p), "cells_to_receive[cell_process[%s]].emplace_back(%s, $t)" % (p, p)], ~mine & here, "their data is received from their owner", ["pin_requests"])
    sd = E(["cells_to_send[%s].push_back(std::make_pair(%s, $t))" % (t, p), "cells_to_send[%s].emplace_back(%s, $t)" % (t, p)], mine & ~here, "their data is sent to where they are pinned", ["pin_requests"])
    if pu and adds + rems + rc + sd:
        rep.not_after(v, "partition", pu, adds + rems + rc + sd, "make_new_partition: pins are merged before they are applied")
    lb = [n for n in v.nodes if n.kind == "eff" and v.txt[n.id].startswith("Zoltan_LB_Balance(")]
    rep.check(len(lb) == 1, "partition", "make_new_partition: the partitioner is called", v.nodes[0].where(), "found %d calls" % len(lb))
    for n in lb:
        args = split_args(v.txt[n.id][len("Zoltan_LB_Balance("):-1])
        nrecv, grecv, srcp = args[4][1:], args[5][1:], args[7][1:]
        nsend, gsend, dstp = args[8][1:], args[9][1:], args[11][1:]
        c = v.cond(n)
        rep.check(implies(TRUE & A("arg0"), c) is None and implies(c, A("arg0")) is None, "partition", "make_new_partition: the partitioner is used exactly when asked for", n.where(), "condition: %s" % c)
        for num, ids, peer, out, lst, w in ((nrecv, grecv, srcp, "cells_to_receive", "added_cells", "received"), (nsend, gsend, dstp, "cells_to_send", "removed_cells", "sent")):
            i = "each(0..%s)" % num
            cell, pp = "%s[%s]" % (ids, i), "%s[%s]" % (peer, i)
            want = A("arg0") & ~eqf(pp, "rank") & ~A("has(pin_requests, %s)" % cell)
            za = lambda x: (True if re.match(r"^\(\w* ?==? ?Zoltan|^\(0 == Zoltan|^\(Zoltan_LB_Balance\(.*\) == 0\)", x) else None)
            E(["%s[%s].push_back(std::make_pair(%s, $t))" % (out, pp, cell), "%s[%s].emplace_back(%s, $t)" % (out, pp, cell)], want, "unpinned cells moved by the partitioner are %s" % w, ["0..%s" % num], assume=za)
            E("%s.insert(%s)" % (lst, cell), want, "unpinned cells moved by the partitioner are in %s" % lst, ["0..%s" % num], assume=za)
    for lst in ("added_cells", "removed_cells"):
        cl = spec(rep, v, "partition", "%s.clear()" % lst, TRUE, "%s of earlier load balancing are forgotten" % lst, [])
        fills = [n for n, _ in v.find("%s.insert($x)" % lst)]
        if cl and fills:
            rep.not_after(v, "partition", cl, fills, "%s is not emptied after being filled" % lst)


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def phases(rep, prog):
    v = view(prog, "Dccrg", "balance_load", 1)
    rep.saw(v)
    seq = [("initialize_balance_load(arg0)", "initialize"), ("continue_balance_load()", "continue"), ("finish_balance_load()", "finish")]
    prev = None
    for p, w in seq:
        ms = [n for n, _ in v.find(p) if implies(TRUE, v.cond(n)) is None and not v.loops(n)]
        rep.check(bool(ms), "phases", "balance_load: %s phase happens" % w, v.nodes[0].where(), "not on every path")
        if ms and prev:
            rep.check(v.dominates(prev, ms[0]), "phases", "balance_load: %s phase in order" % w, ms[0].where(), "order changed")
        prev = ms[0] if ms else prev
    vi = view(prog, "Dccrg", "initialize_balance_load")
    vc = view(prog, "Dccrg", "continue_balance_load")
    vf = view(prog, "Dccrg", "finish_balance_load")
    for v, bad in ((vi, A("balancing_load")), (vc, ~A("balancing_load")), (vf, ~A("balancing_load"))):
        rep.saw(v)
        ab = [n for n in v.nodes if n.kind == "abort" or (n.kind == "eff" and re.match(r"^(abort|exit|throw)\b", v.txt[n.id]))]
        ok = any(implies(bad, v.cond(n)) is None and implies(v.cond(n), bad) is None for n in ab)
        rep.check(ok, "phases", "%s: refused outside of its place in the sequence" % v.func.name, v.nodes[0].where(), "no such check")
    spec(rep, vi, "phases", "balancing_load = true", TRUE, "load balancing is marked as going on", [], assume=lambda t: False if t == "balancing_load" else None)
    spec(rep, vf, "phases", "balancing_load = false", TRUE, "load balancing is marked as finished", [], assume=lambda t: True if t == "balancing_load" else None)
    ia = lambda t: False if t == "balancing_load" else None
    fa = lambda t: True if t == "balancing_load" else None
    mk = spec(rep, vi, "phases", "make_new_partition(arg0)", TRUE, "a new partition is made with or without the partitioner as asked", [], assume=ia)
    new = spec(rep, vi, "phases", ["cell_data.[](each(each(cells_to_receive).second).first)", "cell_data.[](each(added_cells))", "cell_data[each(added_cells)] = $x", "cell_data[each(each(cells_to_receive).second).first] = $x"], TRUE, "every cell to be received has storage for its data",
               [["cells_to_receive", "each(cells_to_receive).second"], ["added_cells"]], assume=ia)
    if mk and new:
        rep.not_after(vi, "phases", mk, new, "storage is made for the cells of the new partition")
    for r in ("cells_to_refine", "cells_to_unrefine", "cells_not_to_refine", "cells_not_to_unrefine"):
        spec(rep, vi, "discard", "%s.clear()" % r, TRUE, "requests in %s made before are discarded" % r, [], assume=ia)
    wc = [n for n, _ in vi.find("cell_weights.clear()")]
    if wc and mk:
        rep.not_after(vi, "discard", mk, wc, "cell weights are used before they are discarded")
    spec(rep, vc, "phases", "start_user_data_transfers(cell_data, cells_to_receive, cells_to_send, $i)", TRUE, "data of all moving cells is transferred", [], assume=fa)
    # new owners
    ok = False
    for n, b in vf.find("dccrg::All_Gather($L, $G, comm)"):
        src = bool(vf.find("let %s = added_cells" % b["L"])) or any(x[0] == "each(added_cells)" and implies(TRUE, x[1]) is None for x in inflows(vf, b["L"]))
        if not src:
            continue
        G = b["G"]
        for pat, lps in (("cell_process[each(each(%s))] = each(0..%s.size())" % (G, G), [G, "each(%s)" % G]),
                         ("cell_process[each(%s[each(0..comm_size)])] = each(0..comm_size)" % G, ["0..comm_size", "%s[each(0..comm_size)]" % G])):
            if vf.find(pat):
                ok = True
                own = spec(rep, vf, "owner", pat, TRUE, "every process records the process that added a cell as its owner", lps, assume=fa)
    rep.check(ok, "owner", "finish_balance_load: new owners are exchanged and recorded", vf.nodes[0].where(), "no such effect")
    er = spec(rep, vf, "owner", "cell_data.erase(each(removed_cells))", TRUE, "data of every cell that went elsewhere is freed", ["removed_cells"], assume=lambda t: True if t == "has(cell_data, each(removed_cells))" else fa(t))
    for lst in ("added_cells", "removed_cells"):
        cl = [n for n, _ in vf.find("%s.clear()" % lst)]
        users = [n for n in vf.nodes if lst in vf.loops(n) or ("let " in vf.txt.get(n.id, "") and vf.txt[n.id].endswith("= " + lst))]
        if cl and users:
            rep.not_after(vf, "owner", users, cl, "finish_balance_load: %s is used before it is emptied" % lst)
    for f, lst in (("get_cells_added_by_balance_load", "added_cells"), ("get_cells_removed_by_balance_load", "removed_cells")):
        for g in prog.find("Dccrg", f):
            w = View(prog, g)
            rep.saw(w)
            rs = [w.txt[n.id] for n in w.nodes if n.kind == "ret"]
            rep.check(rs == ["return " + lst], "owner", "%s gives %s" % (f, lst), "%s:%d" % (g.file, g.line), "returns %s" % rs)
    # nobody else changes pins or owners of existing cells during load balancing
    for v in (vi, vc, vf, view(prog, "Dccrg", "make_new_partition")):
        for r, pats in (("cell_process", ["cell_process[each(each($g))] = $x", "cell_process[each($g[$i])] = $x"]), ("pin_requests", []), ("cell_data", ["cell_data.[]($x)", "cell_data[each(added_cells)] = $x", "cell_data[each(each(cells_to_receive).second).first] = $x", "cell_data.erase(each(removed_cells))", "cell_data.reserve($x)", "start_user_data_transfers($x)"])):
            bad = [n for n in v.writes(r) if not any(match(p, v.txt[n.id]) is not None for p in pats) and not re.match(r"^(start_user_data|update_|make_new_partition|finish_|continue_)", v.txt[n.id])]
            rep.check(not bad, "owner", "%s: no other change of %s" % (v.func.name, r), bad[0].where() if bad else v.nodes[0].where(), "also: %s" % (v.txt[bad[0].id] if bad else ""))


def run(rep, prog, tier):
    requests(rep, prog)
    merge(rep, prog)
    partition(rep, prog)
    phases(rep, prog)
