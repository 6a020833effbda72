"""Everything the grid derives from cell ownership and neighborhoods (neighbor
lists, process-boundary sets, send/receive lists, storage for copies of remote
cells, iterators) is rebuilt, completely and in dependency order, on every
successful path of every operation that changes the set of cells or their
owners.  Decided on the control-flow graph of each such operation with its
callees inlined: every rebuild step must exist for every element of its domain
under exactly the expected condition, must follow every change, and must not
precede a step it reads from."""
from .common import *

MIN_OBLIGATIONS = 150
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["neighbor searches (find_neighbors_of/to, get_existing_cell) are treated as functions of the cells known at the call",
               "library calls (MPI, Zoltan) succeed on the paths required to rebuild"]

C = CP


def default_steps(rep, v, clears, tag):
    """rebuild of the default neighborhood; returns {step: (clears, fills)}"""
    st = {}
    E = lambda rule, pat, **kw: [n for n, _ in rep.effect(v, rule, pat, assume=success, onsuccess=True, **kw)]

    def clear(name):
        return E(tag + "-reset", name + ".clear()", loops=[], what="%s is emptied before it is rebuilt" % name) if clears else []
    leaf = TRUE
    st["neighbors_"] = (clear("neighbors_"), E(tag + "-fill", "neighbors_[%s] = $n" % C, when=leaf, loops=["cell_process"],
                                               what="face neighbors rebuilt for every cell"))
    for d in ("of", "to"):
        st["neighbors_" + d] = (clear("neighbors_" + d), E(
            tag + "-fill", "neighbors_%s[%s] = find_neighbors_%s(%s, neighborhood_%s)" % (d, C, d, C, d),
            when=leaf, loops=["cell_process"], what="neighbors_%s rebuilt for every cell" % d))
    boundary(rep, v, tag, "local_cells_on_process_boundary", "remote_cells_on_process_boundary",
             "neighbors_of[%s]" % CD, "neighbors_to[%s]" % CD, [], st, E)
    sendlists(rep, v, tag, "cells_to_send", "cells_to_receive", "local_cells_on_process_boundary",
              "neighbors_of[$c]", "neighbors_to[$c]", [], st, E)
    st["copies"] = ([], E(tag + "-fill", ["remote_neighbors.[](each(remote_cells_on_process_boundary))"], loops=["remote_cells_on_process_boundary"],
                          what="storage for copies of every remote boundary cell"))
    st["pointers"] = (E(tag + "-reset", "cells_rw.clear()", loops=[]) + E(tag + "-reset", "neighbors_rw.clear()", loops=[]),
                      E(tag + "-fill", "cells_rw.push_back($i)", loops=["$o"], what="cell iterators rebuilt")
                      + E(tag + "-fill", "all_cells_default.end_ = $x", loops=[], what="all_cells end iterator"))
    return st


def boundary(rep, v, tag, loc, rem, of, to, HL, st, E):
    cl = E(tag + "-reset", loc + ".clear()", loops=HL) + E(tag + "-reset", rem + ".clear()", loops=HL)
    fills = []
    for lst in (of, to):
        n = "each(%s).first" % lst
        other = ~eqf("cell_process[%s]" % n, "rank")
        real = ~eqf("0", n)
        # lists of "to" contain no error cells
        asm = lambda t, n=n, lst=lst: (False if t == cmp_key("==", "0", n) and "_to[" in lst else success(t))
        for tgt, val in ((loc, CD), (rem, n)):
            fills += [m for m, _ in rep.effect(v, tag + "-fill", "%s.insert(%s)" % (tgt, val), when=real & other,
                                               loops=HL + ["cell_data", lst], assume=asm, onsuccess=True,
                                               what="%s gets cells next to other processes from %s" % (tgt, lst))]
    st[loc] = (cl, fills)


def sendlists(rep, v, tag, snd, rcv, bd, of, to, HL, st, E):
    cl = E(tag + "-reset", snd + ".clear()", loops=HL) + E(tag + "-reset", rcv + ".clear()", loops=HL)
    fills = []
    for lst, tgt, recv in ((of, rcv, True), (to, snd, False)):
        ok = False
        for c, dom in (("each(%s)" % bd, bd), (CD, "cell_data")):
            l = lst.replace("$c", c)
            n = "each(%s).first" % l
            if v.find("$U[cell_process[%s]].insert($x)" % n):
                ok = True
                break
        if not ok:
            c, dom = "each(%s)" % bd, bd
            l = lst.replace("$c", c)
            n = "each(%s).first" % l
        when = ~eqf("0", n) & ~eqf("cell_process[%s]" % n, "rank")
        ms = rep.effect(v, tag + "-fill", ["$U[cell_process[%s]].insert(%s)" % (n, n if recv else c)], when=when,
                        loops=HL + [dom, l], assume=success, onsuccess=True, what="%s: every cell to be transferred is listed for its peer" % tgt)
        for m, b in ms[:1]:
            U = b["U"]
            if U == tgt:
                fills.append(m)
                continue
            ms2 = rep.effect(v, tag + "-fill", "%s[each(%s).first].push_back(std::make_pair(each(each(%s).second), $t))" % (tgt, U, U),
                             loops=HL + [U, "each(%s).second" % U], assume=success, onsuccess=True, what="%s holds every listed cell" % tgt)
            fills += [x for x, _ in ms2]
            if ms2:
                rep.not_after(v, tag + "-order", [m], [x for x, _ in ms2], "%s is filled after its cells were collected" % tgt)
    st[snd] = (cl, fills)


def user_steps(rep, v, H, HL, clears, tag):
    st = {}
    E = lambda rule, pat, **kw: [n for n, _ in rep.effect(v, rule, pat, assume=success, onsuccess=True, **kw)]
    for d in ("of", "to"):
        cl = E(tag + "-reset", "user_neigh_%s[%s].clear()" % (d, H), loops=HL) if clears else []
        hood = ["user_hood_%s[%s]" % (d, H)]
        if H == "each(user_hood_%s).first" % d:
            hood.append("each(user_hood_%s).second" % d)
        st["user_neigh_" + d] = (cl, E(tag + "-fill", ["user_neigh_%s[%s][%s] = find_neighbors_%s(%s, %s)" % (d, H, C, d, C, h) for h in hood],
                                       loops=HL + ["cell_process"], what="user neighbors_%s rebuilt for every cell" % d))
    boundary(rep, v, tag, "user_local_cells_on_process_boundary[%s]" % H, "user_remote_cells_on_process_boundary[%s]" % H,
             "user_neigh_of[%s][%s]" % (H, CD), "user_neigh_to[%s][%s]" % (H, CD), HL, st, E)
    sendlists(rep, v, tag, "user_neigh_cells_to_send[%s]" % H, "user_neigh_cells_to_receive[%s]" % H,
              "user_local_cells_on_process_boundary[%s]" % H, "user_neigh_of[%s][$c]" % H, "user_neigh_to[%s][$c]" % H, HL, st, E)
    st["user pointers"] = (E(tag + "-reset", ["cells_user[%s].clear()" % H, "cells_user.erase(%s)" % H], loops=HL),
                           E(tag + "-fill", "cells_user[%s].push_back($i)" % H, loops=HL + ["$o"], what="user cell iterators rebuilt")
                           + E(tag + "-fill", "all_cells_user[%s].end_ = $x" % H, loops=HL, what="user all_cells end iterator"))
    return st


def order(rep, v, tag, st, seq):
    """later steps read earlier ones"""
    for a, b in seq:
        if a in st and b in st and st[a][1] and st[b][1]:
            rep.not_after(v, tag + "-order", st[a][1], st[b][1], "%s is rebuilt before %s, which reads it" % (a, b))
    for name, (cl, fills) in st.items():
        if cl and fills:
            rep.not_after(v, tag + "-order", cl, fills, "%s is not emptied after being rebuilt" % name)
            if all(not x.loops or True for x in cl):
                rep.precedes(v, tag + "-order", cl, fills, "%s is emptied before being rebuilt" % name)


def after_changes(rep, v, tag, st, base):
    for f in base:
        w = v.writes(f)
        if not w:
            continue
        for name, (cl, fills) in st.items():
            if f == "cell_data" and re.match("neighbors_|user_neigh_(of|to)$", name):
                continue    # depend on the known cells and their owners only
            if fills:
                byl = {}
                for x in fills:
                    byl.setdefault(v.txt[x.id], []).append(x)
                rep.follows(v, tag + "-follow", w, fills, "%s is rebuilt after every change of %s" % (name, f))


SEQ = [("neighbors_of", "local_cells_on_process_boundary"), ("neighbors_to", "local_cells_on_process_boundary"),
       ("local_cells_on_process_boundary", "cells_to_send"), ("local_cells_on_process_boundary", "copies"),
       ("local_cells_on_process_boundary", "pointers"), ("copies", "pointers"), ("neighbors_of", "pointers"), ("neighbors_to", "pointers")]


def useq(H):
    l = "user_local_cells_on_process_boundary[%s]" % H
    return [("user_neigh_of", l), ("user_neigh_to", l), (l, "user_neigh_cells_to_send[%s]" % H), (l, "user pointers"),
            ("user_neigh_of", "user pointers"), ("user_neigh_to", "user pointers")]


def hood_expr(v):
    """which container of neighborhoods the function iterates over"""
    for h in ("user_hood_of", "user_hood_to"):
        if v.find("user_neigh_of[each(%s).first][%s] = $x" % (h, C)):
            return "each(%s).first" % h, [h]
    return "each(user_hood_of).first", ["user_hood_of"]


def run(rep, prog, tier):
    nolb = False
    for name, tag, clears, user in (("finish_balance_load", "balance", True, True), ("stop_refining", "refine", True, True),
                                    ("initialize", "init", False, False), ("start_loading_grid_data", "load", False, False)):
        if not prog.find("Dccrg", name):
            raise AnalysisBroken("function %s not found" % name)
        if name == "start_loading_grid_data":
            v = view(prog, "Dccrg", name, None, ["*mut"], ["stop_refining", "load_cells", "initialize_mpi", "initialize_zoltan"])
        else:
            v = view(prog, "Dccrg", name, None, ["*mut"])
        if name == "finish_balance_load" and not v.writes("cell_process"):
            continue    # load balancing compiled out
        st = default_steps(rep, v, clears, tag)
        seq = list(SEQ)
        if user:
            H, HL = hood_expr(v)
            us = user_steps(rep, v, H, HL, True, tag + "-user")
            st.update(us)
            seq += useq(H) + [("copies", "user pointers")]
        order(rep, v, tag, st, seq)
        after_changes(rep, v, tag, st, ["cell_process", "cell_data"])
    # a new neighborhood
    v = view(prog, "Dccrg", "add_neighborhood", None, ["*mut"], user_args=(0,))
    us = user_steps(rep, v, "arg0", [], False, "add")
    order(rep, v, "add", us, useq("arg0"))
    after_changes(rep, v, "add", us, ["user_hood_of", "user_hood_to"])
    # operations made of other operations
    v = view(prog, "Dccrg", "balance_load", None, ["initialize_balance_load", "continue_balance_load"])
    b = view(prog, "Dccrg", "balance_load", None, [])
    if b.find("initialize_balance_load($u)"):
        for a, c in (("initialize_balance_load($u)", "continue_balance_load()"), ("continue_balance_load()", "finish_balance_load()")):
            x, y = [n for n, _ in b.find(a)], [n for n, _ in b.find(c)]
            rep.check(bool(x and y), "phases", "balance_load performs %s" % c, "dccrg.hpp:%d" % b.func.line, "call missing")
            if x and y:
                rep.follows(b, "phases", x, y, "%s is followed by %s" % (a, c))
    l = view(prog, "Dccrg", "load_cells", None, [])
    r = [n for n, _ in l.find("refine_completely($c)")]
    s = [n for n, _ in l.find("stop_refining($b)")]
    rep.check(bool(r and s), "phases", "load_cells commits its refinements", "dccrg.hpp:%d" % l.func.line, "call missing")
    rep.follows(l, "phases", r, s, "refinements requested while loading are committed")
