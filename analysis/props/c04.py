"""Point-to-point transfers of cell data match: the receives a process posts
are exactly the sends of its peers.  Decided per transfer engine (peer, tag,
communicator, one message per listed cell or per peer, data of the listed
cell) and per builder of transfer lists (membership mirrored between owner and
receiver, lists brought to an order all processes share before positions
become tags, same tags on both sides), and per caller (the lists built are the
lists transferred, in the same roles, under the same transfer id)."""
from .common import *

MIN_OBLIGATIONS = 60
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["users describe the same amount of data for a cell on the sending and receiving process (library contract)",
               "library calls (MPI, Zoltan) succeed; the import lists of Zoltan mirror its export lists"]


def engine(rep, prog):
    tags = {}
    for name, L, call, idx, role in (("start_user_data_receives", "arg1", "MPI_Irecv", "arg2", True),
                                     ("start_user_data_sends", "arg0", "MPI_Isend", "arg1", False)):
        v = view(prog, "Dccrg", name)
        kept_requests(v)
        P, c = "each(%s).first" % L, "each(each(%s).second).first" % L
        tag = "each(each(%s).second).second" % L
        inner = "each(%s).second" % L
        store = "receive_requests" if role else "send_requests"
        single = A("send_single_cells")
        dt = "dccrg::detail::get_cell_mpi_datatype(%s[%s], %s, %s, %s, %s, %s)" % (
            "arg0" if role else "cell_data", c, c, P if role else "rank", "rank" if role else P, "true" if role else "false", idx)
        rep.effect(v, "datatype", dt, loops=[L, inner], what="the user's data of every listed cell is requested with the right peers and direction")
        other = [n for n, _ in v.find("dccrg::detail::get_cell_mpi_datatype($a, $b, $c, $d, $e, $f)") if n not in [m for m, _ in v.find(dt)]]
        rep.check(not other, "datatype", "%s: no other data is transferred" % name, other[0].where() if other else "", "unexpected description of data: %s" % (v.txt[other[0].id] if other else ""))
        ms = rep.effect(v, "message", "%s($a, $n, $t, %s, %s, comm, &$r[%s].back())" % (call, P, tag, P), when=single, loops=[L, inner],
                        what="one message per listed cell, tagged with the tag of the list, in per-cell mode")
        ms += rep.effect(v, "message", "%s($a, $n, $t, %s, $g, comm, &$r[%s].back())" % (call, P, P), when=~single, loops=[L],
                         what="one message per peer otherwise")
        for n, b in ms:
            rep.check(b["r"] == store, "message", "%s: requests are kept in %s" % (name, store), n.where(), "stored in %s" % b["r"])
            if "g" in b:
                tags[call] = (b["g"], n)
                rep.check(bool(v.find("MPI_Type_create_struct(each(%s).second.size(), &$c[0], &$d[0], &$u[0], &%s)" % (L, b["t"]))), "message",
                          "%s: the single message covers all cells of the list" % name, n.where(), "no datatype over the whole list")
                rep.check(b["n"] == "1", "message", "%s: the combined datatype is transferred once" % name, n.where(), "count %s" % b["n"])
        oth = [n for n, _ in v.find("%s($a, $n, $t, $p, $g, $c, $r)" % call) if n not in [m for m, _ in ms]]
        rep.check(not oth, "message", "%s: no other messages" % name, oth[0].where() if oth else "", v.txt[oth[0].id] if oth else "")
    if len(tags) == 2:
        (a, n), (b, _) = tags["MPI_Irecv"], tags["MPI_Isend"]
        rep.check(a == b and re.match(r"^-?\d+$", a) is not None, "message", "sender and receiver use the same tag in combined mode", n.where(), "%s vs %s" % (a, b))


def order_and_tags(rep, v, S, R):
    """lists S (to send) and R (to receive) are sorted and tagged alike"""
    q = v.func.q.split("::")[-1]
    off = {}
    asm = lambda t: False if re.match(r"^empty\((%s|%s)\[" % (re.escape(S), re.escape(R)), t) else success(t)
    for X in (S, R):
        push = [n for n, b in v.find(["%s[$p].push_back($x)" % X, "%s[$p].emplace_back($x, $y)" % X, "%s[$p].insert($x)" % X])]
        forms = [("each(%s).second" % X, [X])]
        for n, b in v.find("%s[each($u).first].push_back($x)" % X):
            forms.append(("%s[each(%s).first]" % (X, b["u"]), [b["u"]]))
        lst, dom = forms[0]
        for f, d in forms:
            if v.find(f + ".sort()"):
                lst, dom = f, d
        first = False
        if push and not any(v.find(f + ".sort()") for f, _ in forms):
            # the cells are sorted before they are listed
            ds = {tuple(v.loops(n)) for n in push}
            if len(ds) == 1:
                d = list(ds.pop())
                if len(d) == 2 and v.find(d[1] + ".sort()") and all(re.search(r"\((?:std::make_pair\(|\{)?%s, " % re.escape("each(%s)" % d[1]), v.txt[n.id]) for n in push):
                    lst, dom, first = d[1], d[:1], True
        so = [n for n, _ in rep.effect(v, "order", lst + ".sort()", loops=dom, assume=asm,
                                       what="%s of every peer is brought to the common order" % X)]
        lf = lst if not first else forms[0][0]
        for f, d in forms:
            if v.find("each(%s).second = $x" % f):
                lf, dom = f, d
        tg = rep.effect(v, "tags", ["each(%s).second = (each(0..%s.size()) + $o)" % (lf, lf), "each(%s).second = each(0..%s.size())" % (lf, lf)],
                        loops=dom + [lf], assume=asm, what="every listed cell of %s is tagged with its position" % X)
        for n, b in tg:
            off[X] = (b.get("o", "0"), n)
        tn = [n for n, _ in tg]
        if first and push and so:
            rep.not_after(v, "order", so, push, "cells are sorted before they are listed in %s" % X)
        elif push and so:
            rep.not_after(v, "order", push, so, "nothing is added to %s after sorting" % X)
        if so and tn:
            rep.not_after(v, "order", so, tn, "%s is sorted before positions become tags" % X)
        ab = [n for n in v.nodes if n.kind == "abort" and "max_tag" in str(v.cond(n, drop=("catch",))) and X in "%s %s" % (v.cond(n, drop=("catch",)), v.loops(n))]
        rep.check(bool(ab), "tags", "%s: too large a tag for MPI is refused (%s)" % (q, X), "dccrg.hpp:%d" % v.func.line, "no check against the largest tag")
    if len(off) == 2:
        rep.check(off[S][0] == off[R][0], "tags", "%s: both sides number from the same start" % q, off[S][1].where(), "%s vs %s" % (off[S][0], off[R][0]))


def mirrored(rep, prog):
    v = view(prog, "Dccrg", "make_new_partition")
    if v.writes("cells_to_send"):
        cell, pin = "each(pin_requests).first", "each(pin_requests).second"
        owner = "cell_process[%s]" % cell
        mine, here = eqf(owner, "rank"), eqf(pin, "rank")
        rep.effect(v, "mirror", "cells_to_receive[%s].push_back(std::make_pair(%s, $t))" % (owner, cell), when=here & ~mine, loops=["pin_requests"],
                   what="cells pinned here and owned elsewhere are received from their owner")
        rep.effect(v, "mirror", "cells_to_send[%s].push_back(std::make_pair(%s, $t))" % (pin, cell), when=mine & ~here, loops=["pin_requests"],
                   what="cells owned here and pinned elsewhere are sent there")
        for X, rg in () if "DCCRG_NO_LB" in prog.defines else (("cells_to_receive", ("$p[each(0..$n)]", "$g[each(0..$n)]")), ("cells_to_send", ("$p[each(0..$n)]", "$g[each(0..$n)]"))):
            f = v.find("%s[%s].push_back(std::make_pair(%s, $t))" % ((X,) + rg))
            if rep.check(bool(f), "mirror", "make_new_partition: moves asked for by Zoltan are listed in %s" % X, "dccrg.hpp:%d" % v.func.line, "missing"):
                n, b = f[0]
                proc, cid = "%s[each(0..%s)]" % (b["p"], b["n"]), "%s[each(0..%s)]" % (b["g"], b["n"])
                rep.effect(v, "mirror", "%s[%s].push_back(std::make_pair(%s, $t))" % (X, proc, cid), when=A("arg0") & ~eqf(proc, "rank") & ~A("has(pin_requests, %s)" % cid),
                           loops=["0..%s" % b["n"]], what="every unpinned move of Zoltan is listed in %s" % X)
                z = v.find("Zoltan_LB_Balance($z, $a, $b, $c, $d, $e, $f, $g, $h, $i, $j, $k)")
                if rep.check(bool(z), "mirror", "make_new_partition: asks Zoltan for moves", "dccrg.hpp:%d" % v.func.line, "no call"):
                    zb = z[0][1]
                    want = ("d", "e", "g") if X == "cells_to_receive" else ("h", "i", "k")
                    got = tuple(zb[k] for k in want)
                    rep.check(got == ("&" + b["n"], "&" + b["g"], "&" + b["p"]), "mirror", "make_new_partition: %s uses Zoltan's %s list" % (
                        X, "import" if X == "cells_to_receive" else "export"), n.where(), "uses %s, Zoltan fills %s" % ((b["n"], b["g"], b["p"]), got))
        order_and_tags(rep, v, "cells_to_send", "cells_to_receive")
    v = view(prog, "Dccrg", "execute_refines")
    s = v.find("cells_to_send[cell_process[mapping_rw.get_parent($c)]].push_back(std::make_pair($c, $t))")
    r = v.find("cells_to_receive[cell_process[$c]].push_back(std::make_pair($c, $t))")
    rep.check(bool(s and r), "mirror", "execute_refines: data of removed cells goes from their owner to the owner of the parent", "dccrg.hpp:%d" % v.func.line,
              "no transfer from owner to owner of the parent")
    if s and r:
        c = s[0][1]["c"]
        mine, here = eqf("cell_process[%s]" % c, "rank"), eqf("cell_process[mapping_rw.get_parent(%s)]" % c, "rank")
        dom = re.match(r"^each\((.*)\)$", c)
        dom = dom.group(1) if dom else "$d"
        rep.effect(v, "mirror", "cells_to_send[cell_process[mapping_rw.get_parent(%s)]].push_back(std::make_pair(%s, $t))" % (c, c), when=mine & ~here, loops=[dom],
                   what="removed cells are sent to the owner of their parent")
        rep.effect(v, "mirror", "cells_to_receive[cell_process[%s]].push_back(std::make_pair(%s, $t))" % (c, c), when=here & ~mine, loops=[dom],
                   what="removed cells are received by the owner of their parent")
    order_and_tags(rep, v, "cells_to_send", "cells_to_receive")
    for np, pre in ((0, ""), (1, "user_neigh_")):
        v = view(prog, "Dccrg", "recalculate_neighbor_update_send_receive_lists", np)
        H = "[arg0]" if np else ""
        order_and_tags(rep, v, pre + "cells_to_send" + H, pre + "cells_to_receive" + H)
        for d, X, recv in (("of", "receive", True), ("to", "send", False)):
            bd = "user_local_cells_on_process_boundary[arg0]" if np else "local_cells_on_process_boundary"
            lst = ("user_neigh_%s[arg0][%%s]" if np else "neighbors_%s[%%s]") % d
            for cell, dom in (("each(%s)" % bd, bd), (CD, "cell_data")):
                l = lst % cell
                if v.find("$U[cell_process[each(%s).first]].insert($x)" % l):
                    break
            n = "each(%s).first" % l
            ms = rep.effect(v, "mirror", "$U[cell_process[%s]].insert(%s)" % (n, n if recv else cell), when=~eqf("0", n) & ~eqf("cell_process[%s]" % n, "rank"),
                            loops=[dom, l], assume=success, what="cells to %s: %s" % (X, "every remote cell from which local cells are influenced" if recv else "local cells with remote cells they influence"))
            tgt = pre + "cells_to_" + X + H
            for m, b in ms[:1]:
                if b["U"] != tgt:
                    rep.effect(v, "mirror", "%s[each(%s).first].push_back(std::make_pair(each(each(%s).second), $t))" % (tgt, b["U"], b["U"]),
                               loops=[b["U"], "each(%s).second" % b["U"]], assume=success, what="%s gets exactly the collected cells" % tgt)


def callers(rep, prog):
    v = view(prog, "Dccrg", "start_user_data_transfers")
    rep.effect(v, "caller", "start_user_data_receives(arg0, arg1, arg3)", loops=[], what="a transfer receives into the given storage what is listed as incoming")
    rep.effect(v, "caller", "start_user_data_sends(arg2, arg3)", loops=[], what="a transfer sends what is listed as outgoing")
    for name, np, exp in (("continue_balance_load", None, ["start_user_data_transfers(cell_data, cells_to_receive, cells_to_send, $i)"]),
                          ("execute_refines", None, ["start_user_data_transfers(unrefined_cell_data, cells_to_receive, cells_to_send, $i)"])):
        v = view(prog, "Dccrg", name, np)
        al = v.find("start_user_data_transfers($a, $b, $c, $d)")
        if name == "continue_balance_load" and not al:
            continue
        ok = v.find(exp)
        rep.check(bool(ok) and len(ok) == len(al), "caller", "%s transfers the lists it built, incoming as incoming" % name,
                  (al[0][0].where() if al else "dccrg.hpp:%d" % v.func.line), v.txt[al[0][0].id] if al else "no transfer")
        for n, b in ok:
            rep.check(re.match(r"^-\d+$", b["i"]) is not None, "caller", "%s: same transfer id on all processes" % name, n.where(), b["i"])
    # copies of remote neighbors
    for name, kind in (("start_remote_neighbor_copy_receives", "r"), ("start_remote_neighbor_copy_sends", "s"), ("start_remote_neighbor_copy_updates", "rs"),
                       ("update_copies_of_remote_neighbors", "rs")):
        for d in (True, False):
            kw = {"default_args": (0,)} if d else {"user_args": (0,)}
            v = view(prog, "Dccrg", name, None, ["start_remote_neighbor_copy_receives", "start_remote_neighbor_copy_sends", "start_user_data_transfers",
                                                 "start_remote_neighbor_copy_updates"], **kw)
            rep.saw(v)
            asm = lambda t: True if t.startswith("has(user_") or t.startswith("start_user_data") else None
            for k, fn, args in (("r", "receives", ["remote_neighbors, cells_to_receive, arg0", "remote_neighbors, user_neigh_cells_to_receive[arg0], arg0"]),
                                ("s", "sends", ["cells_to_send, arg0", "user_neigh_cells_to_send[arg0], arg0"])):
                good = "start_user_data_%s(%s)" % (fn, args[0 if d else 1])
                alts = [good] + ([good.replace("arg0)", "dccrg::default_neighborhood_id)")] if d else [])
                if k in kind:
                    rep.effect(v, "caller", alts, loops=[], assume=asm, what="%s of the %s neighborhood are started with its own lists" % (fn, "default" if d else "asked"))
                for n, _ in v.find("start_user_data_%s($x)" % fn) + v.find("start_user_data_%s($x, $y)" % fn) + v.find("start_user_data_%s($x, $y, $z)" % fn):
                    rep.check(k in kind and v.txt[n.id] in alts, "caller", "%s: only the lists of the asked neighborhood are transferred" % name, n.where(), v.txt[n.id])


def results(rep, prog):
    known = OR(F("atom", cmp_key("==", "arg0", "dccrg::default_neighborhood_id")), A("has(user_hood_of, arg0)"))
    S, W = "start_remote_neighbor_copy_", "wait_remote_neighbor_copy_update"
    for name, own, steps in (("update_copies_of_remote_neighbors", True, [S + "updates", W + "s"]), (S + "updates", False, [S + "receives", S + "sends"]),
                             (S + "receives", True, ["start_user_data_receives"]), (S + "sends", True, ["start_user_data_sends"]),
                             (W + "s", False, [W + "_receives", W + "_sends"]), (W + "_receives", True, ["wait_user_data_transfer_receives"]),
                             (W + "_sends", False, ["wait_user_data_transfer_sends"])):
        v = view(prog, "Dccrg", name)
        rep.saw(v)
        where = "%s:%d" % (v.func.file, v.func.line)
        R = ret_formula(v)
        idle = ~A("balancing_load")
        calls = {}
        for n in v.nodes:
            if n.kind == "eff" and re.match(r"^(%s)\(" % "|".join(steps), v.txt[n.id]):
                calls.setdefault(v.txt[n.id], []).append(v.cond(n))
        for s in steps:
            rep.check(any(t.startswith(s + "(") for t in calls), "results", "%s: %s is done" % (name, s), where, "missing")
        done = AND(*[OR(~OR(*c), A(t)) for t, c in sorted(calls.items())])
        want = AND(known, done) if own else done
        ce = implies(AND(idle, want), R)
        rep.check(ce is None, "results", "%s: reports success when the neighborhood exists and every step succeeded" % name, where, "reports failure when %s" % (show(ce) if ce else ""))
        ce = implies(AND(idle, R), want)
        rep.check(ce is None, "results", "%s: reports failure when the neighborhood doesn't exist or a step failed" % name, where, "reports success when %s" % (show(ce) if ce else ""))
        if own and name[0] != "w":
            for t, c in sorted(calls.items()):
                ce = implies(AND(idle, OR(*c)), known)
                rep.check(ce is None, "results", "%s: nothing is transferred for an unknown neighborhood" % name, where, "%s is done when %s" % (t[:60], show(ce) if ce else ""))


def run(rep, prog, tier):
    results(rep, prog)
    engine(rep, prog)
    mirrored(rep, prog)
    callers(rep, prog)
