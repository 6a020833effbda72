"""Every nonblocking request is completed before its buffers or its record are
reused, every MPI datatype that is created (or received from the user
unnamed) is committed before it is used, not used after it is freed and freed
exactly once, and every opened file is closed.  A typestate analysis over the
control-flow graph of every function that creates such an object."""
from .common import *

MIN_OBLIGATIONS = 60
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["MPI and I/O calls succeed (failing paths report the failure, property C06)",
               "users of split-phase updates call the matching wait function (library contract)"]

CREATE = re.compile(r"^MPI_Type_(contiguous|create_struct|vector|create_\w+|indexed|dup)\((.*), &([^,]*(?:\[.*\])?)\)$")


def asm(t):
    v = success(t)
    if v is not None:
        return v
    if re.match(r"^[\w.]+\.(write|read)\(", t):
        return True
    return None


def named(t):
    return t.startswith("dccrg::Is_Named_Datatype(")


def base_array(t):
    """V for V[index]"""
    m = re.match(r"^(%?\w+)\[.*\]$", t)
    return m.group(1) if m else None


def cond(v, n, drop_named=False):
    c = simplify(AND(v.cond(n), v.success()), asm)
    if drop_named:
        c = simplify(c, lambda t: False if named(t) else None)
    return c


def datatypes(rep, prog, v, seen):
    q = v.func.q.split("::")[-1]
    tys = []          # (type text, node, is user type)
    for n in v.nodes:
        if n.kind != "eff":
            continue
        t = v.txt[n.id]
        m = CREATE.match(t)
        if m:
            tys.append((m.group(3), n, False))
        m = match("std::tie($a, $n, $t) = $c", t)
        if m and "mpi_datatype(" in m["c"]:
            tys.append((m["t"], n, True))
        m = match("let $x = std::get<2>($c)", t)
        if m:
            tys.append((m["x"], n, True))
        m = match("$x = std::get<2>($c)", t)
        if m and not t.startswith("let "):
            tys.append((m["x"], n, True))
    if not tys:
        return
    rep.saw(v)
    frees = {}
    for n, b in v.find("MPI_Type_free(&$x)"):
        frees.setdefault(b["x"], []).append(n)
    commits = {}
    for n, b in v.find("MPI_Type_commit(&$x)"):
        commits.setdefault(b["x"], []).append(n)
    uses = []
    for n in v.nodes:
        if n.kind != "eff":
            continue
        t = v.txt[n.id]
        for p in ("MPI_Isend($a, $n, $t, $p, $g, $c, $r)", "MPI_Irecv($a, $n, $t, $p, $g, $c, $r)", "MPI_File_set_view($f, $o, $e, $t, $n, $i)",
                  "MPI_File_read_at($f, $o, $b, $c, $t, $s)", "MPI_File_read_at_all($f, $o, $b, $c, $t, $s)",
                  "MPI_File_write_at($f, $o, $b, $c, $t, $s)", "MPI_File_write_at_all($f, $o, $b, $c, $t, $s)", "MPI_Bcast($b, $n, $t, $r, $c)"):
            b = match(p, t)
            if b:
                uses.append((b["t"], n))
        b = match("MPI_Type_create_struct($n, $c, $d, &$t[0], $o)", t)
        if b:
            uses.append((b["t"] + "[0]", n))
    done = set()
    for X, n, user in tys:
        V = base_array(X)
        # a type handed on to the caller or copied into an array is the array's
        keys = [X] + (["each(%s)" % V] if V else [])
        fr = [f for k in frees for f in frees[k] if k in keys or (V and base_array(k) == V)]
        what = "%s: datatype %s created at line %d" % (q, X, n.line)
        if not rep.check(bool(fr), "free", what + " is freed", n.where(), "never freed"):
            continue
        c = cond(v, n, True)
        cf = OR(*[cond(v, f, True) for f in fr])
        ce = implies(c, cf)
        if ce is not None and V is None or ce is not None and V is not None and not _domain_only(ce, V):
            rep.bad("free", what + " is freed on every path", fr[0].where(), "not freed when %s" % show(ce))
        else:
            rep.ok("free", what + " is freed on every path", n.where())
        if (X, user) in done:
            continue
        done.add((X, user))
        if user:
            for f in fr:
                cn = simplify(cond(v, f), lambda t: True if named(t) else None)
                rep.check(satisfiable(cn) is None, "free", "%s: predefined datatypes are not freed" % q, f.where(), "freed also when it is predefined")
        # places that store some other, possibly predefined, datatype there
        other = [(m, b) for m, b in v.find(["%s = $y" % X] + (["%s[$i] = $y" % V] if V else [])) if not v.txt[m.id].startswith("let ") and "get_cell_mpi" not in b["y"]]
        for m, b in other:
            for f in fr:
                cn = simplify(AND(cond(v, f), cond(v, m) if not V else TRUE), lambda t: True if named(t) else None)
                rep.check(satisfiable(cn) is None, "free", "%s: predefined datatypes are not freed" % q, f.where(), "freed also when it is %s (line %d)" % (b["y"], m.line))
        # use needs a commit, and no use after free
        for T, u in uses:
            same_arr = V and (T == X or base_array(T) == V or T == "each(%s)" % V)
            if T != X and not same_arr:
                continue
            constituent = v.txt[u.id].startswith("MPI_Type_create_struct")
            if not constituent:
                cm = [m for k in commits for m in commits[k] if k == T]
                cu = cond(v, u, True)
                # only where it is one of the created types
                mine = OR(*[cond(v, m, True) for Y, m, _ in tys if Y == X])
                ce = implies(AND(cu, mine), OR(*[cond(v, m, True) for m in cm]) if cm else FALSE)
                rep.check(ce is None, "commit", "%s: %s is committed before use" % (q, T), u.where(), "used uncommitted when %s" % (show(ce) if ce is not None else ""))
                if cm:
                    rep.not_after(v, "commit", cm, [u], "%s is committed before use" % T)
            rep.not_after(v, "use", [u], fr, "%s is not used after being freed" % T)
        # freed once
        for f in fr:
            makes = {m.id for Y, m, _ in tys if Y == X or (V and base_array(Y) == V)}
            heads = {l.loop.node.id for l in f.loops}
            for g in fr:
                p = ir.path_avoiding([f], lambda k: k is g, lambda k: k.id in makes or k.id in heads)
                if g is not f and p is not None and satisfiable(AND(cond(v, f), cond(v, g))) is not None:
                    rep.bad("free", "%s: %s is freed once" % (q, X), g.where(), "already freed at line %d" % f.line)
                    break
            else:
                rep.ok("free", "%s: %s is freed once" % (q, X), f.where())


def _domain_only(ce, V):
    return all(("size" in k and V in k) or "number_of_cells" in k for k in ce)


def files(rep, prog, v):
    q = v.func.q.split("::")[-1]
    for n, b in v.find("MPI_File_open($c, $n, $m, $i, &$f)"):
        f = b["f"]
        if f.startswith("%"):
            cl = [m for m, _ in v.find("MPI_File_close(&%s)" % f)]
            if rep.check(bool(cl), "file", "%s: the opened file is closed" % q, n.where(), "never closed"):
                rep.follows(v, "file", [n], cl, "the opened file is closed on every successful path")


def requests(rep, prog, v):
    q = v.func.q.split("::")[-1]
    kept = kept_requests(v)
    for fn in ("MPI_Isend", "MPI_Irecv"):
        for n, b in v.find("%s($a, $n, $t, $p, $g, $c, &$r)" % fn):
            r = b["r"]
            m = match("$R[$p].back()", r)
            if n.id in kept:
                rep.follows(v, "request", [n], [kept[n.id]], "every request is recorded")
                continue
            if m and not m["R"].startswith("%"):
                ps = [x for x, _ in v.find("%s[%s].push_back($x)" % (m["R"], m["p"])) + v.find("%s[%s].emplace_back($x)" % (m["R"], m["p"]))]
                ok = [x for x in ps if v.loops(x) == v.loops(n)]
                if rep.check(bool(ok), "request", "%s: every request gets a record of its own" % q, n.where(), "no new record for %s" % r):
                    loops = [l.loop for l in n.loops]
                    inner = {loops[-1].node.id} if loops else set()
                    start = [loops[-1].node] if loops else [v.entry]
                    p = ir.path_avoiding(start, lambda k: k is n, lambda k: k in ok)
                    rep.check(p is None, "request", "%s: every request gets a new record before it starts" % q, n.where(), "a request may overwrite the record of another")
            else:
                w = [x for x, c in v.find("MPI_Wait(&$x, $s)") if c["x"] == r] + [x for x, c in v.find("MPI_Waitall($n, $x, $s)")]
                if rep.check(bool(w), "request", "%s: the request %s is waited for" % (q, r), n.where(), "no wait"):
                    rep.follows(v, "request", [n], w, "the request %s is waited for on every path" % r)


def waits(rep, prog):
    for name, R in (("wait_user_data_transfer_receives", "receive_requests"), ("wait_user_data_transfer_sends", "send_requests")):
        v = view(prog, "Dccrg", name)
        L = "each(%s).second" % R
        em = lambda t: False if t == "empty(%s)" % L else asm(t)
        w = rep.effect(v, "wait", "MPI_Waitall(%s.size(), &%s[0], $s)" % (L, L), loops=[R], assume=em, what="all requests of every peer are completed")
        cl = rep.effect(v, "wait", "%s.clear()" % R, loops=[], assume=em, what="the records are dropped")
        if w and cl:
            rep.not_after(v, "wait", [n for n, _ in w], [n for n, _ in cl], "records are dropped only after completion")
    # nobody else drops or overwrites records
    for f in prog.funcs:
        if f.cls is None or not f.cls.endswith("Dccrg") or not f.body or f.name in ("Dccrg", "~Dccrg"):
            continue
        v = _own(prog, f)
        for R in ("receive_requests", "send_requests"):
            for n in v.writes(R):
                t = v.txt[n.id]
                good = re.match(r"^%s\[[^;]*\]\.(push_back|emplace_back|reserve)\(" % R, t) or (t == R + ".clear()" and v.find("MPI_Waitall($a, $b, $c)")) or \
                    re.match(r"^MPI_(Isend|Irecv|Waitall)\(", t) or re.match(r"^%\w+ = MPI_", t) or re.match(r"^%s\.(reserve|rehash)\(" % R, t)
                rep.check(bool(good), "wait", "records of running requests change only when starting and completing them", n.where(), "%s: %s" % (f.name, t))


_ownv = {}


def _own(prog, f):
    k = (id(prog), f.id)
    if k not in _ownv:
        _ownv[k] = View(prog, f)
    return _ownv[k]


def phases(rep, prog):
    for name in ("execute_refines", "continue_balance_load"):
        v = view(prog, "Dccrg", name)
        st = [n for n, _ in v.find("start_user_data_transfers($a, $b, $c, $d)")]
        if not st:
            if name == "continue_balance_load":
                continue
            rep.bad("phase", "%s transfers data" % name, "dccrg.hpp:%d" % v.func.line, "no transfer")
            continue
        for what, call in (("incoming", "wait_user_data_transfer_receives()"), ("outgoing", "wait_user_data_transfer_sends()")):
            w = [n for n, _ in v.find(call)]
            if rep.check(bool(w), "phase", "%s: %s data is waited for" % (name, what), st[0].where(), "no wait"):
                rep.follows(v, "phase", st, w, "%s data is waited for on every path" % what)
                ids = {n.id for n in w}
                pats = ["cell_data.erase($x)", "cell_data.clear()", "cells_to_send.clear()", "removed_cells.clear()"] if what == "outgoing" else \
                    ["unrefined_cell_data.erase($x)", "unrefined_cell_data.clear()", "cells_to_receive.clear()", "cell_data.erase($x)", "cell_data.clear()"]
                for m, _ in v.find(pats):
                    p = ir.path_avoiding(st, lambda k: k is m, lambda k: k.id in ids)
                    rep.check(p is None, "phase", "%s: buffers live until %s data has been transferred" % (name, what), m.where(), "%s while transfers run" % v.txt[m.id])
    v = view(prog, "Dccrg", "update_copies_of_remote_neighbors")
    st = [n for n, _ in v.find(["start_remote_neighbor_copy_updates($x)"])]
    w = [n for n, _ in v.find(["wait_remote_neighbor_copy_updates($x)"])]
    if st or w:
        if rep.check(bool(st and w), "phase", "update_copies_of_remote_neighbors starts and completes transfers", "dccrg.hpp:%d" % v.func.line, "start or wait missing"):
            rep.follows(v, "phase", st, w, "a blocking update waits for its transfers")
    for d in ("default_args", "user_args"):
        v = view(prog, "Dccrg", "update_copies_of_remote_neighbors", None,
                 ["start_remote_neighbor_copy_updates", "wait_remote_neighbor_copy_updates", "start_remote_neighbor_copy_receives", "start_remote_neighbor_copy_sends",
                  "wait_remote_neighbor_copy_update_receives", "wait_remote_neighbor_copy_update_sends", "start_user_data_transfers"], **{d: (0,)})
        for a, b in (("start_user_data_receives($a, $b, $c)", "wait_user_data_transfer_receives()"), ("start_user_data_sends($a, $b)", "wait_user_data_transfer_sends()")):
            x, y = [n for n, _ in v.find(a)], [n for n, _ in v.find(b)]
            if rep.check(bool(x and y), "phase", "update_copies_of_remote_neighbors: %s is completed by %s" % (a.split("(")[0], b), "dccrg.hpp:%d" % v.func.line, "missing"):
                rep.follows(v, "phase", x, y, "%s is completed" % a.split("(")[0])
    for name, call in (("wait_remote_neighbor_copy_update_receives", "wait_user_data_transfer_receives()"), ("wait_remote_neighbor_copy_update_sends", "wait_user_data_transfer_sends()")):
        for f in prog.find("Dccrg", name):
            kw = {"user_args": (0,)} if f.params else {}
            v = view(prog, "Dccrg", name, len(f.params), **kw)
            rep.effect(v, "phase", call, loops=[], what="waiting waits", assume=lambda t: True if t.startswith("has(user_") else asm(t))
    v = view(prog, "Dccrg", "wait_remote_neighbor_copy_updates", None, ["wait_remote_neighbor_copy_update_receives", "wait_remote_neighbor_copy_update_sends"], user_args=(0,))
    for call in ("wait_user_data_transfer_receives()", "wait_user_data_transfer_sends()"):
        rep.effect(v, "phase", call, loops=[], what="both directions are waited for", assume=lambda t: True if t.startswith("has(user_") else asm(t))
    v = view(prog, "Dccrg", "load_grid_data")
    a, b = [n for n, _ in v.find("start_loading_grid_data($a, $b, $c, $d, $e, $f, $g)")], [n for n, _ in v.find("finish_loading_grid_data()")]
    if a or b:
        rep.follows(v, "file", a, b, "a loaded file is closed")
    v = view(prog, "Dccrg", "finish_loading_grid_data")
    rep.effect(v, "file", "MPI_File_close(&grid_data_file)", loops=[], assume=asm, what="finishing closes the file")


def run(rep, prog, tier):
    seen = set()
    for f in prog.funcs:
        if not f.body or f.file in ("main.cpp",) or f.sig in seen or f.name in ("get_cell_mpi_datatype", "get_mpi_datatype"):
            continue
        seen.add(f.sig)
        v = _own(prog, f)
        datatypes(rep, prog, v, seen)
        files(rep, prog, v)
        requests(rep, prog, v)
    waits(rep, prog)
    phases(rep, prog)
