"""Saved files: what is written, where, and how it is read back."""
from .common import *
from affine import *

MIN_OBLIGATIONS = 60
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
COMPONENTS = ["Mapping", "Grid_Topology", "No_Geometry", "Cartesian_Geometry", "Stretched_Cartesian_Geometry"]
IO = re.compile(r"^MPI_File_(read|write)(_at)?(_all)?$")


def lib_ok(text):
    """library calls succeed"""
    if re.match(r"^exists\(.*\(0 [!=]= %\w+\)", text) and "!=" in text:
        return False
    if re.match(r"^\(0 == %\w+\)$", text):
        return None
    return None


# ------------------------------------------------------------------ components
def short_names(s):
    """names of parameter containers without the object they belong to"""
    s = re.sub(r"%?[\w.]*\bcoordinates\[each\(0\.\.(3|[%\w.]*coordinates\.size\(\))\)\]", "each(coordinates)", s)
    s = re.sub(r"each\(0\.\.(3|[%\w.]*coordinates\.size\(\))\)", "each(coordinates#)", s)
    s = re.sub(r"each\([%\w.]*\bcoordinates\)", "each(coordinates)", s)
    s = re.sub(r"^[%\w.]*\bcoordinates$", "coordinates", s)
    s = re.sub(r"^0\.\.(3|[%\w.]*coordinates\.size\(\))$", "coordinates", s)
    return s


class Item:
    def __init__(self, node, loops, pos, count, tname, bytes_, buf, maybe):
        self.node, self.loops, self.pos, self.count, self.tname, self.bytes, self.buf, self.maybe = node, loops, pos, count, tname, bytes_, buf, maybe

    def __str__(self):
        return "%s bytes (%s) at %s in loops %s" % (self.bytes, self.tname, self.pos, self.loops)


def buffer_root(e):
    while e[0] in ("addr", "cast", "[]", ".", "deref") or e[0] == "call" and e[1] in ("data", "begin", "front", "get") and e[2] is not None:
        e = e[2] if e[0] == "call" else e[1] if e[0] != "cast" else e[-1]
    return e


def buffer_member(e):
    """name of the member in which the buffer lies, if it is one"""
    last = None
    while e[0] in ("addr", "cast", "[]", ".", "deref") or e[0] == "call" and e[1] in ("data", "begin", "front") and e[2] is not None:
        if e[0] == "." and last is None:
            last = e[2]
        e = e[2] if e[0] == "call" else e[1] if e[0] != "cast" else e[-1]
    return last


def layout(view, assume, stream=False, extra=()):
    """items in order: position, size, type and buffer"""
    items = []

    def hook(tr, n, e):
        maybe = tr.log[-1][1] is None
        loops = [tr.norm(x) for x in view.loops(n)]
        if e[0] == "call" and e[1] and IO.match(e[1]) and len(e[3]) >= 6:
            a = e[3]
            name, sz = mpi_size(a[4])
            cnt = tr.ev(a[3])
            items.append(Item(n, loops, tr.ev(a[1]), cnt, name or pr(a[4]), cnt.scale(sz) if sz else cnt * Poly.atom("TYPESIZE(%s)" % tr.text(a[4])), a[2], maybe))
        elif stream and e[0] in ("mut", "call") and e[1] == "read" and e[2] is not None and len(e[3]) == 2 and pr(e[2]) == "arg0":
            items.append(Item(n, loops, None, None, None, tr.ev(e[3][1]), e[3][0], maybe))
        elif e[0] == "call" and e[1] in extra and e[2] is not None and len(e[3]) == 2:
            items.append(Item(n, loops, tr.ev(e[3][1]), None, pr(e[2]), Poly.atom("data_size(%s)" % pr(e[2])), None, maybe))
        elif e[0] == "mut" and e[1] in extra and len(e[3]) == 2:
            items.append(Item(n, loops, tr.ev(e[3][1]), None, pr(e[2]), Poly.atom("data_size(%s)" % pr(e[2])), None, maybe))
    tr = Trace(view, assume, hook, short_names)
    # the effect of an item in a loop is seen twice (two passes)
    seen, out = set(), []
    for it in reversed(items):
        if it.node.id not in seen:
            seen.add(it.node.id)
            out.append(it)
    return tr, out[::-1]


def provides(view, buf, tr):
    """a buffer that holds the number of coordinates of every dimension"""
    t = pr(buf)
    if re.search(r"coordinates\[0\]\.size\(\).*coordinates\[1\]\.size\(\).*coordinates\[2\]\.size\(\)", t):
        return True
    r = buffer_root(buf)
    for n in view.nodes:
        if n.kind == "eff" and n.eff[0] == "init" and n.eff[1] == r and re.search(r"coordinates\[0\]\.size\(\).*coordinates\[1\]\.size\(\).*coordinates\[2\]\.size\(\)", pr(n.eff[2])):
            return True
        if n.kind == "eff" and n.eff[0] == "asg" and n.eff[1] == "=" and n.eff[2][0] == "[]" and n.eff[2][1] == r and short_names(pr(n.eff[3])) == "each(coordinates).size()":
            return True
    return False


def contiguous(rep, what, items, view, start):
    total = Poly()
    for it in items:
        if it.pos is not None:
            exp = start + total
            if it.loops:
                exp = exp + Poly.atom("PRE[%s]{%s}" % (it.loops[-1], it.bytes))
            rep.check(it.pos == exp, "items follow each other without gap or overlap", "%s: %s" % (what, it.bytes), it.node.where(),
                      "item is at %s but the items before it end at %s" % (it.pos, exp))
        total = total + (Poly.atom("SUM[%s]{%s}" % (it.loops[-1], it.bytes)) if it.loops else it.bytes)
    return total


def good_stream(text):
    if re.search(r"\barg0\.(good|operator bool)\(\)", text):
        return True
    if re.search(r"\barg0\.(fail|bad|eof)\(\)", text):
        return False
    if re.match(r"^set(_\w+)?\(", text):
        return True
    if re.search(r"geometry_id", text) and "==" in text:
        return True
    return lib_ok(text)


def component(rep, prog, cls):
    w = view(prog, cls, "write", 2)
    rep.saw(w)
    trw, wi = layout(w, good_stream)
    rep.check(bool(wi) and not any(i.maybe for i in wi), "every item is written always", "%s::write" % cls, w.func.where if hasattr(w.func, "where") else "", "%s items, conditional: %s" % (len(wi), [str(i) for i in wi if i.maybe]))
    total = contiguous(rep, "%s::write" % cls, wi, w, Poly.atom("arg1"))
    ds = view(prog, cls, "data_size", 0)
    rep.saw(ds)
    trd = Trace(ds, lib_ok, None, short_names)
    rets = [n for n in ds.nodes if n.kind == "ret" and n.frame is ds.L.frame]
    size = trd.ev(rets[-1].eff[1]) if rets else None
    rep.check(size == total, "announced size is the size written", "%s::data_size" % cls, rets[-1].where() if rets else "", "announces %s, writes %s" % (size, total))
    readers = [f for f in prog.find(cls, "read") if f.body]
    rep.check(len(readers) >= 1, "a written component can be read", cls)
    for f in readers:
        stream = len(f.params) == 1
        r = view(prog, cls, "read", len(f.params))
        rep.saw(r)
        name = "%s::read(%s)" % (cls, "stream" if stream else "MPI file")
        trr, ri = layout(r, good_stream, stream)
        # sizes read from the file stand for the sizes written there
        known = {}
        for a, b in zip(wi, ri):
            if provides(w, a.buf, trw):
                known[pr(buffer_root(b.buf))] = True

        def ren(p):
            def f(a):
                for k in known:
                    if a == "%s[each(coordinates#)]" % k:
                        return Poly.atom("each(coordinates).size()")
                m = re.match(r"^(PRE|SUM)\[(.*)\]\{(.*)\}$", a)
                if m:
                    body = m.group(3)
                    for k in known:
                        body = body.replace("%s[each(coordinates#)]" % k, "each(coordinates).size()")
                    return Poly.atom("%s[%s]{%s}" % (m.group(1), m.group(2), body))
                return None
            return p.subst(f)
        for it in ri:
            it.bytes = ren(it.bytes)
            it.pos = ren(it.pos) if it.pos is not None else None
        rep.check(len(ri) == len(wi) and not any(i.maybe for i in ri), "as many items are read as written", name, "", "%d read, %d written, conditional %s" % (len(ri), len(wi), [str(i) for i in ri if i.maybe]))
        for k, (a, b) in enumerate(zip(wi, ri)):
            rep.check(a.bytes == b.bytes and a.loops == b.loops and (b.tname is None or a.tname == b.tname), "items are read as they were written", "%s item %d" % (name, k), b.node.where(), "written: %s; read: %s" % (a, b))
            ma, mb = buffer_member(a.buf), buffer_member(b.buf)
            if ma and mb:
                rep.check(ma == mb, "items are read into the member they were written from", "%s item %d" % (name, k), b.node.where(), "written from %s, read into %s" % (ma, mb))
        contiguous(rep, name, ri, r, Poly.atom("arg1"))
        consumed(rep, cls, name, w, r, wi, ri)


def consumed(rep, cls, name, w, r, wi, ri):
    """what was read becomes the state"""
    roots = [pr(buffer_root(i.buf)) for i in ri]
    succ = simplify(r.success(), lib_ok)

    def need(pat, k, what):
        ns = [x[0] for x in r.find([pat])]
        good = [n for n in ns if n.id > ri[k].node.id] if k < len(ri) else []
        rep.check(bool(good), "read values are used", "%s: %s" % (name, what), r.nodes[0].where(), "no %s after item %d is read" % (pat, k))
        if good:
            # success implies the setter ran and accepted the values
            m = implies(succ, F("atom", r.txt[good[0].id])) is None
            loops = good[0].loops
            if not loops:
                rep.check(bool(m), "success is reported only when the values were accepted", "%s: %s" % (name, what), good[0].where(), "success: %s" % succ)
    if cls == "Mapping":
        if len(roots) == 2:
            need("set_length(%s)" % roots[0], 0, "length")
            need("set_maximum_refinement_level(%s)" % roots[1], 1, "maximum refinement level")
            rep.check("length_rw.get()" in source(w, wi[0].buf), "the written item is the state", "Mapping::write length", wi[0].node.where(), pr(wi[0].buf))
            rep.check("max_refinement_level" in source(w, wi[1].buf), "the written item is the state", "Mapping::write maximum refinement level", wi[1].node.where(), pr(wi[1].buf))
    elif cls == "Grid_Topology":
        b = roots[0]
        ns = [n for n in r.nodes if n.kind == "eff" and r.txt[n.id].startswith("set_periodicity(")]
        rep.check(bool(ns), "read values are used", name, "", "set_periodicity is not called")
        for n in ns:
            m = re.match(r"^set_periodicity\((.+), (.+)\)$", r.txt[n.id])
            i, e = m.group(1), m.group(2)
            elem = "%s[%s]" % (b, i)
            want = ("(0 < %s)" % elem, "(0 != %s)" % elem, elem, "!(%s == 0)" % elem, "(1 == %s)" % elem, "(%s != 0)" % elem, "!(0 == %s)" % elem)
            forms = e in want
            cond = simplify(r.cond(n), good_stream)
            if e in ("true", "false"):
                forms = any(str(cond) in ("(%s)" % x, x) for x in want) == (e == "true")
            rep.check(forms, "periodicity of a dimension is taken from its own byte", name, n.where(), r.txt[n.id])
            if not n.loops and not re.match(r"^\d$", i):
                rep.bad("all three dimensions are read", name, n.where(), r.txt[n.id])
        idx = {re.match(r"^set_periodicity\((.+?), ", r.txt[n.id]).group(1) for n in ns}
        rep.check({"0", "1", "2"} <= idx or any("each(" in i for i in idx) and all(n.loops and pr(n.loops[-1].dom) in ("periodic", "0..3", b, "%s" % b) for n in ns), "all three dimensions are read", name, "", str(sorted(idx)))
        # writer: byte i tells whether dimension i is periodic
        wr = buffer_root(wi[0].buf)
        ws = [n for n in w.nodes if n.kind == "eff" and n.eff[0] == "asg" and n.eff[2][0] == "[]" and n.eff[2][1] == wr]
        lit = [n for n in w.nodes if n.kind == "eff" and n.eff[0] == "init" and n.eff[1] == wr]
        cover = set()
        for n in ws:
            i = pr(n.eff[2][2])
            c = simplify(w.cond(n), good_stream)
            val = pr(n.eff[3])
            per = [a for a in (c.atoms() | {val}) if re.match(r"^(is_periodic\(%s\)|periodic\[%s\])$" % (re.escape(i), re.escape(i)), a)]
            fine = bool(per) and (val == per[0] or val != "0" and str(c) in (per[0], "(%s)" % per[0]) or val == "0" and str(c) in ("!%s" % per[0], "(!%s)" % per[0]) or
                                  re.match(r"^\(%s \? [1-9]\d* : 0\)$" % re.escape(per[0]), val) is not None)
            if not fine and re.match(r"^\((is_periodic\(%s\)|periodic\[%s\]) \? [1-9]\d* : 0\)$" % (re.escape(i), re.escape(i)), val):
                fine = True
            rep.check(fine, "byte of a dimension says whether it is periodic", "Grid_Topology::write [%s]" % i, n.where(), "%s if %s" % (w.txt[n.id], c))
            cover.add(i)
        rep.check({"0", "1", "2"} <= cover or any("each(" in c for c in cover) or lit and not ws and all("periodic" in pr(lit[0].eff[2]) for _ in (0,)), "all three dimensions are written", "Grid_Topology::write", "", str(sorted(cover)))
    else:
        gid = "dccrg::%s::geometry_id" % cls
        rep.check(gid in source(w, wi[0].buf), "a geometry is identified in the file", "%s::write" % cls, wi[0].node.where(), source(w, wi[0].buf))
        rep.check(bool(roots) and implies(succ, F("atom", cmp_key("==", roots[0], gid))) is None, "a file of another geometry is refused", name, "", "success: %s" % succ)
        if len(ri) > 1:
            need("set(%s)" % roots[-1], len(ri) - 1, "parameters")


def source(v, e):
    """text of an expression, a plain variable replaced by its initial value"""
    r = buffer_root(e)
    for n in v.nodes:
        if n.kind == "eff" and n.eff[0] == "init" and n.eff[1] == r:
            return pr(n.eff[2])
    return pr(e)


# ------------------------------------------------------------------- whole grid
class Names:
    """local variables that hold cells, addresses, counts and datatypes,
    recognised by how they are filled"""
    def __init__(self, v):
        self.N, self.IDX, self.cell, self.addresses, self.counts, self.types, self.dom = "%?", "?", "?", "?", "?", "?", "?"
        for n, env in v.find(["dccrg::detail::get_cell_mpi_datatype(cell_data[$c], $c, $s, $t, $u, $h)"], kinds=("eff", "pcall")):
            if not n.loops:
                continue
            d = pr(n.loops[-1].dom)
            self.dom = d
            self.N = d[3:] if d.startswith("0..") else d + ".size()"
            self.IDX = "each(0..%s)" % self.N
            self.cell = env["c"]
        e = r"\[%s\]" % re.escape(self.IDX)
        for n in v.nodes:
            t = v.txt.get(n.id, "")
            m = re.match(r"^std::tie\((%%\w+)%s, (%%\w+)%s, (%%\w+)%s\) = dccrg::detail::get_cell_mpi_datatype" % (e, e, e), t)
            if m:
                self.addresses, self.counts, self.types = m.groups()
            m = re.match(r"^(%%\w+)%s = std::get<(\d)>\((.*)\)$" % e, t)
            if m:
                setattr(self, ("addresses", "counts", "types")[int(m.group(2))], m.group(1))


def scenario(r0, info, ids, offs, N="%number_of_cells"):
    def f(text):
        if text == "arg4":
            return info
        if text == "arg5":
            return ids
        if text == "arg6":
            return offs
        if text == cmp_key("==", "0", "rank"):
            return r0
        if re.search(r"_rw\.(write|read)\(", text):
            return not text.startswith("(0 ==")
        if re.match(r"^initialize_\w+\(", text) or re.match(r"^load_cells\(", text):
            return True
        if re.match(r"^\(%\w+ == 1311768467294899695\)$|^\(1311768467294899695 == %\w+\)$", text):
            return True
        if text == cmp_key("==", N, "0"):
            return False
        if text == "(0 < %s)" % N:
            return True
        if text.startswith("exists(") and "(0 != %" in text:
            return False
        return None
    return f


class GridTrace:
    """items, list entries and links between variables along one scenario"""
    def __init__(self, v, assume, bcast=None):
        self.items, self.bcasts, self.gathers, self.entries, self.vals = [], [], {}, [], {}
        self.structs, self.views, self.contig = {}, [], {}
        given = list(bcast or [])
        first = []

        def hook(tr, n, e):
            maybe = tr.log[-1][1] is None
            if e[0] == "call" and e[1] == "MPI_Bcast" and e[3][0][0] == "addr":
                key = e[3][0][1]
                if bcast is None:
                    self.bcasts.append((n, tr.ev(key), pr(e[3][1]), pr(e[3][2])))
                else:
                    k = len(self.bcasts)
                    self.bcasts.append((n, None, pr(e[3][1]), pr(e[3][2])))
                    tr.env[key] = given[k][1] if k < len(given) else Poly.atom("?bcast")
            elif e[0] == "call" and e[1] == "MPI_Allgather":
                a = e[3]
                self.gathers[pr(buffer_root(a[3]))] = (tr.ev(a[0][1]) if a[0][0] == "addr" else None, pr(buffer_root(a[0])), n)
            elif e[0] == "call" and e[1] and IO.match(e[1]) and len(e[3]) >= 6:
                a = e[3]
                name, sz = mpi_size(a[4])
                cnt = tr.ev(a[3])
                self.items.append(Item(n, v.loops(n), tr.ev(a[1]), cnt, name or "?", cnt.scale(sz) if sz else cnt * Poly.atom("TYPESIZE(%s)" % pr(a[4])), a[2], maybe))
                self.items[-1].type = a[4]
            elif e[0] in ("call", "mut") and e[1] in ("write", "read") and e[2] is not None and len(e[3]) == 2 and re.match(r"^\w+_rw$", pr(e[2])):
                self.items.append(Item(n, v.loops(n), tr.ev(e[3][1]), None, pr(e[2]), Poly.atom("%s.data_size()" % pr(e[2])), None, maybe))
            elif e[0] == "asg" and e[1] == "=" and e[2][0] == "[]":
                self.entries.append((n, e[2], tr.ev(e[3]), e[3], maybe, tr.ev(e[2][2])))
            elif e[0] == "call" and e[1] == "MPI_Type_create_struct":
                a = e[3]
                self.structs[pr(a[4][1])] = [pr(buffer_root(x)) if k else pr(x) for k, x in enumerate(a[:4])] + [n, [v for key, v in tr.env.items() if key[0] == "[]" and key[1] == buffer_root(a[2])]]
            elif e[0] == "call" and e[1] == "MPI_File_set_view":
                self.views.append((n, pr(e[3][1]), pr(e[3][2]), pr(e[3][3]), pr(e[3][4])))
            elif e[0] == "call" and e[1] == "MPI_Type_contiguous" and e[3][2][0] == "addr":
                self.contig[pr(buffer_root(e[3][2]))] = (tr.ev(e[3][0]), pr(e[3][1]), n)
        self.tr = Trace(v, assume, hook)
        seen, out = set(), []
        for it in reversed(self.items):
            if it.node.id not in seen:
                seen.add(it.node.id)
                out.append(it)
        self.items = out[::-1]
        seen, out = set(), []
        for x in reversed(self.entries):
            if x[0].id not in seen:
                seen.add(x[0].id)
                out.append(x)
        self.entries = out[::-1]


def grid(rep, prog):
    w = view(prog, "Dccrg", "save_grid_data")
    r = view(prog, "Dccrg", "start_loading_grid_data")
    c = view(prog, "Dccrg", "continue_loading_grid_data")
    for x in (w, r, c):
        rep.saw(x)
    A1 = Poly.atom("arg1")
    nw, nc = Names(w), Names(c)
    for x, nm in ((w, nw), (c, nc)):
        rep.check("?" not in (nm.IDX, nm.counts, nm.addresses, nm.types), "cells tell what to save or load", x.func.name, "", "addresses %s, counts %s, datatypes %s" % (nm.addresses, nm.counts, nm.types))
    R = GridTrace(r, scenario(True, True, True, True))
    meta_w = None
    for info in (True, False):
        for ids in (True, False):
            for offs in (True, False):
                base = GridTrace(w, scenario(True, info, ids, offs, nw.N))
                other = GridTrace(w, scenario(False, info, ids, offs, nw.N), base.bcasts)
                what = "save_grid_data(grid info %s, ids %s, offsets %s)" % (info, ids, offs)
                rep.check(len(base.bcasts) == len(other.bcasts), "all processes learn the size of the header", what)
                lst = [i for i in base.items if i.tname == "uint64_t" and "SUM[0..rank]" in str(i.pos) or i.node.eff[1] == "MPI_File_write_at_all" and i.tname == "uint64_t"]
                if len(lst) != 1:
                    rep.bad("the list of cells is written by every process", what, "", "%d collective writes of the list" % len(lst))
                    continue
                li = lst[0]
                k = base.items.index(li)
                head = base.items[:k]
                rep.check(not any(i.maybe for i in head), "every item of the file is written always", what, "", str([str(i) for i in head if i.maybe]))
                end = A1 + contiguous(rep, what, head, w, A1)
                # every process places its part relative to the same end
                width = int(ids) + int(offs)
                mine = {n: g for n, g in base.gathers.items()}
                cells = [n for n, g in mine.items() if g[1] == nw.N]
                data = [n for n, g in mine.items() if n not in cells]
                for t, who in ((base, "process 0"), (other, "others")):
                    l2 = [i for i in t.items if i.node.id == li.node.id]
                    if not l2:
                        rep.bad("the list of cells is written by every process", what, li.node.where(), who)
                        continue
                    l2 = l2[0]
                    if not cells:
                        rep.bad("positions account for the cells of lower processes", what, li.node.where(), "numbers of cells are not gathered")
                        continue
                    exp = end
                    if width:
                        exp = end + Poly.atom("SUM[0..rank]{%s}" % Poly.atom("%s[each(0..rank)]" % cells[0]).scale(8 * width))
                    rep.check(l2.pos == exp, "the list of a process starts where those of lower processes end", what + ", " + who, l2.node.where(), "at %s, expected %s" % (l2.pos, exp))
                    N = t.tr.env.get(next((x for x in t.tr.env if pr(x) == nw.N), None), Poly.atom(nw.N))
                    rep.check(l2.bytes == N.scale(8 * width), "the list has one entry of the announced size for every cell", what + ", " + who, l2.node.where(), "%s bytes, expected %s" % (l2.bytes, N.scale(8 * width)))
                    # entries
                    buf = pr(buffer_root(l2.buf))
                    ent = [(str(e[5]), e) for e in t.entries if pr(e[1][1]) == buf]
                    IDX = nw.IDX
                    want = {}
                    if ids and offs:
                        want = {str(Poly.atom(IDX).scale(2)): "id", str(Poly.atom(IDX).scale(2) + Poly.const(1)): "off"}
                    elif ids:
                        want = {str(Poly.atom(IDX)): "id"}
                    elif offs:
                        want = {str(Poly.atom(IDX)): "off"}
                    rep.check({x for x, _ in ent} == set(want), "the list holds id and position of every cell", what + ", " + who, l2.node.where(), "entries written: %s" % sorted(x for x, _ in ent))
                    fdname = None
                    for x, e in ent:
                        kind = want.get(x)
                        if kind == "id":
                            rep.check(pr(e[3]) == nw.cell, "the id of the cell is listed", what + ", " + who, e[0].where(), pr(e[3]))
                        elif kind == "off":
                            offset_value(rep, what + ", " + who, t, e, end, width, data, nw)
                            fdname = pr(e[3][1]) if e[3][0] == "[]" else None
                    cell_io(rep, what + ", " + who, t, fdname, nw)
                    for vw in t.views:
                        st = t.structs.get(vw[3])
                        if st is None:
                            continue
                        rep.check(len(st[5]) == 1, "positions of cell data in the file are known", what + ", " + who, st[4].where(), str([str(x) for x in st[5]]))
                        for val in st[5]:
                            offset_value(rep, what + ", " + who + ", file view", t, (st[4], None, val), end, width, data, nw)
                if info and ids and offs:
                    meta_w = (base, head, end, li)
    if meta_w is None:
        return
    base, head, end, li = meta_w
    # the loader reads the same items
    ri = R.items
    rep.check(len(ri) == len(head) + 1, "the loader reads every item that was written", "start_loading_grid_data", "", "%d items read, %d written" % (len(ri), len(head) + 1))
    contiguous(rep, "start_loading_grid_data", ri, r, A1)
    for k, (a, b) in enumerate(zip(head + [li], ri)):
        what = "item %d (%s)" % (k, a.bytes)
        if k == len(head):
            rep.check(re.match(r"^2\*|^16\*", str(b.bytes)) is not None and len(b.bytes.t) == 1 and list(b.bytes.t.values())[0] == 16, "the loader reads the whole list of cells", what, b.node.where(), str(b.bytes))
            atoms = b.bytes.atoms()
            prev = pr(buffer_root(ri[k - 1].buf)) if ri[k - 1].buf else None
            rep.check(prev in atoms, "the loader reads as many list entries as the file announces", what, b.node.where(), "%s, announced number in %s" % (b.bytes, prev))
        else:
            rep.check(a.bytes == b.bytes and a.tname == b.tname and not b.maybe, "items are read as they were written", what, b.node.where(), "written: %s; read: %s" % (a, b))
    # endianness and neighborhood length
    for n, pat in (("endianness", 1311768467294899695),):
        e = head[1]
        rep.check(str(pat) in source(w, e.buf), "the endianness mark is written", "save_grid_data", e.node.where(), source(w, e.buf))
        succ = r.success()
        rep.check(implies(succ, F("atom", cmp_key("==", pr(buffer_root(ri[1].buf)), str(pat)))) is None, "a file of other endianness is refused", "start_loading_grid_data", ri[1].node.where())
    nl = [i for i in head if i.buf is not None and pr(i.buf) == "&neighborhood_length"]
    rep.check(len(nl) == 1, "the size of the neighborhood is written", "save_grid_data")
    if nl:
        b = ri[head.index(nl[0])]
        var = pr(buffer_root(b.buf))
        ok = var == "neighborhood_length" or bool(r.find(["neighborhood_length = %s" % var]))
        rep.check(ok, "the size of the neighborhood is restored", "start_loading_grid_data", b.node.where(), var)
        if ok and var != "neighborhood_length":
            rep.precedes(r, "the size of the neighborhood is restored before it is used", [x[0] for x in r.find(["neighborhood_length = %s" % var])], [x[0] for x in r.find(["initialize_neighborhoods()"])], "start_loading_grid_data")
    # local part of the list
    buf = pr(buffer_root(ri[-1].buf))
    ps = r.find(["cells_and_data_displacements.push_back(std::make_pair($a, $b))", "cells_and_data_displacements.emplace_back($a, $b)"])
    rep.check(len(ps) == 1, "cells of this process and their positions are kept", "start_loading_grid_data", "", "%d sites" % len(ps))
    for n, env in ps:
        m = re.match(r"^%s\[(.*)\]$" % re.escape(buf), env["a"])
        i = m.group(1) if m else None
        nexts = ("%s[(%s + 1)]" % (buf, i), "%s[(1 + %s)]" % (buf, i))
        rep.check(m is not None and env["b"] in nexts, "an id is paired with the position listed after it", "start_loading_grid_data", n.where(), "%s with %s" % (env["a"], env["b"]))
        strided = i is not None and (("* 2)" in i and "each(" in i) or any(r.txt.get(x.id) == "%s += 2" % i and [l.loop for l in x.loops] == [l.loop for l in n.loops] for x in r.nodes))
        rep.check(strided, "every second entry of the list is an id", "start_loading_grid_data", n.where(), str(i))
        cnd = simplify(r.cond(n), scenario(True, True, True, True))
        own = [a for a in cnd.atoms() if "cell_process" in a or "get_process(" in a or "cell_data" in a or "is_local(" in a or "cell_overlaps_local(" in a]
        rep.check(bool(own) and env["a"] in " ".join(own), "a process keeps the cells it owns", "start_loading_grid_data", n.where(), str(cnd))
    T = GridTrace(c, scenario(True, True, True, True, nc.N))
    fd = None
    for n, lhs, val, e, maybe, _ in T.entries:
        if pr(e) == "cells_and_data_displacements[%s].second" % nc.IDX:
            fd = pr(lhs[1])
    rep.check(fd is not None, "data of a cell is read from its listed position", "continue_loading_grid_data")
    cell_io(rep, "continue_loading_grid_data", T, fd, nc)
    # repeated calls continue where the previous one ended
    adv = c.find(["cells_and_data_displacements[$i].second += $e", "each(cells_and_data_displacements).second += $e"])
    rep.check(len(adv) == 1, "a further call continues after the data read", "continue_loading_grid_data", "", "%d sites" % len(adv))
    for n, env in adv:
        raw = n.eff[3]
        p = T.tr.ev(raw)
        rep.check(sorted(p.atoms()) == sorted(["%s[%s]" % (nc.counts, nc.IDX)] + [a for a in p.atoms() if a.startswith("TYPESIZE(%")]) and list(p.t.values()) == [1] and len(p.atoms()) == 2, "a further call continues after the data read", "continue_loading_grid_data", n.where(), str(p))
    # arguments that tell cells about the transfer
    for v, args in ((w, ("rank", "-1", "false", "-1")), (c, ("-1", "rank", "true", "-1"))):
        ns = v.find(["dccrg::detail::get_cell_mpi_datatype(cell_data[$c], $c, $s, $t, $u, $h)"], kinds=("eff", "pcall"))
        rep.check(bool(ns), "cells tell what to save or load", v.func.name)
        for n, env in ns:
            rep.check((env["s"], env["t"], env["u"], env["h"]) == args, "cells are told the direction of the transfer", v.func.name, n.where(), str(env))


def offset_value(rep, what, t, e, end, width, data, nm):
    """listed position of a cell: start of the data of its process plus the
    data of the cells before it"""
    val = e[2]
    rest = val - end
    sums = [a for a in rest.atoms() if a.startswith("SUM[0..rank]{")]
    pre = [a for a in rest.atoms() if a.startswith("PRE[%s]{" % nm.dom)]
    other = {k: x for k, x in rest.t.items() if not (len(k) == 1 and (k[0] in sums or k[0] in pre))}
    tot = Poly(other)
    a = list(tot.atoms())
    okt = len(tot.t) == 1 and len(a) == 1 and list(tot.t.values())[0] == 8 * width and a[0].startswith("dccrg::All_Reduce(%s" % nm.N)
    if width == 0:
        okt = not other
    rep.check(okt, "cell data starts after the whole list of cells", what, e[0].where(), "list takes %s, expected %d bytes per cell of the grid" % (tot, 8 * width))
    rep.check(len(sums) == 1 and data and sums[0] == "SUM[0..rank]{%s[each(0..rank)]}" % data[0], "cell data of a process starts where that of lower processes ends", what, e[0].where(), str(val))
    ok = False
    if len(pre) == 1:
        body = pre[0][len("PRE[%s]{" % nm.dom):-1]
        c = "%s[%s]" % (nm.counts, nm.IDX)
        ok = re.match(r"^(%s\*TYPESIZE\((%%\w+\[%s\]|each\(%%\w+\))\)|TYPESIZE\((%%\w+\[%s\]|each\(%%\w+\))\)\*%s)$" % (re.escape(c), re.escape(nm.IDX), re.escape(nm.IDX), re.escape(c)), body)
    rep.check(bool(ok), "data of a cell starts where that of the previous cells ends", what, e[0].where(), str(val))
    if data and pre:
        g = t.gathers[data[0]][0]
        rep.check(g is not None and str(g) == "SUM" + pre[0][3:], "processes exchange the total size of their data", what, t.gathers[data[0]][2].where(), "%s, data of all cells is %s" % (g, "SUM" + pre[0][3:]))


def cell_io(rep, what, t, fdname, nm):
    """the structs that describe cell data in memory and file"""
    fname = None
    ios = [i for i in t.items if i.node.eff[1].endswith("_at_all") and i.tname == "?"]
    rep.check(len(ios) >= 1, "cell data is transferred", what)
    if not ios or not t.views:
        rep.check(bool(t.views), "the file view describes where cell data is", what)
        return
    for n, disp, et, ft, mode in t.views:
        s = t.structs.get(ft)
        rep.check(disp == "0" and s is not None and mode == "'native'", "positions in the file view are absolute", what, n.where(), "%s %s" % (disp, ft))
        if s is None:
            continue
        fname = s[3]
        rep.check(s[0] == nm.N and s[1] == nm.counts and (fdname is None or s[2] == fdname), "the file view lists every cell at its listed position", what, s[4].where(), str(s[:4]))
        g = t.contig.get(s[3])
        rep.check(g is not None and g[1] == "&ompi_mpi_byte" and str(g[0]).startswith("TYPESIZE("), "a cell takes as many bytes in the file as its datatype has", what, s[4].where(), str(g and (str(g[0]), g[1])))
    for i in ios:
        mt = pr(i.type)
        s = t.structs.get(mt)
        rep.check(s is not None and s[0] == nm.N and s[1] == nm.counts, "memory is described by the datatypes of the cells", what, i.node.where(), "%s: %s" % (mt, s and s[:4]))
        rep.check(i.pos == Poly() and i.count == Poly.const(1) and re.match(r"^%\w+\[0\]$", pr(i.buf)) is not None, "cell data is transferred relative to the first cell", what, i.node.where(), "%s at %s" % (pr(i.buf), i.pos))
        if s is None:
            continue
        ads = pr(i.buf)[:-3]
        names = {s[2]}
        for x in t.tr.v.nodes:
            if x.kind == "eff" and x.eff[0] == "init" and pr(x.eff[1]) in names and x.eff[2][0] == "v":
                names.add(pr(x.eff[2]))
        mem = [e for e in t.entries if pr(e[1][1]) in names]
        rep.check(len(mem) == 1 and pr(mem[0][3]) in ("(%s[%s] - %s[0])" % (ads, nm.IDX, ads), "(each(%s) - %s[0])" % (ads, ads)), "memory positions are relative to the first cell", what, i.node.where(), str([pr(e[3]) for e in mem]))


def run(rep, prog, tier):
    for c in COMPONENTS:
        component(rep, prog, c)
    grid(rep, prog)
