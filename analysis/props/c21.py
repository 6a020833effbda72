"""What iterating over cells and their neighbors visits.  Decided on the function
that fills the lists behind the iterators: the sequence of cells is split into
the stretches that loops over disjoint sets append, counters are resolved to the
stretches they count, every iterator's position is evaluated to a sum of
stretches, and must delimit exactly the cells it stands for; likewise for the
stretches of neighbors of each cell.  Every call must give it storage, iterators
and id of one neighborhood, and the public functions must return the iterators
they are named after."""
from .common import *
import facts, ir

MIN_OBLIGATIONS = 60
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["contents of neighbor lists and process-boundary sets are those of C01, C05 and C12",
               "remote cells of a user-defined neighborhood are those of the default one; a different choice isn't judged"]
KINDS = ["inner", "outer", "local", "remote", "all"]


def split_sum(t):
    """[(sign, term)] of a sum"""
    t = t.strip()
    while t.startswith("(") and close(t) == len(t) - 1:
        t = t[1:-1].strip()
    d, parts, start, sign = 0, [], 0, 1
    for i, c in enumerate(t):
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif d == 0 and c in "+-" and t[i - 1:i + 2] == " %s " % c:
            parts.append((sign, t[start:i].strip()))
            start, sign = i + 1, 1 if c == "+" else -1
    parts.append((sign, t[start:].strip()))
    if len(parts) == 1:
        return [(1, t)]
    return [(s * s2, x) for s, p in parts for s2, x in split_sum(p)]


def close(t):
    d = 0
    for i, c in enumerate(t):
        d += c in "([{"
        d -= c in ")]}"
        if d == 0:
            return i
    return -1


def add(a, b, s=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for k, x in b.items():
        r[k] = r.get(k, 0) + s * x
    return {k: x for k, x in r.items() if x}


def before(v, a, b):
    """a happens before b and not after it"""
    return ir.path_avoiding([b], lambda n: n is a, lambda n: False) is None


def positions(v, var, base, sizes):
    """final {stretch: factor} an iterator is at, as an offset from the start of base; None if unknown"""
    pos, last = None, None
    for n in v.nodes:
        if n.kind != "eff":
            continue
        t = v.txt[n.id]
        if t.startswith(var + " = "):
            rhs = t[len(var) + 3:]
            pos, last = place(v, rhs, base, sizes, n), n
        elif t.startswith("std::advance(%s, " % var):
            pos, last = add(pos, total(t[len("std::advance(%s, " % var):-1], n, sizes)), n
        elif t.startswith(var + " += "):
            pos, last = add(pos, total(t[len(var) + 4:], n, sizes)), n
    return pos, last


def total(t, n, sizes):
    out = {}
    for s, x in split_sum(t):
        out = add(out, {} if x in ("0",) else sizes(x, n), s)
    return out


def place(v, t, base, sizes, n, depth=0):
    m = re.match(r"^std::next\((.*)\)$", t)
    if m:
        a = [x.strip() for x in ir.split_args(m.group(1))] if hasattr(ir, "split_args") else [m.group(1).rsplit(", ", 1)[0], m.group(1).rsplit(", ", 1)[1]]
        return add(place(v, a[0], base, sizes, n), total(a[1], n, sizes)) if len(a) == 2 else None
    ts = split_sum(t)
    its = [x for s, x in ts if s == 1 and (x in (base + ".begin()", base + ".cbegin()", base + ".end()", base + ".cend()") or x.endswith(".begin_") or x.endswith(".end_") or x.startswith("std::next(") or x.startswith("%"))]
    starts = [x for x in its if not x.startswith("%")] or its
    if not starts:
        return None
    it = starts[0]
    rest = {}
    first = True
    for s, x in ts:
        if x == it and s == 1 and first:
            first = False
            continue
        rest = add(rest, {} if x == "0" else sizes(x, n), s)
    if it in (base + ".begin()", base + ".cbegin()"):
        p = {}
    elif it in (base + ".end()", base + ".cend()"):
        p = sizes(base + ".size()", n)
    elif it.startswith("std::next("):
        p = place(v, it, base, sizes, n)
    elif depth < 6:
        # value of another iterator at this point
        p = None
        for m_ in v.nodes:
            tt = v.txt.get(m_.id, "")
            if m_ is n:
                break
            for q in ("let %s = " % it, "%s = " % it):
                if tt.startswith(q):
                    p = place(v, tt[len(q):], base, sizes, m_, depth + 1)
            if tt.startswith("std::advance(%s, " % it):
                p = add(p, total(tt[len("std::advance(%s, " % it):-1], m_, sizes))
            elif tt.startswith(it + " += "):
                p = add(p, total(tt[len(it) + 4:], m_, sizes))
    else:
        p = None
    return add(p, rest)


def show_pos(p):
    return "an unknown position" if p is None else " + ".join(("%d*" % f if f != 1 else "") + k for k, f in sorted(p.items())) or "start"


def cells(rep, prog, v):
    W = "%s:%d" % (v.func.file, v.func.line)
    pushes = [n for n in v.nodes if n.kind == "eff" and re.match(r"^arg0\.(push_back|emplace_back)\(", v.txt[n.id]) and n.loops]
    rep.check(len(pushes) == 1 and len(pushes[0].loops) == 1 and implies(TRUE, v.cond(pushes[0])) is None, "cells", "every cell to be iterated over gets one item", pushes[0].where() if pushes else W, "%d items" % len(pushes))
    if len(pushes) != 1 or len(pushes[0].loops) != 1:
        return None
    p = pushes[0]
    dom = dom_text(v, p.loops[0])
    it = re.match(r"^arg0\.\w+\((.*)\)$", v.txt[p.id]).group(1)
    inplace = re.match(r"^(\{.*\})?$", it) is not None
    if inplace:
        it = "arg0.back()"
    each = "each(%s)" % dom
    for fld, want in (("id", [each]), ("data", ["operator[](%s)" % each, "operator[](%s.id)" % it])):
        ns = [n for n in v.nodes if n.kind == "eff" and v.txt[n.id].startswith("%s.%s = " % (it, fld)) and lk(n) == lk(p)]
        ok = len(ns) == 1 and v.txt[ns[0].id].split(" = ", 1)[1] in want and implies(TRUE, v.cond(ns[0])) is None
        rep.check(ok, "cells", "item of a cell has %s of that cell" % fld, ns[0].where() if ns else p.where(), v.txt[ns[0].id] if ns else "isn't set")
        for u in [n for n in v.nodes if n.kind == "eff" and v.txt[n.id].startswith(it + ".update_caller(")]:
            rep.check(bool(ns) and not_after(v, ns[0], u, p.loops), "cells", "user-defined update of a cell's item comes after its %s" % fld, u.where(), "before")
    us = [n for n in v.nodes if n.kind == "eff" and v.txt[n.id].startswith(it + ".update_caller(")]
    rep.check(len(us) == 1 and implies(TRUE, v.cond(us[0])) is None and lk(us[0]) == lk(p) and (not_after(v, p, us[0], p.loops) if inplace else not_after(v, us[0], p, p.loops)), "cells", "user-defined update of the item of every cell is called before the item is added", us[0].where() if us else W, "%d calls" % len(us))
    # stretches
    parts = []
    for n in v.nodes:
        m = re.match(r"^%s\.(push_back|emplace_back)\((.*)\)$" % re.escape(dom), v.txt.get(n.id, "")) if n.kind == "eff" else None
        if m:
            parts.append((n, m.group(2)))
    B = "((dccrg::default_neighborhood_id == arg7) ? local_cells_on_process_boundary : user_local_cells_on_process_boundary[arg7])"
    Bs = [B, B.replace("dccrg::default_neighborhood_id == arg7", "arg7 == dccrg::default_neighborhood_id")]
    seg = []
    fix = lambda t: re.sub(r"\bhas\(%s, " % re.escape(Bs[1]), "has(%s, " % Bs[0], t)
    bd = A("has(%s, each(cell_data).first)" % B)
    dflt = F("atom", cmp_key("==", "arg7", "dccrg::default_neighborhood_id"))
    l1, l2 = A("has(local_cells_on_process_boundary, each(cell_data).first)"), A("has(user_local_cells_on_process_boundary[arg7], each(cell_data).first)")
    iff = lambda a, b: OR(AND(a, b), AND(~a, ~b))
    hyp = AND(OR(~dflt, iff(bd, l1)), OR(dflt, iff(bd, l2)), OR(dflt, A("has(user_hood_of, arg7)")))
    ptr = {}
    for n in v.nodes:
        m = re.match(r"^(?:let )?(%\w+) = &(.*)$", v.txt.get(n.id, "")) if n.kind == "eff" and not n.loops else None
        if m:
            ptr.setdefault(m.group(1), []).append((v.cond(n), m.group(2)))
    for P, ws in ptr.items():
        for k, (c, X) in enumerate(ws):
            c = AND(c, *[~c2 for c2, _ in ws[k + 1:]])
            hyp = AND(hyp, OR(~c, iff(A("has(%s, each(cell_data).first)" % P), A("has(%s, each(cell_data).first)" % X))))
    via = {}
    for n, t in parts:
        d = dom_text(v, n.loops[0]) if len(n.loops) == 1 else None
        c = rename(v.cond(n), fix)
        name = None
        if d is not None and d.startswith("%") and t == "each(%s)" % d and implies(TRUE, c) is None:
            # collected in a list of its own first
            ch = [x for x in v.nodes if x.kind == "eff" and re.match(r"^%s(\.(push_back|emplace_back|insert|erase|clear|pop_back|swap|resize|assign)\(| = )" % re.escape(d), v.txt[x.id])]
            if len(ch) == 1 and re.match(r"^%s\.push_back\(" % re.escape(d), v.txt[ch[0].id]) and len(ch[0].loops) == 1 and before(v, ch[0], n):
                t = v.txt[ch[0].id][len(d) + 11:-1]
                c = rename(v.cond(ch[0]), fix)
                via[d] = n
                d = dom_text(v, ch[0].loops[0])
        if d == "cell_data" and t == "each(cell_data).first":
            if implies(AND(hyp, ~bd), c) is None and implies(AND(hyp, c), ~bd) is None:
                name = "inner"
            elif implies(AND(hyp, bd), c) is None and implies(AND(hyp, c), bd) is None:
                name = "outer"
        elif d is not None and "remote_cells_on_process_boundary" in d and t == "each(%s)" % d and implies(TRUE, c) is None:
            name = "remote"
        seg.append((name, n))
        rep.check(name is not None, "cells", "cells iterated over are all local cells inside, then on the process boundary, and remote neighbors", n.where(), "appends %s if %s" % (t[:80], c))
    names = [x for x, _ in seg]
    rep.check(sorted(x or "" for x in names) == ["inner", "outer", "remote"], "cells", "inner, outer and remote cells are each added exactly once", W, str(names))
    for (a, x), (b, y) in zip(seg, seg[1:]):
        rep.check(before(v, x, y), "cells", "%s cells are added before %s cells" % (a, b), y.where(), "order isn't fixed")
    if None in names or len(set(names)) != 3:
        return None

    def sizes(t, at):
        if t in (dom + ".size()", "arg0.size()"):
            r = {}
            for a, x in seg:
                if before(v, x, at) and ir.path_avoiding([x], lambda n: n is at, lambda n: False) is not None:
                    r = add(r, {a: 1})
                elif ir.path_avoiding([at], lambda n: n is x, lambda n: False) is None:
                    return None
            return r
        if t == "cell_data.size()" or t == "cell_data.size":
            return {"inner": 1, "outer": 1}
        if t.endswith("remote_cells_on_process_boundary.size()"):
            return {"remote": 1}
        if t.endswith(".size()") and t[:-7] in via:
            return {a: 1 for a, x in seg if x is via[t[:-7]]}
        if not t.startswith("%"):
            return None
        r = {}
        for n in v.nodes:
            tt = v.txt.get(n.id, "")
            if n.kind not in ("eff", "bind"):
                continue
            if tt in ("let %s = 0" % t, "%s = 0" % t):
                if n.loops:
                    return None
                r = {}
            elif tt.startswith("let %s = " % t) or (tt.startswith("%s = " % t) and not n.loops):
                r = total(tt.split(" = ", 1)[1], n, sizes)
            elif tt in ("%s += 1" % t, "++%s" % t):
                hit = [a for a, x in seg if lk(x) == lk(n) and same(v, x, n, hyp, fix)]
                if len(hit) != 1:
                    return None
                r = add(r, {hit[0]: 1})
            elif tt.startswith("%s += " % t) or tt.startswith("%s -= " % t):
                if n.loops:
                    return None
                r = add(r, total(tt[len(t) + 4:], n, sizes), 1 if " += " in tt else -1)
            elif re.match(r"^(%s)( = |\+\+|--)" % re.escape(t), tt):
                return None
        return r
    I, O, R = {"inner": 1}, {"outer": 1}, {"remote": 1}
    IO, ALL = add(I, O), add(add(I, O), R)
    want = {"inner": ({}, I), "outer": (I, IO), "local": ({}, IO), "remote": (IO, ALL), "all": ({}, ALL)}
    for k, kind in enumerate(KINDS):
        for e, w in zip(("begin_", "end_"), want[kind]):
            pos, last = positions(v, "arg%d.%s" % (k + 2, e), "arg0", sizes)
            rep.check(pos == w, "ranges", "%s of %s cells is at %s" % (e[:-1], kind, show_pos(w)), last.where() if last else W, "is at %s" % show_pos(pos))
            if last is not None:
                rep.check(all(not ir_reaches(n, p) for n in v.nodes if n.kind == "eff" and v.txt[n.id].startswith("arg%d.%s" % (k + 2, e))), "ranges", "%s of %s cells is set after all items exist" % (e[:-1], kind), last.where(), "items are added afterwards")
    return p, dom, it


def lk(n):
    return [id(l.loop) for l in n.loops]


def ir_reaches(a, b):
    return ir.path_avoiding([a], lambda n: n is b, lambda n: False) is not None


def not_after(v, a, b, loops):
    """within one iteration a comes before b"""
    return ir.path_avoiding([b], lambda n: n is a, lambda n: n.kind == "br" and len(n.loops) < len(loops)) is None


def same(v, a, b, hyp, fix):
    ca, cb = rename(v.cond(a), fix), rename(v.cond(b), fix)
    return implies(AND(hyp, ca), cb) is None and implies(AND(hyp, cb), ca) is None


def dom_text(v, l):
    return str(l).split(" ", 1)[1] if l.kind in ("index", "each") else str(l)


def neighbors(rep, prog, v, p, dom, it):
    W = "%s:%d" % (v.func.file, v.func.line)
    cell = "each(%s)" % dom
    outer = id(p.loops[0].loop)
    inside = lambda n: bool(n.loops) and id(n.loops[0].loop) == outer
    effs = [n for n in v.nodes if n.kind == "eff"]
    lists = {}
    for d in ("of", "to"):
        for c in (cell, it + ".id"):
            lists["*get_neighbors_%s(%s, arg7)" % (d, c)] = d
    memo = {}

    def stripped(t, D, at):
        """t is each(D) without its offset"""
        e = "each(%s)" % D
        if re.match(r"^(std::make_pair\(|std::pair\{|\{)%s\.first, (std::array)?\{0, 0, 0\}[)}]$" % re.escape(e), t):
            return True
        if not t.startswith("%"):
            return False
        def_ = [n for n in effs if v.txt[n.id] in ("let %s = %s" % (t, e),) and lk(n) == lk(at)]
        off = [n for n in effs if v.txt[n.id].startswith("%s.second" % t) and lk(n) == lk(at)]
        return len(def_) == 1 and bool(off) and all(v.txt[n.id] == "%s.second = {0, 0, 0}" % t for n in off) and not_after(v, off[0], at, at.loops)

    def member(S):
        """which neighbors a list or set has"""
        if S in lists:
            return lists[S] + "+none"
        if S in memo:
            return memo[S]
        memo[S] = None
        new = [n for n in effs if v.txt[n.id].startswith("let %s = " % S)]
        if len(new) != 1 or not inside(new[0]) or len(new[0].loops) != 1:
            return None
        ins = [(n, re.match(r"^%s\.(insert|emplace)\((.*)\)$" % re.escape(S), v.txt[n.id])) for n in effs]
        ins = [(n, m.group(2)) for n, m in ins if m]
        ers = [(n, v.txt[n.id][len(S) + 7:-1]) for n in effs if v.txt[n.id].startswith(S + ".erase(")]
        oth = [n for n in effs if re.match(r"^%s(\.(clear|swap|pop_back|push_back|resize)\(| = )" % re.escape(S), v.txt[n.id])]
        was = re.match(r"^let %s = (%%\w+)$" % re.escape(S), v.txt[new[0].id])
        if was:
            oth.append(new[0])
        if len(oth) == 1 and not ins and len(oth[0].loops) == 1:        # copy of another set
            D = v.txt[oth[0].id].split(" = ", 1)[1] if " = " in v.txt[oth[0].id] else ""
            n, t, e = oth[0], "each(%s)" % D, "each(%s)" % D
            ch = [x for x in effs if re.match(r"^%s\.(insert|emplace|erase)\(" % re.escape(D), v.txt[x.id])]
            if not D.startswith("%") or not all(not_after(v, x, n, p.loops) for x in ch):
                return None
        elif len(ins) != 1 or oth or len(ins[0][0].loops) != 2:
            return None
        else:
            n, t = ins[0]
            D = dom_text(v, n.loops[1])
            e = "each(%s)" % D
        src = member(D)
        if t != e or src is None:
            return None
        c = rename(v.cond(n), lambda x: x)
        zero = F("atom", cmp_key("==", "0", e + ".first"))
        atoms = has_atoms(c)
        if src.endswith("+none"):
            src = src[:2]
            if implies(c, ~zero) is not None:
                return None
            hyp = ~zero
        else:
            hyp = TRUE
        other = {"of": "to", "to": "of"}.get(src)
        if other is None:
            return None
        if implies(hyp, c) is None:
            r = src
        else:
            r = None
            for key, X, q in atoms:
                if member(X) != other:
                    continue
                if src == "of" and stripped(q, D, n):
                    a = A(key)
                    if implies(AND(hyp, a), c) is None and implies(AND(hyp, c), a) is None:
                        r = "both"
                    elif implies(AND(hyp, ~a), c) is None and implies(AND(hyp, c), ~a) is None:
                        r = "only of"
        for m, q in ers:
            if r != "to" or len(m.loops) != 2 or implies(AND(hyp_of(v, m), *[A(k) for k, X, q2 in has_atoms(v.cond(m)) if q2 == q and (X == S or member(X) == "to")]), v.cond(m)) is not None:
                return None
            Dm = dom_text(v, m.loops[1])
            if member(Dm) not in ("of", "of+none") or not stripped(q, Dm, m) or not not_after(v, n, m, n.loops[:1]):
                return None
            r = "only to"
        memo[S] = r
        return r

    def hyp_of(v, m):
        return ~F("atom", cmp_key("==", "0", "each(%s).first" % dom_text(v, m.loops[1])))

    def has_atoms(c):
        out = []
        for k in c.atoms():
            m = re.match(r"^has\((%\w+), (.*)\)$", k)
            if m:
                out.append((k, m.group(1), m.group(2)))
        return out

    seg = []
    for n in effs:
        m = re.match(r"^arg1\.(push_back|emplace_back)\((.*)\)$", v.txt[n.id])
        if not m:
            continue
        item = m.group(2)
        if not inside(n) or len(n.loops) != 2:
            rep.bad("neighbors", "neighbors of a cell are added cell by cell", n.where(), v.txt[n.id])
            return
        D = dom_text(v, n.loops[1])
        e = "each(%s)" % D
        kind = member(D)
        rep.check(kind in ("only of", "both", "only to"), "neighbors", "neighbors added are those only in neighbors_of, in both, or only in neighbors_to", n.where(), "adds items of %s, which isn't one of these" % D)
        rep.check(implies(TRUE, v.cond(n)) is None, "neighbors", "every neighbor gets an item (%s)" % kind, n.where(), "only if %s" % v.cond(n))
        seg.append((kind, n))
        ups = [u for u in effs if v.txt[u.id].startswith(item + ".update_caller(") and lk(u) == lk(n)]
        rep.check(len(ups) == 1 and implies(TRUE, v.cond(ups[0])) is None and not_after(v, ups[0], n, n.loops), "neighbors", "user-defined update of items of neighbors is called (%s)" % kind, n.where(), "%d calls" % len(ups))
        if ups:
            rep.check(v.txt[ups[0].id].startswith(item + ".update_caller(*this, arg0.back(), arg7"), "neighbors", "user-defined update of a neighbor is given the grid, the cell and the neighborhood (%s)" % kind, ups[0].where(), v.txt[ups[0].id][:120])
        for f, want in (("id", [e + ".first"]), ("data", ["operator[](%s.first)" % e, "operator[](%s.id)" % item]), ("x", [e + ".second[0]"]), ("y", [e + ".second[1]"]), ("z", [e + ".second[2]"])):
            ns = [x for x in effs if v.txt[x.id].startswith("%s.%s = " % (item, f)) and lk(x) == lk(n)]
            ok = len(ns) == 1 and v.txt[ns[0].id].split(" = ", 1)[1] in want and implies(TRUE, v.cond(ns[0])) is None
            rep.check(ok, "neighbors", "item of a neighbor has %s of that neighbor (%s)" % (f, kind), ns[0].where() if ns else n.where(), v.txt[ns[0].id] if ns else "isn't set")
            if ns:
                rep.check(not_after(v, ns[0], n, n.loops) and all(not_after(v, ns[0], u, n.loops) for u in ups), "neighbors", "%s of a neighbor is set before its item is updated by user and added (%s)" % (f, kind), ns[0].where(), "after")
            if f == "data" and ns and want[1] in v.txt[ns[0].id]:
                ids = [x for x in effs if v.txt[x.id].startswith("%s.id = " % item) and lk(x) == lk(n)]
                rep.check(bool(ids) and not_after(v, ids[0], ns[0], n.loops), "neighbors", "id of a neighbor is set before its data is looked up (%s)" % kind, ns[0].where(), "after")
    names = [k for k, _ in seg]
    rep.check(sorted(str(k) for k in names) == ["both", "only of", "only to"], "neighbors", "each kind of neighbor is added once", W, str(names))
    if sorted(str(k) for k in names) != ["both", "only of", "only to"]:
        return
    for (a, x), (b, y) in zip(seg, seg[1:]):
        rep.check(not_after(v, x, y, p.loops), "neighbors", "neighbors of kind '%s' are added before '%s'" % (a, b), y.where(), "order isn't fixed")

    def sizes(t, at):
        if t == "arg1.size()":
            r = {"start": 1}
            if not inside(at):
                return None
            for k, n in seg:
                if not_after(v, n, at, p.loops):
                    if ir.path_avoiding([n], lambda x: x is at, lambda x: x.kind == "br" and not x.loops) is not None:
                        r = add(r, {k: 1})
            return r
        m = re.match(r"^(%\w+)\.size\(\)$", t)
        if m:
            k = member(m.group(1))
            ch = [n for n in effs if re.match(r"^%s\.(insert|emplace|erase)\(" % re.escape(m.group(1)), v.txt[n.id])]
            if not inside(at) or not all(not_after(v, n, at, p.loops) for n in ch):
                return None
            return {"of": {"only of": 1, "both": 1}, "only of": {k: 1}, "both": {k: 1}, "only to": {k: 1}}.get(k)
        m = re.match(r"^(%\w+)\[each\(([^\[\]]*)\)\](\[\d\]|\.\w+)$", t)
        if m:
            r = None
            for n in effs:
                q = re.match(r"^%s\[each\(([^\[\]]*)\)\]%s = (.*)$" % (re.escape(m.group(1)), re.escape(m.group(3))), v.txt[n.id])
                if q and lk(n) == lk(p) and implies(TRUE, v.cond(n)) is None and (q.group(1) == "0..%s.size()" % dom or q.group(1) == dom) and m.group(2) in ("0..arg0.size()", "0..%s.size()" % dom):
                    if r is not None:
                        return None
                    r = total(q.group(2), n, sizes)
            return r
        m = re.match(r"^%\w+$", t)
        if m:
            defs = [n for n in v.nodes if n.kind in ("eff", "bind") and re.match(r"^(let )?%s(\.| |\+|-)" % re.escape(t), v.txt[n.id])]
            if len(defs) == 1 and v.txt[defs[0].id].startswith("let "):
                return total(v.txt[defs[0].id].split(" = ", 1)[1], defs[0], sizes)
        return None
    order = [k for k in names]
    at = lambda k: {**{"start": 1}, **{x: 1 for x in order[:k]}}
    need = {"neighbors_of": {"only of", "both"}, "neighbors_to": {"both", "only to"}, "all_neighbors": {"only of", "both", "only to"}}
    for fld, s in need.items():
        idx = [i for i, k in enumerate(order) if k in s]
        b, e = idx[0], idx[-1] + 1
        if set(order[b:e]) != s:
            rep.bad("ranges", "%s of a cell are consecutive" % fld, W, str(order))
            continue
        for end, w in (("begin_", at(b)), ("end_", at(e))):
            var = "each(arg0).%s.%s" % (fld, end)
            pos, last = positions(v, var, "arg1", sizes)
            rep.check(pos == w, "ranges", "%s of %s of a cell is at %s" % (end[:-1], fld, show_pos(w)), last.where() if last else W, "is at %s" % show_pos(pos))
            if last is not None:
                rep.check(not any(ir_reaches(last, n) for _, n in seg) and implies(TRUE, v.cond(last)) is None and len(last.loops) == 1, "ranges", "%s of %s is set for every cell after all items exist" % (end[:-1], fld), last.where(), "")


def calls(rep, prog):
    seen = set()
    count = 0
    for f in prog.funcs:
        if not (f.cls or "").endswith("::Dccrg") or f.body is None or (f.q, f.sig) in seen:
            continue
        seen.add((f.q, f.sig))
        if not any(x.get("k") in ("call", "mcall") and x.get("n") == "update_cell_pointers" for x in facts.walk(f.body)):
            continue
        v = View(prog, f, opaque=("update_cell_pointers",))
        rep.saw(v)
        for n in v.nodes:
            t = v.txt.get(n.id, "")
            if n.kind == "eff" and t.startswith("update_cell_pointers("):
                count += 1
                d = "update_cell_pointers(cells_rw, neighbors_rw, %s, dccrg::default_neighborhood_id)" % ", ".join("%s_cells_default" % k for k in KINDS)
                u = r"update_cell_pointers\(cells_user\[(.*?)\], neighbors_user\[\1\], %s, \1\)$" % ", ".join("%s_cells_user\\[\\1\\]" % k for k in KINDS)
                rep.check(t == d or re.match(u, t) is not None, "calls", "%s: items and iterators of one neighborhood are updated together" % f.name, n.where(), t[:300])
    rep.check(count >= 2, "calls", "iterators of default and user neighborhoods are updated", "dccrg.hpp", "%d calls" % count)


def accessors(rep, prog):
    from .c23 import outcomes
    for k in KINDS:
        v = view(prog, "Dccrg", k + "_cells", 1)
        rep.saw(v)
        W = "%s:%d" % (v.func.file, v.func.line)
        dflt = F("atom", cmp_key("==", "arg0", "dccrg::default_neighborhood_id"))
        got = {}
        for x, c, n in outcomes(v, True):
            got[x] = OR(got[x], c) if x in got else c
        a, b = "%s_cells_default" % k, "%s_cells_user[arg0]" % k
        ok = set(got) <= {a, b} and a in got and b in got and implies(dflt, got[a]) is None and implies(got[a], dflt) is None and satisfiable(AND(got[b], dflt)) is None
        rep.check(ok, "accessors", "%s_cells returns iterators of %s cells of given neighborhood" % (k, k), W, "returns %s" % sorted(got))
    done = set()
    for f in prog.funcs:
        if (f.cls or "").endswith("Iterator_Storage") and f.name in ("begin", "end", "cbegin", "cend") and f.body is not None:
            v = View(prog, f)
            rep.saw(v)
            done.add(f.name)
            rs = {v.txt[n.id] for n in v.nodes if n.kind == "ret"}
            rep.check(rs == {"return %s_" % f.name.replace("cb", "b").replace("ce", "e")}, "accessors", "%s of a range is its %s" % (f.name, f.name), "%s:%d" % (f.file, f.line), str(rs))
    rep.check(done >= {"begin", "end"}, "accessors", "ranges have begin and end", "dccrg.hpp", str(done))


def run(rep, prog, tier):
    v = view(prog, "Dccrg", "update_cell_pointers", 8)
    rep.saw(v)
    r = cells(rep, prog, v)
    if r is not None:
        neighbors(rep, prog, v, *r)
    calls(rep, prog)
    accessors(rep, prog)
