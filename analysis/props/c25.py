"""Searches for neighbors look at the right places.  Decided by normal forms of
indices and offsets: conditions are formulas over linear inequalities in normal
form, effects are changes of indices and offsets in normal form, and both are
compared with what the neighborhood, the topology and the sizes of cells require,
for every dimension, direction and relation of cell sizes."""
from .common import *
import facts, ir, normal, types
from normal import Unknown, Split, const, atom, add, mul, pow2, key, show as shownf, iq, pos, zero

MIN_OBLIGATIONS = 20
THOROUGH_CONFIGS = [("DEBUG",)]
ASSUMPTIONS = ["cells know their face neighbors (C01), sizes of neighbors differ at most by one refinement level", "arithmetic is exact (C16)",
               "a search written in a form without normal form isn't judged"]
PRE = r"(?:mapping(?:_rw)?\.)?"
NAMES = [(PRE + r"length(?:_rw)?\.get\(\)\[(\d)\]", r"L\1"), (PRE + r"get_maximum_refinement_level\(\)", "M"),
         (PRE + r"get_refinement_level\((.*)\)", r"level(\1)"), (PRE + r"get_cell_length_in_indices\((.*)\)", r"len(\1)"),
         (PRE + r"get_indices\((.*)\)\[(\d)\]", r"ind(\1)[\2]"), (PRE + r"get_parent\((.*)\)", r"parent(\1)"),
         (r"topology(?:_rw)?\.is_periodic\((\d)\)", r"periodic\1"), (r"dccrg::error_index", "ERR"), (r"dccrg::error_cell", "0")]
PERIODIC = lambda d: F("atom", "periodic%d" % d)
G = lambda d: mul(atom("L%d" % d), pow2(atom("M")))
ERR = atom("ERR")


def evaluator(env=(), names=()):
    ev = normal.Eval(list(names) + NAMES)
    ev.env.update(dict(env))
    return ev


def els(*xs):
    """elements of loops that a statement mentions"""
    return {y for x in xs for y in normal.walk(x) if y[0] == "el"}


def texts(n):
    return (n.eff,) + tuple(g.cond for g in n.guards)


def cases(rep, rule, what, where, got, want, hyp=TRUE, need=True):
    """conditions under which something is done: exactly `want`"""
    ce = implies(AND(hyp, got), want)
    rep.check(ce is None, rule, what, where, "done also when %s" % (show(ce) if ce else ""))
    if need:
        ce = implies(AND(hyp, want), got)
        rep.check(ce is None, rule, what + " (always)", where, "not done when %s" % (show(ce) if ce else ""))


# ------------------------------------------------------------ places in a neighborhood
def places(rep, prog):
    v = view(prog, "Dccrg", "indices_from_neighborhood", 3)
    rep.saw(v)
    push = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "mut" and n.eff[1] == "push_back" and v.loops(n) == ["arg2"]]
    if len(push) != 1 or push[0].eff[3][0][0] != "v":
        return
    rep.check(implies(TRUE, v.cond(push[0])) is None and not v.loop_exits(push[0].loops[0]), "places", "every item of the neighborhood gives one place, in order", push[0].where(), "only when %s" % v.cond(push[0]))
    tmp = push[0].eff[3][0]
    rets = [n for n in v.nodes if n.kind == "ret" and n.frame is v.L.frame]
    for r in rets:
        rep.check(r.eff[1] == push[0].eff[2], "places", "what was found is returned", r.where(), v.txt[r.id])
    ini = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "init" and n.eff[1] == tmp]
    asg = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "asg" and n.eff[2][0] == "[]" and n.eff[2][1] == tmp]
    for n in ini:
        rep.check([ir.pr(x) for x in n.eff[2][1]] == ["arg0[%d]" % d for d in range(3)] if n.eff[2][0] == "ilist" else ir.pr(n.eff[2]) == "arg0", "places", "search starts from given indices", n.where(), v.txt[n.id])
    for d in range(3):
        dims(rep, v, asg, tmp, d)


def dims(rep, v, asg, tmp, d):
    t, idx, ln, g = atom("T"), atom("arg0[%d]" % d), atom("arg1"), G(d)
    groups, wheres = {}, {}
    for n in asg:
        e = {x: const(d) for x in els(*texts(n)) if x[1][0] == "range"}
        ev = evaluator(e, [(r"%" + re.escape(tmp[1]) + r"\S*\[\d\]", "T"), (r"each\(arg2\)\[\d\]", "o")])
        try:
            i = ev.nf(n.eff[2][2])
        except Unknown:
            continue
        if set(i) - {normal.one} or i.get(normal.one, 0) != d:
            continue
        neg = pos(mul(const(-1), atom("o")))
        c0 = normal.cond(n, ev)
        if implies(c0, neg) is None:
            ev.expand = lambda x, ev_: mul(const(-1), ev_.nf(x[3][0])) if x[0] == "call" and x[1] in ("abs", "std::abs") else None
        try:
            val = ev.nf(n.eff[3])
        except Unknown:
            continue
        if n.eff[1] in ("+=", "-="):
            val = add(t, val, 1 if n.eff[1] == "+=" else -1)
        elif n.eff[1] != "=":
            continue
        if "mod(" in shownf(val) or "idiv(" in shownf(val):
            continue
        # conditions of counting loops
        cnt = TRUE
        for q in n.loops[1:]:
            if q.dom[0] == "while":
                cnt = AND(cnt, iq(truth(q.dom[1]), ev))
        groups.setdefault(key(val), []).append((n, normal.cond(n, ev), cnt, ev))
    if not groups:
        return
    neg = pos(mul(const(-1), atom("o")))
    P = PERIODIC(d)
    step = mul(atom("o"), ln)
    low = pos(add(mul(const(-1), step), idx, -1))     # idx < -o * len
    high = ~pos(add(add(g, idx, -1), step, -1))       # idx + o * len >= G
    out = AND(~P, OR(AND(neg, low), AND(~neg, high)))
    name = "xyz"[d]
    want = {
        key(add(t, step)): (AND(~P, ~out), "moves by the offset where the grid isn't periodic"),
        key(ERR): (out, "is outside of a grid that isn't periodic"),
        key(add(t, ln, -1)): (AND(P, neg, ~pos(add(ln, t, -1))), "moves to negative direction"),
        key(add(g, ln, -1)): (AND(P, neg, pos(add(ln, t, -1))), "wraps to the end of a periodic grid"),
        key(add(t, ln)): (AND(P, ~neg, pos(add(add(g, ln, -1), t, -1))), "moves to positive direction"),
        key({}): (AND(P, ~neg, ~pos(add(add(g, ln, -1), t, -1))), "wraps to the start of a periodic grid"),
    }
    for k, ns in groups.items():
        n = ns[0][0]
        if k not in want:
            rep.bad("places", "%s index of a place" % name, n.where(), "becomes %s" % shownf(dict(k)))
            continue
        w, what = want[k]
        got = OR(*[c for _, c, _, _ in ns])
        cnt = AND(*[c for _, _, c, _ in ns])
        if k == key(ERR):
            # other dimensions make this one invalid too
            ce = implies(out, got)
            rep.check(ce is None, "places", "%s index %s" % (name, what), n.where(), "not done when %s" % (show(ce) if ce else ""))
            got = OR(*[c for m, c, _, _ in ns])
            ce = implies(got, out)
            rep.check(ce is None, "places", "%s index only of what %s" % (name, what), n.where(), "done also when %s" % (show(ce) if ce else ""))
            continue
        cases(rep, "places", "%s index %s" % (name, what), n.where(), got, w, cnt)
        for m, _, _, ev in ns:
            if k != key(add(t, step)):
                steps(rep, v, m, ev, name)


def steps(rep, v, n, ev, name):
    """steps of one cell are taken as many times as the offset says"""
    q = n.loops[-1].dom
    try:
        if q[0] == "range":
            lo, hi = ev.nf(q[1]), ev.nf(q[2])
            rep.check(key(add(hi, lo, -1)) == key(atom("o")), "places", "number of steps in %s" % name, n.where(), ir.pr(q))
        elif q[0] == "while" and q[1][0] == "bin" and q[1][1] in ("<", "!=", "<="):
            vs = [x for x in q[1][2:] if x[0] == "v"]
            if len(vs) != 1:
                return
            i = vs[0]
            ini = [m for m in v.nodes if m.kind == "eff" and m.eff[0] == "init" and m.eff[1] == i]
            inc = [m for m in v.nodes if m.kind == "eff" and m.eff[0] == "asg" and m.eff[2] == i]
            if len(ini) == len(inc) == 1 and inc[0].eff[1] in ("+=", "-=") and inc[0].eff[3] == ("i", 1):
                s = 1 if inc[0].eff[1] == "+=" else -1
                end = ev.nf(q[1][3] if q[1][2] == i else q[1][2])
                num = add(mul(const(s), add(end, ev.nf(ini[0].eff[2]), -1)), const(1 if q[1][1] == "<=" else 0))
                rep.check(key(num) == key(mul(const(s), atom("o"))), "places", "number of steps in %s" % name, n.where(), "%s steps" % shownf(num))
    except Unknown:
        return


# ------------------------------------------------------------ face neighbors
def faces(rep, prog):
    v = view(prog, "Dccrg", "update_neighbors_", 1)
    rep.saw(v)
    fin = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "asg" and re.match(r"^%[\w.#]+\[each\(0\.\.(%[\w.#]+)\.size\(\)\)\] = get_existing_cell\(each\(\1\), ", v.txt[n.id])]
    if len(fin) != 1:
        return
    f = fin[0]
    args = f.eff[3][3]
    S = args[0][1]
    lv = atom("level(arg0)")
    for x, test, at, other, what in ((args[1], zero(lv), const(0), add(lv, const(1), -1), "larger"), (args[2], zero(add(lv, atom("M"), -1)), atom("M"), add(lv, const(1)), "smaller")):
        ev = evaluator()
        if x[0] == "call" and x[1] in ("std::max", "std::min") and len(x[3]) == 2:
            try:
                got = {key(ev.nf(y)) for y in x[3]}
            except Unknown:
                continue
            rep.check(x[1] == ("std::max" if what == "larger" else "std::min") and got == {key(at), key(other)}, "faces", "one size %s neighbors are looked for" % what, f.where(), ir.pr(x))
            continue
        if x[0] == "cond":
            c = iq(x[1], ev)
            try:
                a, b = ev.nf(x[2]), ev.nf(x[3])
            except Unknown:
                continue
            if implies(~c, test) is None and implies(test, ~c) is None:
                c, a, b = ~c, b, a
            same = implies(c, test) is None and implies(test, c) is None
            bound = pos(lv) if what == "larger" else pos(add(atom("M"), lv, -1))
            if not same and (implies(c, bound) is None and implies(bound, c) is None or implies(c, ~bound) is None and implies(~bound, c) is None):
                if implies(c, bound) is None:
                    a, b = b, a
                same = True
            rep.check(same and key(a) == key(at) and key(b) == key(other), "faces", "one size %s neighbors are looked for" % what, f.where(), ir.pr(x))
        else:
            try:
                rep.check(key(ev.nf(x)) == key(other), "faces", "one size %s neighbors are looked for" % what, f.where(), ir.pr(x))
            except Unknown:
                pass
    st = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "asg" and v.txt[n.id].startswith("neighbors_[arg0] = ")]
    for n in st:
        rep.check(f.eff[2][1] == n.eff[3], "faces", "found face neighbors are recorded", n.where(), v.txt[n.id])
    asg = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "asg" and n.eff[2][0] == "[]" and n.eff[2][1][0] == "[]" and n.eff[2][1][1] == S]
    for k in range(6):
        direction(rep, v, asg, S, k)


def values(q):
    """numbers that a loop goes through"""
    if q[0] == "ilist" and all(x[0] == "i" for x in q[1]):
        return [x[1] for x in q[1]]
    if q[0] == "range" and q[1][0] == q[2][0] == "i" and q[2][1] - q[1][1] < 10:
        return list(range(q[1][1], q[2][1]))
    return None


def direction(rep, v, asg, S, k):
    d, sign = k // 2, 1 if k % 2 else -1
    t, ln, g = atom("T"), atom("len(arg0)"), G(d)
    groups = {}
    for n in asg:
        es = [x for x in els(*texts(n)) if values(x[1])]
        if len(es) > 1 or len(n.loops) > 1:
            return
        for num in values(es[0][1]) if es else [None]:
            ev = evaluator({es[0]: const(num)} if es else {}, [(re.escape(ir.pr(S)) + r"\[\d\]\[\d\]", "T")])
            try:
                i, j = ev.nf(n.eff[2][1][2]), ev.nf(n.eff[2][2])
                if set(i) | set(j) > {normal.one}:
                    return
                if i.get(normal.one, 0) != k:
                    continue
                rep.check(j.get(normal.one, 0) == d, "faces", "face neighbor %d is looked for in dimension %d" % (k, d), n.where(), "dimension %s" % shownf(j))
                val = ev.nf(n.eff[3])
            except Unknown:
                return
            if n.eff[1] in ("+=", "-="):
                val = add(t, val, 1 if n.eff[1] == "+=" else -1)
            c = normal.cond(n, ev)
            groups.setdefault(key(val), []).append((n, c))
    if not groups:
        return
    own = AND(*[normal.iq(truth(x.cond), evaluator()) for x in asg[0].guards if x.kind not in ("abort", "catch") and not els(x.cond)])
    P = PERIODIC(d)
    if sign < 0:
        edge = zero(t)
        want = {key(ERR): AND(edge, ~P), key(add(g, const(1), -1)): AND(edge, P), key(add(t, const(1), -1)): ~edge}
        ax = TRUE
    else:
        edge = pos(add(add(t, ln), add(g, const(1), -1), -1))
        want = {key(ERR): AND(edge, ~P), key({}): AND(edge, P), key(add(t, ln)): ~edge}
        ax = OR(~pos(add(ln, add(g, const(1), -1), -1)), edge)
    where = "%s direction of %s" % ("positive" if sign > 0 else "negative", "xyz"[d])
    for val, ns in groups.items():
        if val not in want:
            rep.bad("faces", "index of face neighbor in " + where, ns[0][0].where(), "becomes %s" % shownf(dict(val)))
            continue
        what = "no neighbor over the edge of the grid" if val == key(ERR) else "neighbor over a periodic edge" if val != key(add(t, const(1), -1)) and val != key(add(t, ln)) else "neighbor inside the grid"
        cases(rep, "faces", "%s in %s" % (what, where), ns[0][0].where(), OR(*[c for _, c in ns]), want[val], AND(ax, own))
    for val in want:
        if val not in groups:
            rep.bad("faces", "index of face neighbor in " + where, asg[0].where(), "never becomes %s" % shownf(dict(val)))


def fold(t):
    """text with constant expressions evaluated"""
    while True:
        u = re.sub(r"\((-?\d+) (<|<=|==|\+|-|\*|/|%) (-?\d+)\)", lambda m: fold_op(int(m.group(1)), m.group(2), int(m.group(3))), t)
        u = re.sub(r"\((true|false) \? (-?\d+) : (-?\d+)\)", lambda m: m.group(2 if m.group(1) == "true" else 3), u)
        u = re.sub(r"\{(-?\d+(?:, -?\d+)*)\}\[(\d+)\]", lambda m: (m.group(1).split(", ") + ["?"] * 9)[int(m.group(2))], u)
        if u == t:
            return t
        t = u


def fold_op(a, o, b):
    if o in ("/", "%"):
        return str(a // b if o == "/" else a % b) if b > 0 and a >= 0 else "?"
    x = {"<": a < b, "<=": a <= b, "==": a == b, "+": a + b, "-": a - b, "*": a * b}[o]
    return str(x).lower() if isinstance(x, bool) else str(x)


def at_index(f, pre, i):
    """condition f with the counter pre at i"""
    if f.k == "atom":
        t = f.a[0]
        if pre not in t:
            return f
        t = fold(t.replace(pre, str(i)))
        return TRUE if t == "true" else ~TRUE if t == "false" else F("atom", t)
    if f.k == "b":
        return f
    x = [at_index(y, pre, i) for y in f.a]
    return ~x[0] if f.k == "not" else AND(*x) if f.k == "and" else OR(*x)


def face_list(rep, prog):
    """get_face_neighbors_of: siblings of smaller neighbors on both other axes"""
    v = view(prog, "Dccrg", "get_face_neighbors_of", 1)
    rep.saw(v)
    pushes = [(n, re.match(r"^%[\w.#]+\.push_back\((?:\{|std::make_pair\()(.*), \{(.*)\}\[each\(0\.\.neighbors_\[arg0\]\.size\(\)\)\][})]\)$", v.txt[n.id])) for n in v.nodes if n.kind == "eff" and n.eff[0] == "mut"]
    pushes = [(n, m) for n, m in pushes if m]
    nb = "each(neighbors_[arg0])"
    pre = "each(0..neighbors_[arg0].size())"
    small = AND(~eqf("0", nb), F("atom", cmp_key("<", "mapping_rw.get_refinement_level(arg0)", "mapping_rw.get_refinement_level(%s)" % nb)))
    number = lambda i: AND(*[(F("atom", cmp_key("==", str(j), pre)) if j == i else ~F("atom", cmp_key("==", str(j), pre))) for j in range(6)])
    for n, m in pushes:
        rep.check(m.group(2) == "-1, 1, -2, 2, -3, 3", "faces", "directions of face neighbors", n.where(), m.group(2))
    own = [n for n, m in pushes if m.group(1) == nb]
    if not own:
        return
    n = own[0]
    cases(rep, "faces", "existing face neighbors are returned", n.where(), OR(*[v.cond(x) for x in own]), ~eqf("0", nb))
    for i in range(6):
        table = {}
        for x, m in pushes:
            table.setdefault(fold(m.group(1).replace(pre, str(i))), []).append(x)
        cond = lambda y: at_index(v.cond(y), pre, i)
        a, b = [2 * e + 1 for e in range(3) if e != i // 2]
        A1, B1 = "neighbors_[%s][%d]" % (nb, a), "neighbors_[%s][%d]" % (nb, b)
        for x in (A1, B1):
            if x not in table:
                rep.bad("faces", "siblings of smaller face neighbor %d are returned" % i, n.where(), x + " isn't returned")
                continue
            cases(rep, "faces", "sibling %s of smaller face neighbor %d" % (x[-2], i), table[x][0].where(), AND(small, OR(*[cond(y) for y in table[x]])), AND(small, ~eqf("0", x)))
        diag = ["neighbors_[%s][%d]" % (B1, a), "neighbors_[%s][%d]" % (A1, b)]
        hyp = AND(small, ~eqf("0", A1), ~eqf("0", B1), *[~eqf("0", x) for x in diag])
        c = OR(*[cond(y) for x in diag for y in table.get(x, [])])
        ce = implies(hyp, c)
        rep.check(ce is None, "faces", "last sibling of smaller face neighbor %d" % i, n.where(), "not returned when %s" % (show(ce) if ce else ""))
        for x, ns in table.items():
            if x not in (nb, A1, B1) + tuple(diag):
                ce = satisfiable(AND(small, OR(*[cond(y) for y in ns])))
                rep.check(ce is None, "faces", "face neighbor %d gives only cells behind the same face" % i, ns[0].where(), x + " is also returned")


# ------------------------------------------------------------ walking from cell to cell
def walk_rule(rep, prog):
    v = view(prog, "Dccrg", "find_neighbors_of", 2)
    rep.saw(v)
    stepn = []
    for n in v.nodes:
        if n.kind == "eff" and n.eff[0] == "asg" and n.eff[1] == "=" and n.eff[2][0] == "v" and n.eff[3][0] == "[]" and n.eff[3][2][0] == "i" \
           and n.eff[3][1][0] == "[]" and n.eff[3][1][2] == n.eff[2] and ir.pr(n.eff[3][1][1]) == "neighbors_":
            stepn.append((n, n.eff[3][2][1]))
    if len(stepn) != 6 or len({k for _, k in stepn}) != 6:
        return
    cur = stepn[0][0].eff[2]
    loop = stepn[0][0].loops[-1]
    depth = len(stepn[0][0].loops)
    ct = ir.pr(cur)
    off = None
    for n in v.nodes:
        if n.kind == "eff" and n.eff[0] == "init" and len(n.loops) == depth - 1 and ir.pr(n.eff[2]) == "{0, 0, 0}":
            off = n.eff[1]
            break
    if off is None:
        return
    # length of current cell
    ln = [n for n in v.nodes if n.kind == "eff" and n.eff[0] in ("init", "asg") and n.eff[-2 if n.eff[0] == "asg" else 1][0] == "v" and re.match(r"^(?:let )?(%%[\w.#]+) = mapping_rw\.get_cell_length_in_indices\(%s\)$" % re.escape(ct), v.txt[n.id])]
    cl = {n.eff[2] if n.eff[0] == "asg" else n.eff[1] for n in ln}
    cl = {x for x in cl if any(n.kind == "eff" and n.eff[0] == "asg" and n.eff[2] == x for n in v.nodes)}
    names = [(re.escape(ir.pr(x)), "C") for x in cl] + [(r"mapping_rw\.get_cell_length_in_indices\(%s\)" % re.escape(ct), "C"), (r"mapping_rw\.get_cell_length_in_indices\(arg0\)", "N"),
             (re.escape(ir.pr(off)) + r"\[(\d)\]", r"O\1"), (r"each\(arg1\)\[(\d)\]", r"h\1")]
    O, h, N, C = [atom("O%d" % d) for d in range(3)], [atom("h%d" % d) for d in range(3)], atom("N"), atom("C")
    # where a walk goes on
    beyond = lambda d: pos(add(O[d], add(mul(add(h[d], const(1)), N), const(1), -1), -1))       # offset > end
    before = lambda d: pos(add(mul(h[d], N), add(add(O[d], C), const(1), -1), -1))               # offset + length - 1 < start
    dirs = {k: (beyond if k % 2 == 0 else before)(k // 2) for k in range(6)}
    anyd = OR(*dirs.values())
    W = "%s:%d" % (v.func.file, stepn[0][0].line)
    if loop.dom[0] == "while":
        c = iq(truth(loop.dom[1]), evaluator((), names))
        cases(rep, "walk", "search goes on until the place is reached", stepn[0][0].where(), c, anyd)
    for n, k in stepn:
        c = normal.cond(n, evaluator((), names))
        ce = implies(c, dirs[k])
        rep.check(ce is None, "walk", "search goes to face neighbor %d only if the place is there" % k, n.where(), "goes there when %s" % (show(ce) if ce else ""))
    c = OR(*[normal.cond(n, evaluator((), names)) for n, _ in stepn])
    ce = implies(anyd, c)
    rep.check(ce is None, "walk", "search goes on in some direction", W, "doesn't when %s" % (show(ce) if ce else ""))
    for x in cl:
        for n, k in stepn:
            later = [m for m in v.nodes[v.nodes.index(n):] if m.kind == "eff" and m.eff[0] == "asg" and m.eff[2] == x and v.txt[m.id].endswith("= mapping_rw.get_cell_length_in_indices(%s)" % ct) and m.loops == n.loops]
            ok = any(implies(AND(v.cond(n), ~eqf("0", ct)), v.cond(m)) is None for m in later)
            rep.check(ok, "walk", "length of current cell is updated after going to face neighbor %d" % k, n.where(), "length of previous cell is used")
    for n, k in stepn:
        moved(rep, v, n, k, cur, off, depth)
    # result
    rv = [n for n in v.nodes if n.kind == "ret" and n.frame is v.L.frame and n.eff[1]]
    for r in rv:
        res = ir.pr(r.eff[1])
        spec(rep, v, "walk", ["%s.push_back({%s, %s})" % (res, ct, ir.pr(off)), "%s.push_back(std::make_pair(%s, %s))" % (res, ct, ir.pr(off))], AND(~eqf("0", ct), ~F("atom", cmp_key("<", "C", "mapping_rw.get_cell_length_in_indices(arg0)"))),
             "cells of same or larger size are neighbors", [["arg1"]], sub=lambda t: relen(t, cl, ct), exits=False)
    siblings(rep, v, cur, off, cl, names, ct)


def relen(t, cl, ct):
    for x in cl:
        t = t.replace(ir.pr(x), "C")
    t = t.replace("mapping_rw.get_cell_length_in_indices(%s)" % ct, "C")
    return t


def moved(rep, v, n, k, cur, off, depth):
    """change of offset when going to a face neighbor"""
    d, sign = k // 2, 1 if k % 2 else -1
    ct, nt = ir.pr(cur), "neighbors_[%s][%d]" % (ir.pr(cur), k)
    Ft, Tt = "mapping_rw.get_cell_length_in_indices(%s)" % ct, "mapping_rw.get_cell_length_in_indices(%s)" % nt
    eq, less, more = eqf(Ft, Tt), F("atom", cmp_key("<", Ft, Tt)), F("atom", cmp_key("<", Tt, Ft))
    fam = lambda x: AND(~eqf("0", "mapping_rw.get_parent(%s)" % x), ~eqf(x, "mapping_rw.get_parent(%s)" % x))
    Fl, Tl = atom("len(%s)" % ct), atom("len(%s)" % nt)
    O = [atom("O%d" % i) for i in range(3)]
    ind = lambda x, i: add(atom("ind(parent(%s))[%d]" % (x, i)), atom("ind(%s)[%d]" % (x, i)), -1)
    base = AND(v.cond(n), ~eqf("0", nt))
    i0 = v.nodes.index(n)
    for rel, f in (("same size", AND(eq, ~less, ~more)), ("smaller to larger", AND(~eq, less, ~more)), ("larger to smaller", AND(~eq, ~less, more))):
        want = list(O)
        if rel == "smaller to larger":
            want = [add(want[i], ind(ct, i)) for i in range(3)]
        elif rel == "larger to smaller":
            want = [add(want[i], ind(nt, i), -1) for i in range(3)]
        want[d] = add(want[d], mul(const(sign), Tl if rel == "smaller to larger" else Fl))
        first = [m for m in v.nodes[:i0] if len(m.loops) >= depth and m.loops[:depth] == n.loops]
        r = types.SimpleNamespace(kind="ret", eff=("ret", off), loops=n.loops, guards=n.guards, id=-1)
        ns = types.SimpleNamespace(nodes=first + [r], cond=v.cond, txt=v.txt)
        todo, out = [AND(base, f, fam(ct), fam(nt))], []
        tries = 0
        while todo and tries < 40:
            tries += 1
            c = todo.pop()
            ev = evaluator({off: list(O)}, [(re.escape(Tt), "len(%s)" % ct)] if rel == "same size" else ())
            ev.assume = c
            try:
                out.append((c, normal.run(ns, r, ev, depth)))
            except Unknown:
                out.append((c, None))
            except Split as e:
                todo += [x for x in (AND(c, e.cond), AND(c, ~e.cond)) if satisfiable(x) is not None]
        for c, got in out:
            if not isinstance(got, list) or None in got:
                continue
            for i in range(3):
                rep.check(key(got[i]) == key(want[i]), "walk", "offset in %s when going from %s to face neighbor %d (%s)" % ("xyz"[i], "cell", k, rel), n.where(), "is %s, must be %s" % (shownf(got[i]), shownf(want[i])))


def siblings(rep, v, cur, off, cl, names, ct):
    """all siblings of a smaller cell are neighbors, starting from the one closest to start of the grid"""
    fit = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "asg" and n.eff[1] == "-=" and n.eff[2][0] == "[]" and n.eff[2][1] == off and len(n.loops) == 1]
    var = set()
    for n in v.nodes:
        for g in n.guards:
            m = re.search(r"get_siblings\(%s\)\[(%%[\w.#]+)\]" % re.escape(ct), ir.pr(g.cond))
            if m:
                var.add(m.group(1))
    vs = {x for n in fit for g in n.guards for x in normal.walk(g.cond) if x[0] == "v" and ir.pr(x) in var}
    if len(vs) != 1 or not fit:
        return
    i = vs.pop()
    C = atom("C")
    for d in range(3):
        mine = [n for n in fit if n.eff[2][2] == ("i", d)]
        if len(mine) != 1:
            continue
        n = mine[0]
        ev = evaluator((), names)
        try:
            val = ev.nf(n.eff[3])
        except Unknown:
            continue
        rep.check(key(val) == key(C), "siblings", "distance to the first sibling in %s" % "xyz"[d], n.where(), "is %s" % shownf(val))
        for num in range(8):
            ev = evaluator({i: const(num)}, names)
            gs = [iq(truth(g.cond), ev) for g in n.guards if g.kind not in ("abort", "catch") and any(x == i for x in normal.walk(g.cond)) and "get_siblings" not in ir.pr(g.cond)]
            c = AND(*gs)
            if c.atoms():
                continue
            rep.check((satisfiable(c) is not None) == bool(num >> d & 1), "siblings", "sibling %d is %sdisplaced in %s" % (num, "" if num >> d & 1 else "not ", "xyz"[d]), n.where(), "otherwise in the code")
    push = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "mut" and n.eff[1] == "push_back" and len(n.loops) == 4 and "get_siblings(%s)[" % ct in v.txt[n.id]]
    for n in push:
        x = n.eff[3][0]
        x = x[3] if x[0] == "call" and x[1] == "std::make_pair" else x[1]
        if len(x) != 2 or x[1][0] != "ilist":
            continue
        sib, offs = x[0], x[1][1]
        doms = [q.dom for q in n.loops[1:]]
        ok = all(q[0] == "ilist" and len(q[1]) == 2 and q[1][0] == ("i", 0) and relen(ir.pr(q[1][1]), cl, ct) == "C" for q in doms)
        rep.check(ok, "siblings", "siblings are a cell's length apart", n.where(), "; ".join(ir.pr(q) for q in doms))
        for d in range(3):
            ev = evaluator((), names)
            es = [y for y in normal.walk(offs[d]) if y[0] == "el" and y[1][0] == "ilist"]
            order = len(set(es)) == 1 and es[0][2] == sorted({y[2] for o in offs for y in normal.walk(o) if y[0] == "el" and y[1][0] == "ilist"})[2 - d]
            rep.check(order, "siblings", "siblings follow each other in x, then y, then z (%s)" % "xyz"[d], n.where(), ir.pr(offs[d]))
            try:
                e = dict(ev.env)
                ev.env.update({y: atom("E") for y in es})
                got = ev.nf(offs[d])
                rep.check(key(got) == key(add(atom("O%d" % d), atom("E"))), "siblings", "offset of siblings in %s" % "xyz"[d], n.where(), shownf(got))
            except Unknown:
                pass
        if sib[0] == "[]" and sib[2][0] == "v":
            ini = [m for m in v.nodes if m.kind == "eff" and m.eff[0] == "init" and m.eff[1] == sib[2]]
            inc = [m for m in v.nodes if m.kind == "eff" and m.eff[0] == "asg" and m.eff[2] == sib[2]]
            if len(ini) == 1 and len(inc) == 1:
                rep.check(ini[0].eff[2] == ("i", 0) and inc[0].eff[1:2] + inc[0].eff[3:] == ("+=", ("i", 1)) and inc[0].loops == n.loops, "siblings", "siblings are taken in order", inc[0].where(), v.txt[inc[0].id])
        c = normal.cond(n, evaluator((), names))
        want = AND(~zero(atom(ct)), pos(add(atom("N"), C, -1)))
        ce = implies(c, want)
        rep.check(ce is None, "siblings", "siblings are added for smaller cells only", n.where(), "also when %s" % (show(ce) if ce else ""))


# ------------------------------------------------------------ neighbors_to and others
def neighbors_to(rep, prog):
    v = view(prog, "Dccrg", "find_neighbors_to", 2)
    rep.saw(v)
    m = "mapping_rw."
    lv, mx = m + "get_refinement_level(arg0)", m + "get_maximum_refinement_level()"
    at = lambda cell, one: "indices_from_neighborhood(%sget_indices(%s), %sget_cell_length_in_indices(%s), arg1)" % (m, cell, m, one)
    par, ch = m + "get_parent(arg0)", m + "get_all_children(arg0)"
    lt = lambda a, b: F("atom", cmp_key("<", a, b))
    look = [("larger", at(par, par), "(%s - 1)" % lv, [], lt("0", lv)),
            ("smaller", [at("each(%s)" % ch, ch + "[0]"), at("each(%s)" % ch, "each(%s)" % ch)], "(%s + 1)" % lv, [ch], lt(lv, mx)),
            ("same size", at("arg0", "arg0"), lv, [], TRUE)]
    ins = [n for n in v.nodes if n.kind == "eff" and n.eff[0] in ("asg", "mut") and "get_cell_from_indices(each(indices_from_neighborhood(" in v.txt[n.id]]
    if not ins:
        return
    res = set()
    for n in ins:
        t = n.eff[2][1] if n.eff[0] == "asg" and n.eff[2][0] == "[]" else n.eff[2]
        res.add(ir.pr(t))
    if len(res) != 1:
        return
    u = res.pop()
    for what, ats, level, dom, when in look:
        pats, loops, want = [], [], None
        for a in [ats] if isinstance(ats, str) else ats:
            found = "%sget_cell_from_indices(each(%s), %s)" % (m, a, level)
            pats += ["%s[%s] = {0, 0, 0}" % (u, found), "%s.insert({%s, {0, 0, 0}})" % (u, found), "%s.insert(%s)" % (u, found), "%s.emplace(%s, {0, 0, 0})" % (u, found)]
            loops.append(dom + [a])
            w = AND(when, ~eqf("dccrg::error_index", "each(%s)[0]" % a), eqf("get_child(%s)" % found, found))
            if any(q == a for n in ins for q in v.loops(n)):
                want = w
        spec(rep, v, "to", pats, want if want is not None else w, "cells of %s at every place of the neighborhood consider the cell a neighbor" % what, loops)
    rv = [n for n in v.nodes if n.kind == "ret" and n.frame is v.L.frame and n.eff[1]]
    for r in rv:
        t = ir.pr(r.eff[1])
        if t == u or re.match(r"^std::vector", t):
            continue
        spec(rep, v, "to", ["%s.push_back(each(%s))" % (t, u), "%s.push_back({each(%s), {0, 0, 0}})" % (t, u), "%s.push_back(std::make_pair(each(%s), {0, 0, 0}))" % (t, u)], TRUE, "all found cells are returned", [[u]])


def at_offset(rep, prog):
    v = view(prog, "Dccrg", "get_neighbors_of_at_offset", 4)
    rep.saw(v)
    push = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "mut" and n.eff[1] == "push_back" and len(n.loops) == 2]
    for n in push:
        if v.loops(n)[1] != "neighbors_of[arg0]":
            continue
        a = v.loops(n)[0]
        rep.check(bool(re.match(r"^indices_from_neighborhood\(mapping_rw\.get_indices\(arg0\), mapping_rw\.get_cell_length_in_indices\(arg0\), .*\{\{?arg1, arg2, arg3\}\}?\)?\)$", a)), "offset", "place of given offset is looked for", n.where(), a)
        local = AND(F("atom", "has(cell_process, arg0)"), eqf("cell_process[arg0]", "rank"), OR(*[~eqf("0", "arg%d" % i) for i in (1, 2, 3)]))
        same = AND(*[eqf("each(%s)[%d]" % (a, d), "mapping_rw.get_indices(each(neighbors_of[arg0]).first)[%d]" % d) for d in range(3)])
        cases(rep, "offset", "neighbors at given offset are those whose indices are at the place", n.where(), v.cond(n), AND(local, same))
        rep.check(v.txt[n.id].endswith(".push_back(each(neighbors_of[arg0]))"), "offset", "neighbors are returned as recorded", n.where(), v.txt[n.id])


def existing(rep, prog):
    """the smallest existing cell is found"""
    v = view(prog, "Dccrg", "get_existing_cell", 3)
    rep.saw(v)
    for n in v.nodes:
        if n.kind != "ret" or not n.loops or n.frame is not v.L.frame:
            continue
        m = re.match(r"^return mapping_rw\.get_cell_from_indices\(arg0, (.*)\)$", v.txt[n.id])
        q = n.loops[0].dom
        if not m or len(n.loops) != 1:
            continue
        found = v.txt[n.id][7:]
        c = v.cond(n)
        rep.check(implies(c, F("atom", "has(cell_process, %s)" % found)) is None, "existing", "only existing cells are found", n.where(), "found when %s" % c)
        if q[0] == "while" and q[1][0] == "bin":
            i = [x for x in normal.walk(q[1]) if x[0] == "v" and ir.pr(x) == m.group(1)]
            if not i:
                continue
            ini = [x for x in v.nodes if x.kind == "eff" and x.eff[0] == "init" and x.eff[1] == i[0]]
            inc = [x for x in v.nodes if x.kind == "eff" and x.eff[0] == "asg" and x.eff[2] == i[0]]
            if len(ini) == len(inc) == 1:
                rep.check(ir.pr(ini[0].eff[2]) == "arg2" and inc[0].eff[1] == "-=" and inc[0].eff[3] == ("i", 1), "existing", "search starts from the smallest cells", ini[0].where(), v.txt[ini[0].id] + ", " + v.txt[inc[0].id])
                ev = evaluator({i[0]: atom("i")})
                got = iq(q[1], ev)
                want = pos(add(add(atom("i"), atom("arg1"), -1), const(1)))
                rep.check(implies(got, want) is None and implies(want, got) is None, "existing", "search ends after the largest cells", n.where(), ir.pr(q))


def boxes(rep, prog):
    v = view(prog, "Dccrg", "find_cells", 4)
    rep.saw(v)
    push = [n for n in v.nodes if n.kind == "eff" and n.eff[0] == "mut" and n.eff[1] == "push_back" and len(n.loops) == 3 and "get_existing_cell(" in v.txt[n.id]]
    for n in push:
        m = re.match(r"^%[\w.#]+\.push_back\(get_existing_cell\((%[\w.#]+), arg2, arg3\)\)$", v.txt[n.id])
        if not m:
            continue
        for d, q in zip((2, 1, 0), n.loops):
            q = q.dom
            t = "%s[%d]" % (m.group(1), d)
            if q[0] != "while":
                return
            ev = evaluator((), [(re.escape(t), "I")])
            got, want = iq(truth(q[1]), ev), pos(add(add(atom("arg1[%d]" % d), atom("I"), -1), const(1)))
            rep.check(implies(got, want) is None and implies(want, got) is None, "box", "search in a box ends at its end (%s)" % "xyz"[d], n.where(), ir.pr(q))
            ini = [x for x in v.nodes if x.kind == "eff" and v.txt[x.id].startswith(t + " = ")]
            for x in ini:
                rep.check(v.txt[x.id] == "%s = arg0[%d]" % (t, d), "box", "search in a box starts from its start (%s)" % "xyz"[d], x.where(), v.txt[x.id])
            for x in [x for x in v.nodes if x.kind == "eff" and x.eff[0] == "asg" and x.eff[1] == "+=" and ir.pr(x.eff[2]) == t]:
                try:
                    s = evaluator().nf(x.eff[3])
                except Unknown:
                    continue
                rep.check(key(s) == key(pow2(add(atom("M"), atom("arg3"), -1))), "box", "search in a box advances by length of smallest searched cells (%s)" % "xyz"[d], x.where(), shownf(s))


def run(rep, prog, tier):
    ir.TYPED = True
    places(rep, prog)
    faces(rep, prog)
    face_list(rep, prog)
    walk_rule(rep, prog)
    neighbors_to(rep, prog)
    at_offset(rep, prog)
    existing(rep, prog)
    boxes(rep, prog)
