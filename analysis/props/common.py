"""Shared pieces of the rules: state invariants and views."""
import re
from rules import *

CP, CD = "each(cell_process).first", "each(cell_data).first"
LEAF = [CP, CD, "each(local_cells_on_process_boundary)"]

_views = {}


def view(prog, cls, name, nparams=None, inline=(), opaque=(), **kw):
    k = (id(prog), cls, name, nparams, tuple(inline), tuple(opaque), tuple(sorted(kw.items())))
    if k not in _views:
        _views[k] = View(prog, prog.one(cls, name, nparams), inline, opaque, **kw)
    return _views[k]


def invariants(text):
    """facts that hold for every grid between calls: known cells have no
    children and are not the error cell; cells with data here are known and
    owned by this process"""
    for e in LEAF:
        if text == cmp_key("==", e, "get_child(%s)" % e) or text == cmp_key("==", e, "get_parent(%s)" % e):
            return True
        if text == cmp_key("==", "0", e):
            return False
    if text in ("has(cell_process, %s)" % CD, cmp_key("==", "cell_process[%s]" % CD, "rank")):
        return True
    return None


def success(text):
    """conditions that hold when start-up succeeds"""
    v = invariants(text)
    if v is not None:
        return v
    if re.match(r"^(initialize_mpi|initialize_zoltan|\w+_rw\.read)\(", text):
        return True
    return None


def eqf(a, b):
    return F("atom", cmp_key("==", a, b))


# ------------------------------------------------------- quantifiers and flows
def EX(dom, body):
    """formula: some element of the domain (canonical text) satisfies body"""
    return exists_atom([dom] if isinstance(dom, str) else list(dom), body)


def rename(f, sub):
    """apply a text substitution to all atoms (also inside quantifiers)"""
    if f.k == "atom":
        t = f.a[0]
        n = sub(t)
        if t in EXISTS:
            els, body = EXISTS[t]
            if n not in EXISTS or n != t:
                EXISTS[n] = (tuple(sorted(sub(e) for e in els)), rename(body, sub))
            return F("atom", n)
        c = _split(n)
        return F("atom", cmp_key(*c)) if c else F("atom", n)
    if f.k == "b":
        return f
    return F(f.k, *[rename(x, sub) for x in f.a])


def _split(t):
    import rules
    return rules._split_cmp(t)


def inflows(v, target, depth=0, seen=()):
    """every way an element gets into a container: (value, condition, loops,
    node), followed through local containers it was collected in"""
    out = []
    for n, b in v.find([target + ".insert($x)", target + ".push_back($x)", target + ".emplace($x)", target + ".emplace_back($x)"]):
        x, c, ls = b["x"], v.cond(n), v.loops(n)
        m = re.match(r"^each\((%[\w.#]+)\)$", x)
        if m and depth < 4 and m.group(1) not in seen:
            sub = inflows(v, m.group(1), depth + 1, seen + (m.group(1),))
            # a copy of a whole container
            if sub:
                for val, cc, ll, nn in sub:
                    rest = [l for l in ls if l != m.group(1) and l not in ll]
                    f = rename(c, lambda t, val=val: t.replace(x, val))
                    out.append((val, AND(f, cc), rest + ll, n))
                continue
        out.append((x, c, ls, n))
    return out


def spec(rep, v, rule, pats, want, what, loops, assume=None, sub=None, hyp=TRUE, exits=True):
    """one of the effects happens for every element of the loops iff `want`
    (conditions compared after the substitution `sub` of atoms).  `loops` is a
    list of alternative lists."""
    rep.saw(v)
    q = v.func.q.split("::")[-1]
    what = "%s: %s" % (q, what)
    pats = [pats] if isinstance(pats, str) else pats
    alts = loops if loops and isinstance(loops[0], (list, tuple)) else [loops]
    ms = v.find(pats)
    good = [n for n, _ in ms if any(sorted(v.loops(n)) == sorted(a) for a in alts)]
    if not good:
        rep.bad(rule, what, (ms[0][0].where() if ms else "%s:%d" % (v.func.file, v.func.line)),
                "required effect missing" + (": found only in loops %s" % v.loops(ms[0][0]) if ms else ""))
        return []
    fix = lambda f: simplify(rename(f, sub) if sub else f, lambda t: assume(t) if assume else None)
    c = fix(OR(*[v.cond(n) for n in good]))
    want, hyp = fix(want), fix(hyp)
    ce = implies(AND(hyp, want), c)
    if ce is not None:
        rep.bad(rule, what, good[0].where(), "does not happen when %s" % show(ce))
        return good
    ce = implies(AND(hyp, c), want)
    if ce is not None:
        rep.bad(rule, what, good[0].where(), "happens also when %s" % show(ce))
        return good
    if exits:
        for n in good:
            for l in n.loops:
                ex = [x for x in v.loop_exits(l) if satisfiable(AND(hyp, fix(v.exit_cond(x)))) is not None]
                if ex:
                    rep.bad(rule, what, ex[0][0].where(), "the loop over %s may end early when %s" % (pr(l.dom), v.exit_cond(ex[0])))
                    return good
    rep.ok(rule, what, good[0].where())
    return good


def noop_erase(t, pairs):
    """erasing what is not there does nothing: the guard does not matter"""
    return True if t in ["has(%s, %s)" % p for p in pairs] else None


def kept_requests(v):
    """requests started in a local variable and then recorded in a list are seen as the last item of the list;
    returns the starts with what records them"""
    out = {}
    for n in v.nodes:
        m = re.match(r"^(MPI_I(?:send|recv)\(.*, )&(%[\w.#]+)\)$", v.txt.get(n.id, "")) if n.kind == "eff" else None
        if not m:
            continue
        ps = [(x, re.match(r"^([a-z_]\w*\[.*\])\.(?:push_back|emplace_back)\(%s\)$" % re.escape(m.group(2)), v.txt.get(x.id, ""))) for x in v.nodes if x.kind == "eff"]
        ps = [(x, k.group(1)) for x, k in ps if k and v.loops(x) == v.loops(n)]
        if len(ps) == 1:
            v.txt[n.id] = "%s&%s.back())" % (m.group(1), ps[0][1])
            out[n.id] = ps[0][0]
    old = getattr(v, "kept", {})
    old.update(out)
    v.kept = old
    return v.kept
