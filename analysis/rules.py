"""Rule engine: patterns over canonical effects, conditions as formulas,
coverage of loops, ordering on the control-flow graph."""
import itertools, json, os, re
import facts, ir
from facts import AnalysisBroken
from ir import pr, pr_eff, mk_and, mk_or, mk_not, truth

HERE = os.path.dirname(os.path.abspath(__file__))
VOCAB = None


def fkey(g):
    return "%s/%d" % ("%s::%s" % (g.cls, g.name) if g.cls else g.q, len(g.params))


def vocab():
    global VOCAB
    if VOCAB is None:
        VOCAB = set(json.load(open(os.path.join(HERE, "vocab.json"))))
    return VOCAB


# ------------------------------------------------------------------- patterns
def match(pat, txt, env=None):
    """unify pattern text with canonical text; $x stands for any balanced text;
    returns a binding or None"""
    def balanced_prefixes(t, i):
        d = 0
        j = i
        while j < len(t):
            c = t[j]
            if c in "([{":
                d += 1
            elif c in ")]}":
                if d == 0:
                    break
                d -= 1
            elif c == "," and d == 0:
                break
            j += 1
            if d == 0:
                yield j

    def go(pi, ti, e):
        while pi < len(pat):
            c = pat[pi]
            if c == "$":
                m = re.compile(r"\$(\w+)").match(pat, pi)
                name = m.group(1)
                if name in e and name != "_":
                    v = e[name]
                    if txt.startswith(v, ti):
                        pi, ti = m.end(), ti + len(v)
                        continue
                    return None
                for j in balanced_prefixes(txt, ti):
                    e2 = dict(e)
                    e2[name] = txt[ti:j]
                    r = go(m.end(), j, e2)
                    if r is not None:
                        return r
                return None
            if ti >= len(txt) or txt[ti] != c:
                return None
            pi += 1
            ti += 1
        return e if ti == len(txt) else None
    return go(0, 0, dict(env or {}))


# ------------------------------------------------------------------- formulas
class F:
    """formula over atoms (canonical text)"""
    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __and__(self, o):
        return F("and", self, o)

    def __or__(self, o):
        return F("or", self, o)

    def __invert__(self):
        return F("not", self)

    def atoms(self):
        if self.k == "atom":
            return {self.a[0]}
        s = set()
        for x in self.a:
            if isinstance(x, F):
                s |= x.atoms()
        return s

    def ev(self, m):
        k = self.k
        if k == "atom":
            return m[self.a[0]]
        if k == "b":
            return self.a[0]
        if k == "not":
            return not self.a[0].ev(m)
        if k == "and":
            return all(x.ev(m) for x in self.a)
        return any(x.ev(m) for x in self.a)

    def __str__(self):
        k = self.k
        if k == "atom":
            return self.a[0]
        if k == "b":
            return str(self.a[0]).lower()
        if k == "not":
            return "!" + str(self.a[0])
        return "(" + (" && " if k == "and" else " || ").join(str(x) for x in self.a) + ")"


TRUE, FALSE = F("b", True), F("b", False)


def AND(*x):
    return F("and", *x) if x else TRUE


def OR(*x):
    return F("or", *x) if x else FALSE


def A(text):
    """atom from canonical text; != <= and ! are read as negations"""
    t = text.strip()
    if t.startswith("!"):
        return ~A(t[1:])
    if t.startswith("(") and t.endswith(")"):
        d = 0
        for i, c in enumerate(t):
            if c in "([{":
                d += 1
            elif c in ")]}":
                d -= 1
            if d == 1:
                if t.startswith(" != ", i):
                    return ~F("atom", cmp_key("==", t[1:i], t[i + 4:-1]))
                if t.startswith(" <= ", i):
                    return ~F("atom", cmp_key("<", t[i + 4:-1], t[1:i]))
                if t.startswith(" == ", i):
                    return F("atom", cmp_key("==", t[1:i], t[i + 4:-1]))
                if t.startswith(" < ", i):
                    return F("atom", cmp_key("<", t[1:i], t[i + 3:-1]))
    return F("atom", t)


def cmp_key(o, a, b):
    if o == "==" and b < a:
        a, b = b, a
    return "(%s %s %s)" % (a, o, b)


def fml(x):
    """formula of a canonical term in boolean position"""
    t = x[0]
    if t == "b":
        return F("b", x[1])
    if t == "not":
        return ~fml(truth(x[1]))
    if t == "and":
        return F("and", *[fml(truth(y)) for y in x[1]])
    if t == "or":
        return F("or", *[fml(truth(y)) for y in x[1]])
    if t == "bin" and x[1] in ("==", "!=", "<", "<="):
        o, a, b = x[1:]
        if o == "==":
            return F("atom", cmp_key("==", pr(a), pr(b)))
        if o == "!=":
            return ~F("atom", cmp_key("==", pr(a), pr(b)))
        if o == "<":
            return F("atom", cmp_key("<", pr(a), pr(b)))
        return ~F("atom", cmp_key("<", pr(b), pr(a)))
    if t == "has":
        k = x[2]
        # an element of a container is in the container
        if k[0] == "." and k[2] == "first" and k[1][0] == "el" and k[1][1] == x[1]:
            return TRUE
        if k[0] == "el" and k[1] == x[1]:
            return TRUE
    if t == "exists":
        if x[2] == ("b", False):
            return FALSE
        return exists_atom([pr(d) for d in x[1]], fml(truth(x[2])), pr(x))
    if t == "cond":
        c = fml(truth(x[1]))
        return (c & fml(truth(x[2]))) | (~c & fml(truth(x[3])))
    return F("atom", pr(x))


def simplify(f, assume):
    """fix assumed atoms; `assume(text)` gives True, False or None"""
    if f.k == "atom":
        v = assume(f.a[0])
        return f if v is None else F("b", v)
    if f.k == "b":
        return f
    if f.k == "not":
        g = simplify(f.a[0], assume)
        return F("b", not g.a[0]) if g.k == "b" else ~g
    xs = [simplify(x, assume) for x in f.a]
    if f.k == "and":
        if any(x.k == "b" and not x.a[0] for x in xs):
            return FALSE
        xs = [x for x in xs if x.k != "b"]
        return AND(*xs)
    if any(x.k == "b" and x.a[0] for x in xs):
        return TRUE
    xs = [x for x in xs if x.k != "b"]
    return OR(*xs)


def cofactor(f, atom, val):
    return simplify(f, lambda t: val if t == atom else None)


def conjuncts(f):
    return [y for x in f.a for y in conjuncts(x)] if f.k == "and" else [f]


def exists_atom(doms, body, key=None):
    """formula: some elements of the domains satisfy body; parts of the body
    that do not depend on the elements are moved out"""
    els = tuple(sorted("each(%s)" % d for d in doms))
    cs = conjuncts(body)
    inside = [c for c in cs if any((a not in EXISTS or not set(EXISTS[a][0]) <= set(els)) and any(e in a for e in els) for a in c.atoms())]
    if any(d.startswith("while(") for d in doms):
        # what an iteration looks at is in local variables
        inside = [c for c in cs if any("%" in a for a in c.atoms())]
    outside = [c for c in cs if not any(c is x for x in inside)]
    if outside or key is None:
        body = AND(*inside)
        key = "exists(%s: %s)" % (", ".join(doms), body)
    EXISTS.setdefault(key, (els, body))
    return AND(*(outside + [F("atom", key)])) if outside else F("atom", key)


# quantified atoms: text -> (bound elements, formula of the body)
EXISTS = {}


def _split_cmp(t):
    """(operator, left, right) of a comparison atom"""
    if not (t.startswith("(") and t.endswith(")")):
        return None
    d = 0
    for i, c in enumerate(t):
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d == 0 and i < len(t) - 1:
                return None
        if d == 1 and c == " ":
            if t.startswith(" == ", i):
                return "==", t[1:i], t[i + 4:-1]
            if t.startswith(" < ", i):
                return "<", t[1:i], t[i + 3:-1]
    return None


_cmpcache = {}


def contradictory(m):
    """no values can make the atoms of the assignment come out like this:
    a<b, a==b, b<a exclude each other and one of them holds; an element with
    a property that no element has; an element of an empty container"""
    pairs = {}
    for t, v in m.items():
        c = _cmpcache.get(t, 0)
        if c == 0:
            c = _cmpcache[t] = _split_cmp(t)
        if c:
            o, a, b = c
            k = (a, b) if a < b else (b, a)
            pairs.setdefault(k, {})[o if o == "==" else (0 if a < b else 1)] = v
    same = {}

    def root(x):
        while x in same:
            x = same[x]
        return x
    for k, r in pairs.items():
        if sum(1 for v in r.values() if v) > 1 or (len(r) == 3 and not any(r.values())):
            return True
        if r.get("=="):
            a, b = root(k[0]), root(k[1])
            if a != b:
                if re.match(r"-?\d+$", a):
                    a, b = b, a
                if re.match(r"-?\d+$", a):
                    return True
                same[a] = b
    if len(same) > 1:
        for k, r in pairs.items():
            if (r.get("==") is False or r.get(0) or r.get(1)) and root(k[0]) == root(k[1]):
                return True
    ex = [(t, v) + EXISTS[t] for t, v in m.items() if t in EXISTS]
    for t, v, els, body in ex:
        if not v:
            continue
        for e in els:
            if m.get("empty(%s)" % e[5:-1]):
                return True
        f = [body]
        for t2, v2, els2, body2 in ex:
            if not v2 and set(els2) <= set(els):
                f.append(~body2)
        ctx = {a: w for a, w in m.items() if a not in EXISTS and not any(e in a for e in els)}
        f = simplify(AND(*f), lambda a: m.get(a) if not any(e in a for e in els) or a in EXISTS and set(EXISTS[a][0]) <= set(els) else None)
        if satisfiable(f, ctx) is None:
            return True
    # the element at hand has none of the properties that no element has
    f = [~body for t, v, els, body in ex if not v and any(e in a for e in els for a in m if a not in EXISTS)]
    if f:
        ctx = {a: w for a, w in m.items() if a not in EXISTS}
        if satisfiable(simplify(AND(*f), m.get), ctx) is None:
            return True
    return False


def satisfiable(f, given=None):
    """a satisfying assignment of a formula, or None"""
    m = dict(given or {})
    f = simplify(f, lambda t: None)
    cnt = {}

    def count(g):
        if g.k == "atom":
            cnt[g.a[0]] = cnt.get(g.a[0], 0) + 1
        else:
            for x in g.a:
                if isinstance(x, F):
                    count(x)

    def go(f, m):
        if f.k == "b":
            return m if f.a[0] and not contradictory(m) else None
        cnt.clear()
        count(f)
        a = max(sorted(cnt), key=lambda k: cnt[k])
        for v in (True, False):
            r = go(cofactor(f, a, v), {**m, a: v})
            if r is not None:
                return r
        return None
    r = go(f, m)
    return None if r is None else {k: v for k, v in r.items() if not given or k not in given}


def implies(f, g):
    """None if f implies g, else a counterexample assignment"""
    return satisfiable(AND(f, ~g))


# ---------------------------------------------------------------------- views
LIB_STATUS = re.compile(r"^(MPI_|Zoltan_)")


class View:
    """one function lowered under one inlining policy"""
    cache = {}

    def __init__(self, prog, func, inline=(), opaque=(), user_args=(), default_args=()):
        self.prog = prog
        self.func = func
        v = vocab()
        inl, opq = set(inline), set(opaque)

        def policy(g):
            if g.name in opq:
                return False
            key = fkey(g)
            if key not in v:
                return True
            if g.name in inl or g.name in ("is_local",):
                return True
            if "*mut" in inl and g.cls == func.cls and not g.d.get("const") and not g.d.get("static"):
                return True
            if "*all" in inl and g.cls == func.cls:
                return True
            return False
        self.L = ir.lower(prog, func, policy, user_args, default_args)
        self.nodes = self.L.nodes
        self.entry, self.exit = self.L.entry, self.L.exit
        self._status = None
        self._dom = None
        self._pdom = None
        self.txt = {}
        for n in self.nodes:
            if n.eff is not None and n.kind in ("eff", "ret", "abort", "pcall", "bind"):
                self.txt[n.id] = pr_eff(n.eff)

    def status_vars(self):
        """local variables that only hold results of MPI or Zoltan calls"""
        if self._status is None:
            good, bad = set(), set()
            for n in self.nodes:
                e = n.eff
                if n.kind not in ("eff", "bind") or e is None:
                    continue
                if e[0] == "init" or (e[0] == "asg" and e[2][0] == "v"):
                    var, val = (e[1], e[2]) if e[0] == "init" else (e[2], e[3])
                    if val[0] == "call" and LIB_STATUS.match(val[1]):
                        good.add(var)
                    elif val[0] in ("i", "undef", "g"):
                        pass
                    else:
                        bad.add(var)
            self._status = {v for v in good - bad}
            self._status_names = {pr(v) for v in self._status}
        return self._status

    def neutral(self, text):
        """success of a library call is assumed where an effect is required"""
        self.status_vars()
        m = re.match(r"^\((.*) == (.*)\)$", text)
        if m:
            for a, b in ((m.group(1), m.group(2)), (m.group(2), m.group(1))):
                if (a in self._status_names or LIB_STATUS.match(a)) and re.match(r"^(0|MPI_SUCCESS|ZOLTAN_OK)$", b):
                    return True
        return None

    # -- effects
    def find(self, pats, env=None, kinds=("eff",)):
        """[(node, binding)]"""
        if isinstance(pats, str):
            pats = [pats]
        out = []
        for n in self.nodes:
            if n.kind in kinds and n.id in self.txt:
                for p in pats:
                    b = match(p, self.txt[n.id], env)
                    if b is not None:
                        out.append((n, b))
                        break
        return out

    def writes(self, field):
        """effects on a member of this object (or below it)"""
        out = []
        for n in self.nodes:
            e = n.eff
            if n.kind != "eff" or e is None:
                continue
            if e[0] == "asg":
                t = e[2]
            elif e[0] == "mut":
                t = e[2]
            else:
                continue
            r = ir.root(t)
            if r == (".", ("this",), field):
                out.append(n)
        return out

    def cond(self, n, drop=("abort", "catch")):
        gs = []
        for g in n.guards:
            if g.kind in drop:
                continue
            f = fml(truth(g.cond))
            if g.kind == "brk":
                gs.append(f)
            else:
                gs.append(f)
        return simplify(AND(*gs), self.neutral)

    def success(self):
        """condition under which the function does not report failure"""
        if not hasattr(self, "_succ"):
            out = []
            for n in self.nodes:
                if n.kind == "ret" and n.frame is self.L.frame:
                    c = self.cond(n)
                    v = n.eff[1]
                    if v is not None and self.func.rt in ("bool", "_Bool"):
                        c = AND(c, fml(truth(v)))
                    out.append(c)
                    if v is None or self.func.rt not in ("bool", "_Bool"):
                        out = [TRUE]
                        break
            self._succ = simplify(OR(*out), self.neutral) if out else TRUE
        return self._succ

    def loops(self, n):
        return [pr(l.dom) for l in n.loops]

    def loop_exits(self, ref):
        """ways to leave a loop early (not aborting): [(from node, to node)]"""
        lp = ref.loop
        out = []
        for n in self.nodes:
            if not any(l.loop is lp for l in n.loops):
                continue
            for s, lab in n.succ:
                if s is lp.node or any(l.loop is lp for l in s.loops) or lab == "exc":
                    continue
                if n is lp.node:
                    continue
                # the normal exit of a while loop leaves from its condition
                if lp.dom[0] == "while" and n.kind == "br" and lab is False and n.eff[1] == (lp.dom[1] if len(lp.dom) > 1 else None):
                    continue
                out.append((n, s))
        return out

    def exit_cond(self, pair):
        n, s = pair
        gs = list(n.guards)
        c = AND(*[fml(truth(g.cond)) for g in gs if g.kind not in ("abort", "catch")])
        if n.kind == "br":
            lab = [l for t, l in n.succ if t is s][0]
            b = fml(truth(n.eff[1]))
            c = AND(c, b if lab is True else ~b)
        return simplify(c, self.neutral)

    def failing(self, n):
        """a return of the analysed function that reports failure, or a node
        only reached when a library call failed"""
        if n.kind == "ret" and n.frame is self.L.frame and n.eff[1] == ("b", False):
            return True
        return self.errnode(n)

    def errnode(self, n):
        if not hasattr(self, "_err"):
            self._err = {}
        r = self._err.get(n.id)
        if r is None:
            r = False
            for g in n.guards:
                f = simplify(fml(truth(g.cond)), self.neutral)
                if f.k == "b" and not f.a[0]:
                    r = True
            self._err[n.id] = r
        return r

    # -- graph
    def doms(self, post=False):
        """dominator sets as bitmasks"""
        attr = "_pdom" if post else "_dom"
        if getattr(self, attr) is not None:
            return getattr(self, attr)
        nodes = self.nodes
        N = len(nodes)
        full = (1 << N) - 1
        idx = {n.id: i for i, n in enumerate(nodes)}
        start = self.exit if post else self.entry

        def preds(n):
            return [s for s, l in n.succ if l != "exc"] if post else [p for p, l in n.pred if l != "exc"]
        D = [full] * N
        D[idx[start.id]] = 1 << idx[start.id]
        order = list(range(N))
        if post:
            order.reverse()
        ch = True
        while ch:
            ch = False
            for i in order:
                n = nodes[i]
                if n is start:
                    continue
                m = full
                ps = preds(n)
                for p in ps:
                    m &= D[idx[p.id]]
                if not ps:
                    m = full
                m |= 1 << i
                if m != D[i]:
                    D[i] = m
                    ch = True
        r = (D, idx)
        setattr(self, attr, r)
        return r

    def dominates(self, a, b):
        D, idx = self.doms()
        return bool(D[idx[b.id]] >> idx[a.id] & 1)

    def postdominates(self, a, b):
        D, idx = self.doms(True)
        return bool(D[idx[b.id]] >> idx[a.id] & 1)

    def head(self, n, outside=()):
        """the head of the outermost loop around n that is not in `outside`"""
        for l in n.loops:
            if l.loop not in outside:
                return l.loop.node
        return n


# -------------------------------------------------------------------- reports
class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obligations = []     # dicts
        self.violations = []
        self.funcs = set()
        self.known = []

    def ok(self, rule, what, where=""):
        self.obligations.append({"rule": rule, "what": what, "where": where, "ok": True})

    def bad(self, rule, what, where="", detail="", key=None):
        self.obligations.append({"rule": rule, "what": what, "where": where, "ok": False})
        self.violations.append({"rule": rule, "what": what, "where": where, "detail": detail,
                                "key": key or (rule + "|" + what)})

    def check(self, cond, rule, what, where="", detail="", key=None):
        if cond:
            self.ok(rule, what, where)
        else:
            self.bad(rule, what, where, detail, key)
        return cond

    def saw(self, view):
        self.funcs.add(view.func.q)
        for f in view.L.inlined:
            self.funcs.add(f.q)

    # "for all elements of `loops` with `when`, this effect happens"
    def effect(self, view, rule, pats, when=TRUE, loops=None, only=True, must=True, what=None, env=None, assume=None, exits=None, kinds=("eff",), onsuccess=False):
        self.saw(view)
        pats = [pats] if isinstance(pats, str) else pats
        what = what or pats[0]
        q = view.func.q.split("::")[-1]
        what = "%s: %s" % (q, what)
        ms = view.find(pats, env, kinds)
        if loops is not None:
            ms2 = []
            for n, b in ms:
                ls = view.loops(n)
                if len(ls) != len(loops):
                    continue
                for perm in itertools.permutations(ls) if len(ls) <= 4 else [ls]:
                    e = b
                    for p, l in zip(loops, perm):
                        alts = p if isinstance(p, (list, tuple)) else [p]
                        r = None
                        for alt in alts:
                            r = match(alt, l, e)
                            if r is not None:
                                break
                        if r is None:
                            e = None
                            break
                        e = r
                    if e is not None:
                        ms2.append((n, e))
                        break
            near = ms
            ms = ms2
            if not ms and len(loops) > 0 and isinstance(loops[-1], str):
                h = self.hoisted(view, near, when, loops, assume, onsuccess)
                if h:
                    self.ok(rule, what, h[0][0].where())
                    return h
        else:
            near = ms
        if not ms:
            w = near[0][0].where() if near else "%s:%d" % (view.func.file, view.func.line)
            d = "found only in loops %s" % [view.loops(n) for n, _ in near] if near else "no such effect on any path"
            self.bad(rule, what, w, "required effect missing: " + d)
            return []
        conds = [view.cond(n) for n, _ in ms]
        c = OR(*conds)
        S = view.success() if onsuccess else TRUE
        if assume:
            c = simplify(c, assume)
            S = simplify(S, assume)
            when = simplify(when, assume)
        w = ms[0][0].where()
        if must:
            ce = implies(AND(S, when), c)
            if ce is not None:
                self.bad(rule, what, w, "does not happen when %s (condition in code: %s)" % (show(ce), c))
                return ms
        if only:
            ce = implies(AND(S, c), when)
            if ce is not None:
                self.bad(rule, what, w, "happens also when %s (required: only when %s)" % (show(ce), when))
                return ms
        if must:
            for n, _ in ms:
                for l in n.loops:
                    ex = [x for x in view.loop_exits(l)]
                    ex = [x for x in ex if satisfiable(view.exit_cond(x)) is not None]
                    if exits is not None:
                        ex = [x for x in ex if not exits(view, x)]
                    if ex:
                        self.bad(rule, what, ex[0][0].where(), "the loop over %s may end early when %s" % (pr(l.dom), view.exit_cond(ex[0])))
                        return ms
        self.ok(rule, what, w)
        return ms

    def hoisted(self, view, near, when, loops, assume, onsuccess):
        """the effect after the loop instead of in it: it happens if there is
        an element for which it should have happened"""
        out = []
        for n, b in near:
            ls = view.loops(n)
            if len(ls) != len(loops) - 1 or any(match(p, l, b) is None for p, l in zip(loops, ls)):
                continue
            c = view.cond(n)
            if assume:
                c = simplify(c, assume)
            for a in c.atoms():
                els, f = EXISTS.get(a, ((), None))
                if len(els) != 1 or match(loops[-1], els[0][5:-1], b) is None:
                    continue
                w = when
                if assume:
                    f, w = simplify(f, assume), simplify(w, assume)
                if implies(f, w) is None and implies(w, f) is None and implies(AND(F("atom", a), view.success() if onsuccess else TRUE), c) is None:
                    out.append((n, b))
                    break
        return out

    def follows(self, view, rule, firsts, thens, what, env_note=""):
        """on every path from each node in firsts to a successful exit, one of
        thens is passed (returning false or aborting is not success)"""
        self.saw(view)
        q = view.func.q.split("::")[-1]
        okall = True
        for f in firsts:
            fl = {l.loop for l in f.loops}
            avoid = set()
            for t in thens:
                avoid.add(view.head(t, fl).id)
                avoid.add(t.id)
            p = ir.path_avoiding([f], lambda n: n is view.exit, lambda n: n.id in avoid or view.failing(n))
            if p is not None:
                okall = False
                rets = [n for n in p if n.kind == "ret"]
                self.bad(rule, "%s: %s" % (q, what), f.where(), "a path from %s to the end of the function (leaving at %s) avoids it" % (
                    view.txt.get(f.id, ""), (rets[-1] if rets else p[-1]).where()))
                break
        if okall and firsts:
            self.ok(rule, "%s: %s" % (q, what), firsts[0].where())
        return okall

    def precedes(self, view, rule, befores, afters, what):
        """every path from the entry to each node in afters passes one of befores"""
        self.saw(view)
        q = view.func.q.split("::")[-1]
        ids = set()
        for b in befores:
            ids.add(b.id)
        okall = True
        for a in afters:
            al = {l.loop for l in a.loops}
            av = set(ids)
            for b in befores:
                h = view.head(b, al)
                if h is not a:
                    av.add(h.id)
            p = ir.path_avoiding([view.entry], lambda n: n is a, lambda n: n.id in av)
            if p is not None:
                okall = False
                self.bad(rule, "%s: %s" % (q, what), a.where(), "%s can be reached without it" % view.txt.get(a.id, ""))
                break
        if okall and afters:
            self.ok(rule, "%s: %s" % (q, what), afters[0].where())
        return okall

    def not_after(self, view, rule, firsts, laters, what):
        """none of firsts can be reached from any of laters (within one pass of
        the loops they share)"""
        self.saw(view)
        q = view.func.q.split("::")[-1]
        for b in laters:
            bl = [l.loop for l in b.loops]
            for a in firsts:
                shared = [l.loop for l in a.loops if l.loop in bl]
                heads = {l.node.id for l in shared}
                p = ir.path_avoiding([b], lambda n: n is a, lambda n: n.id in heads)
                if p is not None:
                    self.bad(rule, "%s: %s" % (q, what), a.where(), "%s happens after %s (%s)" % (
                        view.txt.get(a.id, ""), view.txt.get(b.id, ""), b.where()))
                    return False
        self.ok(rule, "%s: %s" % (q, what), firsts[0].where() if firsts else "")
        return True


def show(ce):
    return " && ".join(("" if v else "!") + k for k, v in sorted(ce.items())) or "always"


def ret_formula(view, want=True):
    """condition under which a bool function returns `want` (aborts excluded)"""
    out = []
    fr = view.L.frame
    for n in view.nodes:
        if n.kind == "ret" and n.frame is fr and n.eff[1] is not None:
            f = fml(truth(n.eff[1]))
            if not want:
                f = ~f
            out.append(AND(view.cond(n), f))
    return simplify(OR(*out), lambda t: None)


def make_vocab():
    """names of the functions of the tree the rules were written for"""
    names = set()
    for defs in ((), ("DEBUG",), ("DCCRG_NO_LB",)):
        p = facts.load("main.cpp", defs)
        for f in p.funcs:
            names.add(fkey(f))
    json.dump(sorted(names), open(os.path.join(HERE, "vocab.json"), "w"), indent=0)
    return len(names)


if __name__ == "__main__":
    print(make_vocab())
