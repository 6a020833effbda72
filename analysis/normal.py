"""Normal forms of arithmetic: sums of rational multiples of products of atoms and
powers of two, with integer quotients, remainders and sums over ranges as atoms.
Two expressions with the same normal form have the same value (up to rounding and
overflow)."""
import re
from fractions import Fraction
import ir


class Unknown(Exception):
    pass


class Split(Exception):
    """the value depends on a condition"""
    def __init__(self, cond):
        self.cond = cond


one = ((), ())  # product of nothing


def key(nf):
    return tuple(sorted(((m, c) for m, c in nf.items()), key=repr))


def const(c):
    return {((), ()): Fraction(c)} if c else {}


def atom(a):
    return {(((a, 1),), ()): Fraction(1)}


def add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def _mono(m, n, sign=1):
    p = dict(m[0])
    for a, k in n[0]:
        p[a] = p.get(a, 0) + sign * k
    e = add(dict(m[1]), dict(n[1]), sign)
    return (tuple(sorted(((a, k) for a, k in p.items() if k), key=repr)), key(e))


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = _mono(m, n)
            r[q] = r.get(q, 0) + c * d
            if not r[q]:
                del r[q]
    return r


def pow2(e, sign=1):
    """2**e"""
    e = dict(e)
    if sign < 0:
        e = {m: -c for m, c in e.items()}
    c = e.pop(one, Fraction(0))
    if c.denominator != 1:
        raise Unknown("fractional power of two")
    return {((), key(e)): Fraction(2) ** int(c)}


def inverse(b):
    if len(b) != 1:
        return {(((("sum", key(b)), -1),), ()): Fraction(1)}
    (m, c), = b.items()
    return {(tuple((a, -k) for a, k in m[0]), key({x: -y for x, y in m[1]})): 1 / c}


def idiv(a, b):
    if b == const(1):
        return a
    if not a:
        return a
    if set(a) == set(b) == {one}:
        return const(a[one] // b[one])
    if len(a) == 1:
        (m, c), = a.items()
        if c == 1 and len(m[0]) == 1 and m[1] == () and m[0][0][1] == 1 and isinstance(m[0][0][0], tuple) and m[0][0][0][0] == "idiv":
            _, x, y = m[0][0][0]
            return atom(("idiv", x, key(mul(dict(y), b))))
    return atom(("idiv", key(a), key(b)))


def show(nf):
    def at(a):
        if isinstance(a, str):
            return a
        if a[0] == "sum":
            return "sum(%s)" % ", ".join(show(dict(x)) if isinstance(x, tuple) else str(x) for x in a[1:])
        return "%s(%s)" % (a[0], ", ".join(show(dict(x)) if isinstance(x, tuple) else str(x) for x in a[1:]))
    out = []
    for (p, e), c in sorted(nf.items(), key=lambda x: repr(x)):
        t = [at(a) + ("" if k == 1 else "^%d" % k) for a, k in p]
        if e:
            t.append("2^(%s)" % show(dict(e)))
        if c != 1 or not t:
            t.insert(0, str(c))
        out.append(" * ".join(t))
    return " + ".join(out) or "0"


class Eval:
    """evaluates expressions of one function; names maps texts to atoms, expand gives values of calls"""
    def __init__(self, names, expand=None):
        self.names, self.expand = names, expand or (lambda x, ev: None)
        self.env, self.index = {}, {}
        self.assume = None

    def name(self, t):
        for r, n in self.names:
            m = re.match("^(?:%s)$" % r, t)
            if m:
                return m.expand(n) if isinstance(n, str) else n(m)
        return t

    def base(self, x):
        k = x[0]
        if k == "v" and x in self.env:
            raise Unknown("value of " + ir.pr(x))
        if k == "[]":
            return "%s[%s]" % (self.base(x[1]), show(self.nf(x[2])))
        if k == ".":
            return ir.pr(x) if x[1] == ("this",) else "%s.%s" % (self.base(x[1]), x[2])
        if k == "call":
            old = self.env
            # terms with calls were bound before their arguments changed
            self.env = {y: z for y, z in old.items() if not (y[0] == "v" and str(y[1]).startswith("arg"))}
            try:
                a = ", ".join(self.arg(y) for y in x[3])
            finally:
                self.env = old
            b = "" if x[2] in (None, ("this",)) else self.base(x[2]) + "."
            return "%s%s(%s)" % (b, x[1], a)
        return ir.pr(x)

    def arg(self, y):
        if y[0] == "ilist":
            return "{%s}" % ", ".join(self.arg(z) for z in y[1])
        try:
            return show(self.nf(y))
        except Unknown:
            return self.base(y)

    def lst(self, x):
        """elements of a list-valued expression or None"""
        if x[0] == "ilist":
            return [self.nf(y) for y in x[1]]
        if x[0] == "v" and isinstance(self.env.get(x), list):
            return self.env[x]
        return self.expand(x, self)

    def nf(self, x):
        k = x[0]
        if k in ("i", "f"):
            return const(Fraction(str(x[1])))
        if k == "bin":
            o, a, b = x[1], x[2], x[3]
            if o == "<<":
                return mul(self.nf(a), pow2(self.nf(b)))
            if o == ">>":
                return idiv(self.nf(a), pow2(self.nf(b)))
            a, b = self.nf(a), self.nf(b)
            if o == "+":
                return add(a, b)
            if o == "-":
                return add(a, b, -1)
            if o == "*":
                return mul(a, b)
            if o == "//":
                return idiv(a, b)
            if o == "/":
                return mul(a, inverse(b))
            if o == "%" and set(a) | set(b) <= {one} and b:
                return const(a.get(one, 0) % b[one])
            if o == "%":
                return atom(("mod", key(a), key(b)))
            raise Unknown("operator " + o)
        if k == "cond":
            from rules import fml, implies
            c = fml(x[1])
            if self.assume is None:
                raise Unknown("conditional")
            if implies(self.assume, c) is None:
                return self.nf(x[2])
            if implies(self.assume, ~c) is None:
                return self.nf(x[3])
            raise Split(c)
        if k in ("neg", "un") and x[-1] and (k == "neg" or x[1] == "-"):
            return {m: -c for m, c in self.nf(x[-1]).items()}
        if k == "v" or k == "el" or k == ".":
            if x in self.env:
                if self.env[x] is None or isinstance(self.env[x], list):
                    raise Unknown("value of " + ir.pr(x))
                return self.env[x]
            if x in self.index:
                return atom(self.index[x])
            return atom(self.name(ir.pr(x)))
        if k == "[]":
            l = self.lst(x[1])
            if l is not None:
                i = self.nf(x[2])
                if len(i) <= 1 and all(m == ((), ()) for m in i):
                    n = int(i.get(((), ()), 0))
                    if n < len(l) and l[n] is not None:
                        return l[n]
                raise Unknown("element of a list")
            return atom(self.name(self.base(x)))
        if k == "call":
            if x[1] in ("std::pow", "pow") and len(x[3]) == 2 and self.nf(x[3][0]) == const(2):
                return pow2(self.nf(x[3][1]))
            if x[1] in ("std::exp2", "exp2"):
                return pow2(self.nf(x[3][0]))
            if x[1] in ("std::floor", "floor", "std::ceil", "ceil"):
                return atom((x[1].replace("std::", ""), key(self.nf(x[3][0]))))
            e = self.expand(x, self)
            if e is not None and not isinstance(e, list):
                return e
            return atom(self.name(self.base(x)))
        if k == "g":
            return atom(self.name(x[1]))
        raise Unknown("expression " + k)


def runs(v, ret, make):
    """values of what a return statement returns, in every case that is told apart: [(condition, value or None)]"""
    from rules import AND, satisfiable
    todo, out = [v.cond(ret)], []
    while todo and len(todo) + len(out) < 12:
        c = todo.pop()
        ev = make()
        ev.assume = c
        try:
            out.append((c, run(v, ret, ev)))
        except Unknown:
            out.append((c, None))
        except Split as e:
            for f in (AND(c, e.cond), AND(c, ~e.cond)):
                if satisfiable(f) is not None:
                    todo.append(f)
    return out + [(c, None) for c in todo]


def subst(nf, name, n):
    """value with a number for an atom"""
    out = {}
    for (p, e), c in nf.items():
        t = mul(const(c), pow2(subst(dict(e), name, n)))
        for a, k in p:
            x = const(n) if a == name else subst_atom(a, name, n)
            if k < 0:
                if not x:
                    raise Unknown("division by zero")
                x, k = inverse(x), -k
            for _ in range(k):
                t = mul(t, x)
        out = add(out, t)
    return out


def subst_atom(a, name, n):
    if isinstance(a, str):
        return atom(a)
    args = [subst(dict(x), name, n) for x in a[1:]]
    if a[0] == "idiv":
        return idiv(*args)
    if a[0] == "sum" and len(args) == 3 and args[0] == args[1]:
        return {}
    return atom((a[0],) + tuple(key(x) for x in args))


def run(v, ret, ev, depth=0):
    """value of what a return statement returns (list for a list); evaluates statements that lead to it"""
    from rules import AND, fml, satisfiable, implies
    c = v.cond(ret) if ev.assume is None else ev.assume
    ev.assume = c
    changed, bound = set(), set()
    for n in v.nodes:
        if n is ret:
            break
        if n.kind == "pcall" and any(y in changed for y in n.eff[3]):
            raise Unknown("call with a modified argument")
        if n.kind not in ("eff", "bind") or not n.eff or n.eff[0] not in ("asg", "init"):
            continue
        if n.eff[0] == "init":
            target, op, val = n.eff[1], "=", n.eff[2]
        else:
            op, target, val = n.eff[1], n.eff[2], n.eff[3]
        if satisfiable(AND(c, v.cond(n))) is None:
            continue
        loops = n.loops[depth:]
        if n.kind == "bind":
            bound |= {y for y in walk(val, ("call",)) if y[0] in ("v", ".")}
        elif target in bound:
            raise Unknown("a name was given to a value that is changed")
        changed.add(target)
        if target[0] not in ("v", "."):
            root = target
            while root[0] in ("[]", ".", "addr", "deref") and root[1] != ("this",):
                root = root[1]
            old = ev.env.get(root)
            ev.env[root] = None
            if target[0] == "[]" and target[1] == root and op in ("=", "+=", "-=") and len(loops) < 2:
                elements(v, n, c, target, op, val, old, ev, loops)
            continue
        if implies(c, v.cond(n)) is not None and not loops:
            raise Split(v.cond(n))
        try:
            if not loops:
                if op == "=":
                    ev.env[target] = ev.lst(val) if ev.lst(val) is not None else ev.nf(val)
                elif op in ("+=", "-="):
                    ev.env[target] = add(cur(ev, target), ev.nf(val), 1 if op == "+=" else -1)
                elif op == "*=":
                    ev.env[target] = mul(cur(ev, target), ev.nf(val))
                else:
                    ev.env[target] = None
            elif len(loops) == 1 and op in ("+=", "-="):
                d = loops[0].dom
                lo, hi, i = loop_range(v, n, d, ev)
                if i == target:
                    continue
                g = c
                if d[0] == "while":
                    g = AND(g, fml(d[1]))
                if implies(g, v.cond(n)) is not None:
                    raise Unknown("conditional sum")
                save = dict(ev.env)
                try:
                    ev.env[i] = atom("i")
                    ev.env[target] = None
                    for t, x in in_loop(v, n, i, lo, ev, save).items():
                        ev.env[t] = x
                    body = ev.nf(val)
                finally:
                    ev.env.clear()
                    ev.env.update(save)
                ev.env[target] = add(cur(ev, target), atom(("sum", key(lo), key(hi), key(body))), 1 if op == "+=" else -1)
            else:
                ev.env[target] = None
        except Unknown:
            ev.env[target] = None
    x = ret.eff[1]
    l = ev.lst(x)
    return l if l is not None else ev.nf(x)


def elements(v, n, c, target, op, val, old, ev, loops):
    """values of elements of an array of three items, given one by one or in a loop"""
    from rules import implies
    new = list(old) if isinstance(old, list) else [None] * 3
    ev.env[target[1]] = old
    if old is None:
        ev.env.pop(target[1])
    bad = lambda: ev.env.__setitem__(target[1], None)
    if implies(c, v.cond(n)) is not None:
        bad()
        raise Split(v.cond(n))

    def value(k):
        if op != "=" and new[k] is None:
            raise Unknown("element")
        return ev.nf(val) if op == "=" else add(new[k], ev.nf(val), 1 if op == "+=" else -1)
    try:
        if not loops:
            i = ev.nf(target[2])
            if set(i) - {one}:
                raise Unknown("index")
            k = int(i.get(one, 0))
            new[k] = value(k)
        else:
            d = loops[0].dom
            if d[0] != "range" or ev.nf(d[1]) != {} or target[2][0] != "el" or not (d[2] == ("i", 3) or ir.pr(d[2]).endswith(".size()")):
                raise Unknown("loop")
            others = {m.eff[2] for m in v.nodes if m.kind == "eff" and m.eff and m.eff[0] == "asg" and m is not n and m.loops and m.loops[-1].dom == d and m.eff[2] != target}
            if any(y in others for y in walk(val)):
                raise Unknown("loop")
            for k in range(3):
                ev.env[target[2]] = const(k)
                new[k] = value(k)
            del ev.env[target[2]]
    except (Unknown, IndexError):
        bad()
        return
    ev.env[target[1]] = new


def in_loop(v, n, i, lo, ev, env):
    """values of variables that the loop of a statement changes, before the statement"""
    out = {}
    for j, m in enumerate(v.nodes):
        if m.kind not in ("eff", "bind") or not m.eff or m.eff[0] not in ("asg", "init") or not m.loops or m.loops[0].dom != n.loops[0].dom:
            continue
        t = m.eff[2] if m.eff[0] == "asg" else m.eff[1]
        if t == i or m is n:
            continue
        if t in out or m.eff[0] == "init" or len(m.loops) != 1 or m.eff[1] not in ("*=", "<<="):
            out[t] = None
            continue
        try:
            k = ev.nf(m.eff[3]) if m.eff[1] == "*=" else pow2(ev.nf(m.eff[3]))
            if k in (const(2), const(4), const(8), const(16)):
                p = int(k[one]).bit_length() - 1
                before = v.nodes.index(m) < v.nodes.index(n)
                x = add(add(atom("i"), lo, -1), const(1 if before else 0))
                out[t] = mul(cur(ev, t), pow2(mul(const(p), x)))
            else:
                out[t] = None
        except Unknown:
            out[t] = None
    return out


def cur(ev, t):
    if t in ev.env:
        if ev.env[t] is None or isinstance(ev.env[t], list):
            raise Unknown("value of " + ir.pr(t))
        return ev.env[t]
    return atom(ev.name(ir.pr(t)))


def loop_range(v, n, d, ev):
    """(first, end, variable) of a loop that counts up by one"""
    if d[0] == "range":
        el = [x for x in walk(n.eff) if x[0] == "el" and x[1] == d]
        return ev.nf(d[1]), ev.nf(d[2]), el[0] if el else ("el", d, 0)
    if d[0] == "while" and d[1][0] == "bin" and d[1][1] in ("<", "<=", "!="):
        o, i, hi = d[1][1], d[1][2], d[1][3]
        init = [m for m in v.nodes if m.kind in ("eff", "bind") and m.eff and m.eff[0] == "init" and m.eff[1] == i]
        inc = [m for m in v.nodes if m.kind == "eff" and m.eff and m.eff[0] == "asg" and m.eff[2] == i]
        if len(init) == 1 and len(inc) == 1 and inc[0].eff[1] == "+=" and inc[0].eff[3] == ("i", 1) and len(inc[0].loops) == 1:
            return ev.nf(init[0].eff[2]), add(ev.nf(hi), const(1 if o == "<=" else 0)), i
    raise Unknown("loop")


def walk(x, leave=()):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            if x[0] in leave:
                return
            yield x
        for y in x:
            yield from walk(y, leave)


def iq(x, ev):
    """formula whose inequalities and equalities are normal forms"""
    from rules import F, AND, OR, TRUE, FALSE, fml
    k = x[0]
    if k == "b":
        return F("b", x[1])
    if k == "not":
        return ~iq(x[1], ev)
    if k in ("and", "or"):
        return (AND if k == "and" else OR)(*[iq(y, ev) for y in x[1]])
    if k == "bin" and x[1] in ("<", "<=", "==", "!="):
        try:
            a, b = ev.nf(x[2]), ev.nf(x[3])
        except Unknown:
            return fml(x)
        if x[1] in ("==", "!="):
            f = zero(add(a, b, -1))
            return f if x[1] == "==" else ~f
        return pos(add(add(b, a, -1), const(1 if x[1] == "<=" else 0)))
    try:
        n = ev.nf(x)
        if set(n) <= {one}:
            return TRUE if n else FALSE
        return F("atom", show(n))
    except Unknown:
        return fml(x)


def pos(d):
    """d > 0 for integers"""
    from rules import F, TRUE, FALSE
    if set(d) <= {one}:
        return TRUE if d.get(one, 0) > 0 else FALSE
    o = add(const(1), d, -1)
    if repr(key(o)) < repr(key(d)):
        return ~F("atom", "[%s > 0]" % show(o))
    return F("atom", "[%s > 0]" % show(d))


def zero(d):
    from rules import F, TRUE, FALSE
    if set(d) <= {one}:
        return FALSE if d else TRUE
    o = {m: -c for m, c in d.items()}
    return F("atom", "[%s = 0]" % min(show(o), show(d)))


def cond(n, ev, drop=("abort", "catch")):
    from rules import AND, truth
    return AND(*[iq(truth(g.cond), ev) for g in n.guards if g.kind not in drop])
