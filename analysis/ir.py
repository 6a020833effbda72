"""Lowering of the exported AST to a control-flow graph of canonical effects.

Every function is lowered with its callees inlined as the given policy asks,
local copies and references substituted, the different spellings of loops,
membership tests, emptiness tests and comparisons brought to one normal form,
and every effect annotated with the conditions (guards) and iteration domains
(loops) under which it happens.  Helper functions, lambdas, reordered
declarations, rewritten loops and early exits therefore disappear before any
rule looks at the program.
"""
from facts import AnalysisBroken, walk

import re
MUTATORS = {"insert", "emplace", "emplace_back", "push_back", "erase", "clear", "resize", "assign",
            "swap", "pop_back", "push_front", "pop_front", "emplace_hint", "merge", "splice", "sort",
            "unique", "remove", "remove_if", "emplace_front", "push", "pop", "fill", "reset"}
PURE_LIB = {"abs", "labs", "llabs", "fabs", "sqrt", "pow", "floor", "ceil", "fmod", "round", "isnan", "log", "exp",
            "std::isnan", "std::abs", "__isnan", "MPI_Wtime"}
NOEFFECT = {"reserve", "shrink_to_fit", "rehash", "max_load_factor", "precision", "flush"}
ABORTS = {"abort", "exit", "std::abort", "std::exit", "MPI_Abort", "std::terminate", "_exit",
          "__assert_fail", "std::quick_exit"}
ASSIGN_OPS = {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="}
COMM = {"+", "*", "==", "!=", "&", "|", "^"}


# ---------------------------------------------------------------- expressions
# divisions of integers are written as // and conversions to integers as floor
TYPED = False


def skey(x):
    return repr(x)


def mk_not(x):
    t = x[0]
    if t == "not":
        return x[1]
    if t == "b":
        return ("b", not x[1])
    if t == "bin":
        o = x[1]
        if o == "==":
            return ("bin", "!=", x[2], x[3])
        if o == "!=":
            return ("bin", "==", x[2], x[3])
        if o == "<":
            return ("bin", "<=", x[3], x[2])
        if o == "<=":
            return ("bin", "<", x[3], x[2])
    if t == "and":
        return mk_or([mk_not(y) for y in x[1]])
    if t == "or":
        return mk_and([mk_not(y) for y in x[1]])
    return ("not", x)


def _flat(kind, xs):
    out = []
    for x in xs:
        if x[0] == kind:
            out.extend(x[1])
        else:
            out.append(x)
    return out


def mk_and(xs):
    s = []
    for x in _flat("and", xs):
        if x == ("b", True):
            continue
        if x == ("b", False):
            return x
        if x not in s:
            s.append(x)
    for x in s:
        if mk_not(x) in s:
            return ("b", False)
    if not s:
        return ("b", True)
    if len(s) == 1:
        return s[0]
    return ("and", tuple(sorted(s, key=skey)))


def mk_or(xs):
    s = []
    for x in _flat("or", xs):
        if x == ("b", False):
            continue
        if x == ("b", True):
            return x
        if x not in s:
            s.append(x)
    for x in s:
        if mk_not(x) in s:
            return ("b", True)
    if not s:
        return ("b", False)
    if len(s) == 1:
        return s[0]
    return ("or", tuple(sorted(s, key=skey)))


def mk_cond(c, a, b):
    if c == ("b", True) or a == b:
        return a
    if c == ("b", False):
        return b
    T, F = ("b", True), ("b", False)
    if a == T:
        return mk_or([c, b]) if is_bool(b) else ("cond", c, a, b)
    if a == F:
        return mk_and([mk_not(c), b]) if is_bool(b) else ("cond", c, a, b)
    if b == F and is_bool(a):
        return mk_and([c, a])
    if b == T and is_bool(a):
        return mk_or([mk_not(c), a])
    return ("cond", c, a, b)


def is_bool(x):
    return x[0] in ("b", "and", "or", "not", "has", "empty", "exists") or (x[0] == "bin" and x[1] in ("==", "!=", "<", "<="))


def isint(x, v=None):
    return x[0] == "i" and (v is None or x[1] == v)


DEFAULT_HOOD = ("g", "dccrg::default_neighborhood_id")
# set while lowering: terms known to be ids of user defined neighborhoods
USER_IDS = set()


def user_id(x):
    """an id that cannot be that of the default neighborhood"""
    if x in USER_IDS:
        return True
    return x[0] == "." and x[2] == "first" and x[1][0] == "el" and x[1][1][0] == "." and \
        x[1][1][1] == ("this",) and x[1][1][2].startswith("user_hood_")


def mk_bin(o, a, b):
    if o in ("==", "!=") and (a == DEFAULT_HOOD or b == DEFAULT_HOOD):
        x = b if a == DEFAULT_HOOD else a
        if user_id(x):
            return ("b", o == "!=")
    if o == ">":
        return mk_bin("<", b, a)
    if o == ">=":
        return mk_bin("<=", b, a)
    if o == "&&":
        return mk_and([truth(a), truth(b)])
    if o == "||":
        return mk_or([truth(a), truth(b)])
    if o in ("==", "!=", "<", "<="):
        r = _cmp_special(o, a, b)
        if r is not None:
            return r
    # shifts are multiplications and divisions by powers of two
    if o == "<<" and not isint(a) and a[0] != "f":
        return mk_bin("*", a, mk_bin("<<", ("i", 1), b))
    if o == ">>" and not (isint(a) and isint(b)):
        o, b = "//" if TYPED else "/", mk_bin("<<", ("i", 1), b)
    if isint(a) and isint(b):
        try:
            if o == "+":
                return ("i", a[1] + b[1])
            if o == "-":
                return ("i", a[1] - b[1])
            if o == "*":
                return ("i", a[1] * b[1])
            if o == "<<" and b[1] < 128:
                return ("i", a[1] << b[1])
        except Exception:
            pass
    if o in ("+", "*"):
        xs = []

        def operands(x):
            if x[0] == "bin" and x[1] == o:
                operands(x[2])
                operands(x[3])
            else:
                xs.append(x)
        operands(a)
        operands(b)
        ints = [x[1] for x in xs if isint(x)]
        rest = sorted((x for x in xs if not isint(x)), key=skey)
        if len(ints) > 1 or (ints and len(rest) == 0):
            acc = 0 if o == "+" else 1
            for v in ints:
                acc = acc + v if o == "+" else acc * v
            ints = [acc]
        if ints and rest and ints[0] == (0 if o == "+" else 1):
            ints = []
        xs = rest + [("i", v) for v in ints]
        r = xs[0]
        for x in xs[1:]:
            r = ("bin", o, r, x)
        return r
    if o == "-" and isint(b, 0):
        return a
    if o in COMM and skey(b) < skey(a):
        a, b = b, a
    return ("bin", o, a, b)


def _cmp_special(o, a, b):
    # size()/count()/find() idioms
    def sz(x):
        return x[0] == "call" and x[1] in ("size", "length") and x[2] is not None and not x[3]

    def cnt(x):
        return x[0] == "call" and x[1] == "count" and x[2] is not None and len(x[3]) == 1

    for x, y, flip in ((a, b, False), (b, a, True)):
        if sz(x) or cnt(x):
            base = ("empty", x[2]) if sz(x) else mk_not(("has", x[2], x[3][0]))
            if isint(y, 0):
                if o == "==":
                    return base
                if o == "!=":
                    return mk_not(base)
                if not flip and o == "<=":      # size <= 0
                    return base
                if flip and o == "<":           # 0 < size
                    return mk_not(base)
            if isint(y, 1):
                if not flip and o == "<":
                    return base
                if flip and o == "<=":
                    return mk_not(base)
                if cnt(x) and o == "==":
                    return mk_not(base)
                if cnt(x) and o == "!=":
                    return base
        if o in ("==", "!=") and y[0] == "call" and y[1] in ("end", "cend", "std::end", "std::cend"):
            c = y[2] if y[2] is not None else (y[3][0] if y[3] else None)
            if x[0] == "call" and x[1] == "find" and x[2] == c:
                h = ("has", c, x[3][0])
                return h if o == "!=" else mk_not(h)
            if x[0] == "call" and x[1] in ("begin", "cbegin", "std::begin") and (x[2] == c or (x[3] and x[3][0] == c)):
                e = ("empty", c)
                return e if o == "==" else mk_not(e)
            if x[0] == "call" and x[1] == "std::find" and len(x[3]) == 3:
                h = ("has", c, x[3][2])
                return h if o == "!=" else mk_not(h)
        # boolean compared with literal
        if o in ("==", "!=") and y[0] == "b":
            t = truth(x)
            return t if (o == "==") == y[1] else mk_not(t)
        if o in ("==", "!=") and isint(y, 0) and is_bool(x):
            return mk_not(x) if o == "==" else x
    if a == b and pure_term(a):
        return ("b", o in ("==", "<="))
    if isint(a) and isint(b):
        v = {"==": a[1] == b[1], "!=": a[1] != b[1], "<": a[1] < b[1], "<=": a[1] <= b[1]}[o]
        return ("b", v)
    return None


def pure_term(x):
    return not any(isinstance(y, tuple) and y and y[0] in ("call", "f") and not (y[0] == "call" and y[1] in ("size", "get")) for y in subterms(x))


def truth(x):
    """x in a boolean context"""
    if x[0] == "i":
        return ("b", x[1] != 0)
    if x[0] == "call" and x[1] == "count" and x[2] is not None and len(x[3]) == 1:
        return ("has", x[2], x[3][0])
    if x[0] == "call" and x[1] == "size" and x[2] is not None:
        return mk_not(("empty", x[2]))
    if x[0] == "call" and x[1] == "empty" and x[2] is not None:
        return ("empty", x[2])
    if x[0] == "cond":
        return mk_cond(truth(x[1]), truth(x[2]), truth(x[3]))
    return x


def subterms(x):
    yield x
    if isinstance(x, tuple):
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], str):
                    for z in subterms(y):
                        yield z
                else:
                    for w in y:
                        if isinstance(w, tuple):
                            for z in subterms(w):
                                yield z


def mentions(x, pred):
    return any(pred(y) for y in subterms(x))


def fields_in(x):
    """names of member fields of *this mentioned in x"""
    return {y[2] for y in subterms(x) if isinstance(y, tuple) and len(y) == 3 and y[0] == "." and y[1] == ("this",)}


def root(x):
    """the variable or field of *this an lvalue expression lives in"""
    while True:
        if x[0] == "." and x[1] == ("this",):
            return x
        if x[0] in (".", "[]", "deref", "addr"):
            x = x[1]
        elif x[0] == "el":
            x = x[1]
        elif x[0] == "call" and x[2] is not None and x[1] in ("begin", "end", "find", "front", "back", "data", "at", "get", "rbegin", "cbegin", "c_str"):
            x = x[2]
        elif x[0] == "call" and x[2] is None and x[3] and x[1].split("<")[0] in ("std::get", "std::begin", "std::end", "std::ref", "std::move", "std::forward"):
            x = x[3][0]
        else:
            return x


def pr(x, depth=0):
    """readable rendering of a canonical expression"""
    if not isinstance(x, tuple):
        return str(x)
    t = x[0]
    if t == "i":
        return str(x[1])
    if t in ("f", "s"):
        return repr(x[1])
    if t == "b":
        return "true" if x[1] else "false"
    if t == "this":
        return "this"
    if t == "v":
        return x[1] if x[1].startswith("arg") and x[3] == 0 else "%" + x[1]
    if t == "g":
        return x[1]
    if t == ".":
        return (pr(x[1]) + "." if x[1] != ("this",) else "") + x[2]
    if t == "[]":
        return "%s[%s]" % (pr(x[1]), pr(x[2]))
    if t == "call":
        return "%s%s(%s)" % (pr(x[2]) + "." if x[2] is not None and x[2] != ("this",) else "", x[1], ", ".join(pr(a) for a in x[3]))
    if t == "un":
        return "%s%s" % (x[1], pr(x[2]))
    if t == "bin":
        return "(%s %s %s)" % (pr(x[2]), x[1], pr(x[3]))
    if t == "not":
        return "!" + pr(x[1])
    if t == "and":
        return "(" + " && ".join(pr(y) for y in x[1]) + ")"
    if t == "or":
        return "(" + " || ".join(pr(y) for y in x[1]) + ")"
    if t == "has":
        return "has(%s, %s)" % (pr(x[1]), pr(x[2]))
    if t == "empty":
        return "empty(%s)" % pr(x[1])
    if t == "el":
        return "each(%s)%s" % (pr(x[1]), "'" * x[2])
    if t == "range":
        return "%s..%s" % (pr(x[1]), pr(x[2]))
    if t == "exists":
        return "exists(%s: %s)" % (", ".join(pr(d) for d in x[1]), pr(x[2]))
    if t == "ilist":
        return "{%s}" % ", ".join(pr(y) for y in x[1])
    if t == "cond":
        return "(%s ? %s : %s)" % (pr(x[1]), pr(x[2]), pr(x[3]))
    if t == "deref":
        return "*" + pr(x[1])
    if t == "addr":
        return "&" + pr(x[1])
    if t == "ctor":
        return "%s{%s}" % (x[1].split("<")[0], ", ".join(pr(a) for a in x[2]))
    if t == "lam":
        return "<lambda>"
    return "%s(%s)" % (t, ", ".join(pr(y) for y in x[1:]))


# ---------------------------------------------------------------------- graph
class Node:
    __slots__ = ("id", "kind", "eff", "guards", "loops", "line", "func", "file", "succ", "pred", "frame", "chain", "extra")

    def __init__(self, i, kind):
        self.id = i
        self.kind = kind
        self.eff = None
        self.guards = ()
        self.loops = ()
        self.line = 0
        self.func = None
        self.file = ""
        self.succ = []
        self.pred = []
        self.frame = None
        self.chain = ()
        self.extra = None

    def where(self):
        return "%s:%s" % (self.file, self.line)

    def __repr__(self):
        return "<%d %s %s %s>" % (self.id, self.kind, self.where(), pr_eff(self.eff) if self.eff else "")


def pr_eff(e):
    if e is None:
        return ""
    if e[0] == "asg":
        return "%s %s %s" % (pr(e[2]), e[1], pr(e[3]))
    if e[0] == "init":
        return "let %s = %s" % (pr(e[1]), pr(e[2]))
    if e[0] == "mut":
        return "%s.%s(%s)" % (pr(e[2]), e[1], ", ".join(pr(a) for a in e[3]))
    if e[0] == "call":
        return pr(e)
    if e[0] == "ret":
        return "return %s" % (pr(e[1]) if e[1] else "")
    return str(e[0])


def is_empty_value(x):
    return (x[0] == "ctor" and not x[2]) or (x[0] == "ilist" and not x[1]) or x == ("zero",)


def is_container(t):
    return any(w in t for w in ("std::vector<", "std::set<", "std::map<", "unordered_", "std::list<", "std::deque<", "std::string", "basic_string<"))


class Frame:
    n = 0

    def __init__(self, func, this, parent, env=None):
        Frame.n += 1
        self.num = Frame.n
        self.func = func
        self.this = this
        self.parent = parent
        self.env = {} if env is None else env
        self.rets = []          # (guards, value)
        self.ret_loops = []     # loops around each of them
        self.ret_ends = []      # dangling edges of return statements
        self.guards_at_entry = ()
        self.modified = set()
        self.lexical = None     # enclosing frame for lambdas


class Loop:
    def __init__(self, dom, node):
        self.dom = dom
        self.node = node
        self.breaks = []
        self.conts = []
        self.break_guards = []


class Guard:
    """cond under which control is; kind: if, ret, brk, cont, abort, loop, catch"""
    __slots__ = ("cond", "kind", "line")

    def __init__(self, cond, kind, line=0):
        self.cond = cond
        self.kind = kind
        self.line = line

    def __repr__(self):
        return "%s[%s]" % (pr(self.cond), self.kind)


class LoopRef:
    __slots__ = ("dom", "loop", "kind")

    def __init__(self, dom, loop, kind):
        self.dom = dom
        self.loop = loop
        self.kind = kind

    def __repr__(self):
        return "%s %s" % (self.kind, pr(self.dom))


def modified_vars(prog, *roots):
    """ids of variables that are written after their declaration"""
    mod = set()

    def rt(e):
        while isinstance(e, dict):
            k = e.get("k")
            if k == "var":
                return e["id"]
            if k == "mem":
                e = e["b"]
            elif k == "op" and e["o"] == "[]":
                e = e["a"][0]
            elif k == "call" and "b" in e and e["n"] in ("at", "front", "back", "data", "begin", "end", "find"):
                e = e["b"]
            elif k == "call" and e["n"] in ("std::get", "std::begin", "std::end", "std::tie") and e["a"]:
                e = e["a"][0]
            elif k == "cast":
                e = e["a"][0]
            else:
                return None
        return None

    for r in roots:
        for n in walk(r):
            k = n.get("k")
            if k == "asg":
                mod.add(rt(n["a"][0]))
            elif k == "un" and n["o"].rstrip("post") in ("++", "--"):
                mod.add(rt(n["a"][0]))
            elif k == "un" and n["o"] == "&":
                # the address is taken; treat as modified unless it is a
                # container element or a call argument typed const
                mod.add(rt(n["a"][0]))
            elif k == "op":
                o = n["o"]
                if o in ASSIGN_OPS or o in ("++", "--", "++post", "--post"):
                    mod.add(rt(n["a"][0]))
                elif o == ">>" and len(n["a"]) == 2:
                    mod.add(rt(n["a"][0]))
                    mod.add(rt(n["a"][1]))
                elif o == "<<" and len(n["a"]) == 2:
                    mod.add(rt(n["a"][0]))
                elif o == "[]" and n.get("mc") is False and "map" in prog.types[n["a"][0].get("t", 0) if isinstance(n["a"][0].get("t", 0), int) else 0]:
                    pass
            elif k == "ctor":
                for a, t in zip(n.get("a", []), n.get("pt", [])):
                    ty = prog.types[t]
                    if ty.endswith("&") and not ty.endswith("&&") and not ty.startswith("const ") and "const &" not in ty[-8:]:
                        mod.add(rt(a))
            elif k == "call":
                if "b" in n and n.get("mc") is False and (n["n"] in MUTATORS or not str(n.get("c", "")).startswith("std::")):
                    if n["n"] not in ("begin", "end", "find", "at", "data", "front", "back", "operator()"):
                        mod.add(rt(n["b"]))
                for a, t in zip(n.get("a", []), n.get("pt", [])):
                    ty = prog.types[t]
                    if ty.endswith("&&"):
                        continue
                    if ty.endswith("&") and not ty.startswith("const ") and "const &" not in ty[-8:]:
                        mod.add(rt(a))
                        # std::tie(x, y, ...): every argument
                if n["n"] == "std::tie":
                    for a in n["a"]:
                        mod.add(rt(a))
                if n["n"] == "data" and "b" in n and n.get("mc") is False:
                    # a writable pointer to the content
                    mod.add(rt(n["b"]))
    mod.discard(None)
    return mod


class Lowered:
    def __init__(self, func):
        self.func = func
        self.nodes = []
        self.entry = None
        self.exits = []        # nodes with kind 'ret' (normal exits of the top function)
        self.exit = None
        self.inlined = []

    def finish(self):
        for n in self.nodes:
            n.pred = []
        for n in self.nodes:
            for s, l in n.succ:
                s.pred.append((n, l))

    def effects(self):
        return [n for n in self.nodes if n.kind == "eff"]


class Lower:
    """lowers one function; `inline(func) -> bool` decides which calls expand"""

    MAXDEPTH = 14

    def __init__(self, prog, inline=None, stop_names=()):
        self.prog = prog
        self.default_args = set()
        self.inline = inline or (lambda f: False)

    # -- driver
    def run(self, func):
        if func.body is None:
            raise AnalysisBroken("%s has no body" % func.q)
        self.out = Lowered(func)
        self.cur = []
        self.guards = ()
        self.loops = ()
        self.loopstack = []
        self.stack = []
        self.trys = []
        self.flags = {}
        self.line = func.line
        fr = Frame(func, ("this",), None)
        self.fr = fr
        e = self.node("entry")
        self.out.entry = e
        for p in func.params:
            fr.env[p["id"]] = ("v", "arg%d" % func.params.index(p), p["id"], 0)
        for i in self.default_args:
            fr.env[func.params[i]["id"]] = DEFAULT_HOOD
        fr.modified = modified_vars(self.prog, func.body)
        self.stack.append(func.id)
        if "inits" in func.d:
            for i in func.d["inits"]:
                if i["e"]:
                    v = self.expr(i["e"])
                    self.effect(("asg", "=", (".", ("this",), i["f"]), v))
                    self.out.nodes[-1].extra = "init" if i["written"] else "default-init"
        self.stmt(func.body)
        ex = Node(len(self.out.nodes), "exit")
        ex.func = func
        self.out.nodes.append(ex)
        ex.line = func.d["l2"]
        ex.file = func.file
        for n, l in self.cur + fr.ret_ends:
            n.succ.append((ex, l))
        self.out.exit = ex
        self.out.rets = fr.rets
        self.out.frame = fr
        self.out.finish()
        return self.out

    def node(self, kind):
        n = Node(len(self.out.nodes), kind)
        n.guards = self.guards
        n.loops = self.loops
        n.line = self.line
        n.frame = self.fr
        n.func = self.fr.func
        n.file = self.fr.func.file if self.fr.func else ""
        self.out.nodes.append(n)
        for p, l in self.cur:
            p.succ.append((n, l))
        self.cur = [(n, None)]
        for t in self.trys:
            t.append(n)
        return n

    def effect(self, eff):
        n = self.node("eff")
        n.eff = eff
        if eff[0] == "init":
            self.flags.setdefault(eff[1], []).append(n)
        elif eff[0] == "asg" and eff[2][0] == "v":
            self.flags.setdefault(eff[2], []).append(n)
        elif eff[0] == "call":
            for a in eff[3]:
                if isinstance(a, tuple) and a and a[0] in ("addr", "v"):
                    w = a[1] if a[0] == "addr" else a
                    if w in self.flags:
                        self.flags[w].append(n)
        return n

    # -- expressions
    def type(self, n):
        t = n.get("t")
        return self.prog.types[t] if isinstance(t, int) else ""

    def lookup(self, i):
        f = self.fr
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.lexical
        return None

    def expr(self, n):
        """canonical value of n; emits the effects n has"""
        if n is None:
            return ("nil",)
        if "l" in n:
            self.line = n["l"]
        k = n["k"]
        f = getattr(self, "x_" + k, None)
        if f is None:
            args = [self.expr(a) for a in n.get("a", [])]
            return (k,) + tuple(args)
        return f(n)

    def x_int(self, n):
        return ("i", int(n["v"]))

    def x_float(self, n):
        try:
            v = float(n["v"])
            if v == int(v) and abs(v) < 1e15:
                return ("i", int(v))
        except Exception:
            pass
        return ("f", n["v"])

    def x_str(self, n):
        return ("s", n["v"])

    def x_bool(self, n):
        return ("b", n["v"])

    def x_null(self, n):
        return ("nil",)

    def x_zero(self, n):
        return ("i", 0)

    def x_this(self, n):
        f = self.fr
        while f.lexical is not None:
            f = f.lexical
        return f.this

    def x_sizeof(self, n):
        return ("sizeof", self.prog.types[n["v"]])

    def x_var(self, n):
        if n.get("vk") in ("global", "enum", "func"):
            if n["n"].endswith("error_cell"):
                return ("i", 0)
            return ("g", n["n"])
        v = self.lookup(n["id"])
        if v is not None:
            if v[0] == "v" and self.type(n) in ("bool", "const bool") and not getattr(self, "lhs_mode", False):
                f = self.flag_value(v)
                if f is not None:
                    return f
            return v
        if n.get("vk") in ("local", "param"):
            return ("v", n["n"], n["id"], 0)
        return ("g", n["n"])

    def flag_value(self, v):
        """value of a local truth value that is only assigned in ways that can
        be written as a formula: constants set inside finished loops become
        existence statements"""
        idx = self.flags.get(v)
        if not idx:
            return None
        nodes = self.out.nodes
        n0 = idx[0]
        if n0.eff[0] != "init" or n0.eff[2] == ("undef",):
            return None
        if tuple(l.loop for l in n0.loops) != tuple(l.loop for l in self.loops[:len(n0.loops)]):
            return None
        val = truth(n0.eff[2])
        if not is_bool(val):
            return None
        g0 = len(n0.guards)
        curloops = [l.loop for l in self.loops]
        for n in idx[1:]:
            if n.eff[0] != "asg" or n.guards[:g0] != n0.guards:
                return None
            op, rhs = n.eff[1], truth(n.eff[3])
            if op == "&=":
                d, rhs = [mk_not(rhs)], ("b", False)
            elif op == "|=":
                d, rhs = [rhs], ("b", True)
            elif op == "=":
                d = []
            else:
                return None
            extra = n.loops[len(n0.loops):]
            if any(l.loop in curloops for l in extra):
                return None
            gs = [g for g in n.guards[g0:]]
            if extra:
                if rhs[0] != "b":
                    return None
                # guards that come after the loops began
                c = mk_and([g.cond for g in gs if g.kind not in ("abort",)] + d)
                c = ("exists", tuple(l.dom for l in extra), c)
            else:
                c = mk_and([g.cond for g in gs if g.kind not in ("abort",)] + d)
            # val := c ? rhs : val
            if rhs == ("b", True):
                val = mk_or([c, val])
            elif rhs == ("b", False):
                val = mk_and([mk_not(c), val])
            else:
                val = mk_or([mk_and([c, rhs]), mk_and([mk_not(c), val])])
            if len(repr(val)) > 20000:
                return None
        return val

    def x_mem(self, n):
        b = self.expr(n["b"])
        return self.field(b, n["n"], n.get("c"))

    def field(self, b, name, cls=None):
        if b[0] == "addr":
            b = b[1]
        name = self.prog.alias.get((cls, name), name)
        if b[0] == "call" and b[1].startswith("std::make_pair") and name in ("first", "second"):
            return b[3][0 if name == "first" else 1]
        if b[0] == "deref" and b[1][0] == "call" and b[1][1] == "find" and name in ("first", "second"):
            c = b[1]
            return c[3][0] if name == "first" else self.index(c[2], c[3][0])
        if b[0] == "call" and b[1] == "find" and b[2] is not None and name in ("first", "second"):
            return b[3][0] if name == "first" else self.index(b[2], b[3][0])
        if name == "length_rw" and b == (".", ("this",), "mapping_rw"):
            pass
        if name == "length" and b == ("this",) and cls == "dccrg::Dccrg":
            return (".", (".", ("this",), "mapping_rw"), "length_rw")
        return (".", b, name)

    def index(self, b, k):
        if b[0] == "addr":
            b = b[1]
        if b == ("deref", ("this",)) or b == ("this",):
            return ("call", "operator[]", ("this",), (k,))
        # M[key of element of M] is the mapped value of that element
        if k[0] == "." and k[2] == "first" and k[1][0] == "el" and k[1][1] == b:
            return (".", k[1], "second")
        # C[i] for i in 0..C.size()
        if k[0] == "el" and k[1][0] == "range" and k[1][1] == ("i", 0):
            hi = k[1][2]
            if hi[0] == "call" and hi[1] == "size" and hi[2] == b:
                return ("el", b, k[2])
        return ("[]", b, k)

    def x_op(self, n):
        o = n["o"]
        a = n["a"]
        if o == "[]":
            b = self.expr(a[0])
            k = self.expr(a[1])
            return self.index(b, k)
        if o in ("->", "*") and len(a) == 1:
            return self.deref(self.expr(a[0]))
        if o in ASSIGN_OPS:
            return self.assign(n)
        if o.rstrip("post") in ("++", "--"):
            x = self.expr(a[0])
            self.effect(("asg", o[0] + "=", x, ("i", 1)))
            return x
        args = [self.expr(y) for y in a]
        if o == "<<" or o == ">>":
            if len(args) == 2:
                t = self.type(n)
                if "stream" in t:
                    if not mentions(args[0], lambda y: y[0] == "g" and y[1] in ("std::cerr", "std::cout", "std::clog")):
                        self.effect(("mut", o, args[0], (args[1],)))
                    return args[0]
        if len(args) == 1:
            if o == "!":
                return mk_not(truth(args[0]))
            return ("un", o, args[0])
        return mk_bin(o, args[0], args[1]) if len(args) == 2 else ("opn", o) + tuple(args)

    def pointee(self, x):
        """object of a call through a pointer that stands for a known list"""
        if x[0] == "call" and x[1] in ("get_neighbors_of", "get_neighbors_to"):
            y = self.deref(x)
            return y if y[0] != "deref" else x
        return x

    def deref(self, x):
        if x[0] == "addr":
            return x[1]
        if x[0] == "cond" and x[2][0] == x[3][0] == "addr":
            return ("cond", x[1], x[2][1], x[3][1])
        if x[0] == "call" and x[1] in ("begin", "cbegin") and x[2] is not None:
            return ("[]", x[2], ("i", 0))
        if x[0] == "call" and x[1] in ("get_neighbors_of", "get_neighbors_to") and len(x[3]) == 2 and x[2] in (None, ("this",)) and pr(x[3][1]).endswith("default_neighborhood_id"):
            # the pointer is to the list of the default neighborhood (or null)
            return ("[]", (".", ("this",), "neighbors_" + x[1][-2:]), x[3][0])
        return ("deref", x)

    def x_un(self, n):
        o = n["o"]
        if o in ("++", "--", "++post", "--post"):
            x = self.expr(n["a"][0])
            self.effect(("asg", o[0] + "=", x, ("i", 1)))
            return x
        x = self.expr(n["a"][0])
        if o == "!":
            return mk_not(truth(x))
        if o == "&":
            return x[1] if x[0] == "deref" else ("addr", x)
        if o == "*":
            return self.deref(x)
        if o == "+":
            return x
        if o == "-" and isint(x):
            return ("i", -x[1])
        return ("un", o, x)

    def x_bin(self, n):
        o = n["o"]
        if o in ("&&", "||"):
            a = truth(self.expr(n["a"][0]))
            # effects of the right operand happen only under the left one
            save = self.guards
            cur = self.cur
            br = None
            mark = len(self.out.nodes)
            self.guards = self.guards + (Guard(a if o == "&&" else mk_not(a), "if", self.line),)
            if self.has_effects(n["a"][1]):
                br = self.node("br")
                br.guards = save
                br.eff = ("br", a)
                self.cur = [(br, o == "&&")]
            b = truth(self.expr(n["a"][1]))
            if br is not None:
                self.cur = self.cur + [(br, o != "&&")]
            self.guards = save
            return mk_and([a, b]) if o == "&&" else mk_or([a, b])
        if o == ",":
            self.expr(n["a"][0])
            return self.expr(n["a"][1])
        a = self.expr(n["a"][0])
        b = self.expr(n["a"][1])
        if TYPED and o == "/" and self.type(n).replace("const ", "") not in ("double", "float", "long double"):
            o = "//"
        return mk_bin(o, a, b)

    def has_effects(self, n):
        for x in walk(n):
            if x.get("k") in ("asg", "throw", "new", "delete"):
                return True
            if x.get("k") == "un" and x["o"].rstrip("post") in ("++", "--"):
                return True
            if x.get("k") == "op" and (x["o"] in ASSIGN_OPS or x["o"].rstrip("post") in ("++", "--")):
                return True
            if x.get("k") == "call":
                if x["n"] in MUTATORS and "b" in x:
                    return True
                fn = self.prog.by_id.get(x.get("fid"))
                if fn is not None and self.inline(fn):
                    return True
                if "lam" in x:
                    return True
                if x["n"].startswith(("MPI_", "Zoltan_")):
                    return True
        return False

    def x_asg(self, n):
        return self.assign(n)

    def assign(self, n):
        o = n["o"]
        lhs = n["a"][0]
        rhs = self.expr(n["a"][1])
        if lhs.get("k") == "var":
            self.lhs_mode = True
            l = self.expr(lhs)
            self.lhs_mode = False
        else:
            l = self.expr(lhs)
        self.emit_assign(o, l, rhs, self.type(lhs) or (self.prog.types[lhs["rt"]] if "rt" in lhs else ""))
        return rhs if o == "=" and rhs[0] not in ("cond", "ctor", "ilist", "lam") else l

    def emit_assign(self, o, l, rhs, ty=""):
        if o == "=" and rhs[0] == "cond":
            # x = c ? a : b
            save = self.guards
            br = self.node("br")
            br.eff = ("br", rhs[1])
            self.cur = [(br, True)]
            self.guards = save + (Guard(rhs[1], "if", self.line),)
            self.emit_assign(o, l, rhs[2], ty)
            ends = self.cur
            self.cur = [(br, False)]
            self.guards = save + (Guard(mk_not(rhs[1]), "if", self.line),)
            self.emit_assign(o, l, rhs[3], ty)
            self.cur = self.cur + ends
            self.guards = save
            return
        if o == "=" and is_empty_value(rhs) and is_container(rhs[1] if rhs[0] == "ctor" else ty):
            self.effect(("mut", "clear", l, ()))
            return
        if o == "=" and rhs[0] == "call" and rhs[1] == "erase" and l[0] == "v":
            pass
        if o == "=" and rhs[0] == "bin" and rhs[1] in ("+", "-", "*", "/", "|", "&", "^") and rhs[2] == l:
            o, rhs = rhs[1] + "=", rhs[3]
        elif o == "=" and rhs[0] == "bin" and rhs[1] in ("+", "*", "|", "&", "^") and rhs[3] == l:
            o, rhs = rhs[1] + "=", rhs[2]
        self.effect(("asg", o, l, rhs))

    def x_cond(self, n):
        c = truth(self.expr(n["a"][0]))
        save = self.guards
        if self.has_effects(n["a"][1]) or self.has_effects(n["a"][2]):
            br = self.node("br")
            br.eff = ("br", c)
            self.cur = [(br, True)]
            self.guards = save + (Guard(c, "if", self.line),)
            a = self.expr(n["a"][1])
            ends = self.cur
            self.cur = [(br, False)]
            self.guards = save + (Guard(mk_not(c), "if", self.line),)
            b = self.expr(n["a"][2])
            self.cur = self.cur + ends
            self.guards = save
        else:
            a = self.expr(n["a"][1])
            b = self.expr(n["a"][2])
        return mk_cond(c, a, b)

    def x_cast(self, n):
        x = self.expr(n["a"][0])
        t = self.type(n)
        if TYPED and "from" in n and t not in ("double", "float", "long double", "bool") and self.prog.types[n["from"]].replace("const ", "") in ("double", "float", "long double") and not (x[0] == "call" and x[1] in ("floor", "std::floor", "ceil", "std::ceil")):
            return ("call", "std::floor", None, (x,))
        if t == "bool" or t == "_Bool":
            if isint(x):
                return ("b", x[1] != 0)
            return truth(x)
        if isint(x) and x[1] < 0 and t in ("unsigned long", "unsigned int", "unsigned char", "unsigned short", "unsigned long long"):
            bits = {"unsigned long": 64, "unsigned long long": 64, "unsigned int": 32, "unsigned short": 16, "unsigned char": 8}[t]
            return ("i", x[1] % (1 << bits))
        if x[0] == "un" and x[1] == "~" and isint(x[2]) and "unsigned" in t:
            pass
        return x

    def x_ctor(self, n):
        args = n["a"]
        if n.get("copy") and len(args) == 1:
            return self.expr(args[0])
        vals = tuple(self.expr(a) for a in args if not (isinstance(a, dict) and a.get("dflt")))
        c = n.get("c", "")
        t = self.type(n)
        # iterator conversions and the like: one argument, iterator classes
        if len(vals) == 1 and ("iterator" in c or "_Node" in c):
            return vals[0]
        # pair/tuple conversion of make_pair/make_tuple results
        if len(vals) == 1 and c in ("std::pair", "std::tuple") and vals[0][0] in ("call", "ctor", "[]", ".", "el", "v"):
            return vals[0]
        # copy of a whole container
        if len(vals) == 2 and is_container(t) and vals[0][0] == "call" and vals[0][1] == "begin" and \
                vals[1] == ("call", "end", vals[0][2], ()):
            return vals[0][2]
        if c == "std::pair" and len(vals) == 2:
            return ("call", "std::make_pair", None, vals)
        return ("ctor", t, vals)

    def x_ilist(self, n):
        vals = tuple(self.expr(a) for a in n["a"])
        if len(vals) == 1 and vals[0][0] == "ilist":
            return vals[0]
        return ("ilist", vals)

    def x_lambda(self, n):
        self.prog.lambda_bodies[n["id"]] = n
        n["_frame"] = self.fr
        return ("lam", n["id"], self.fr.num)

    def x_throw(self, n):
        v = self.expr(n["a"][0]) if n.get("a") and n["a"][0] else ("nil",)
        self.effect(("throw", v))
        self.out.nodes[-1].kind = "abort"
        self.cur = []
        return ("nil",)

    def x_new(self, n):
        args = tuple(self.expr(a) for a in n["a"])
        return ("new", self.type(n), args)

    def x_delete(self, n):
        x = self.expr(n["a"][0])
        self.effect(("call", "delete", None, (x,)))
        return ("nil",)

    def x_expr(self, n):
        args = tuple(self.expr(a) for a in n.get("a", []))
        if len(args) == 1:
            return args[0]
        return ("expr", n.get("ek", "?"), args)

    def x_recovery(self, n):
        return ("recovery",)

    def x_unknown(self, n):
        return ("unknown",)

    def x_call(self, n):
        name = n["n"]
        line = n.get("l", self.line)
        # lambda call
        if "lam" in n:
            b = self.expr(n["b"])
            args = [self.expr(a) for a in n["a"]]
            lam = self.prog.lambda_bodies.get(n["lam"])
            if lam is not None and len(self.stack) < self.MAXDEPTH:
                return self.inline_lambda(lam, args, line)
            self.effect(("call", "<lambda>", b, tuple(args)))
            return ("call", "<lambda>", b, tuple(args))
        base = None
        if name == "operator()" and str(n.get("c", "")).startswith("dccrg::"):
            name = n["c"]
            base = ("functor",)
            self.expr(n["b"])
            fn0 = self.prog.by_id.get(n.get("fid"))
            args = [self.expr(a) for a in n["a"]]
            self.line = line
            if fn0 is not None and fn0.body is not None and fn0.id not in self.stack and self.inline(fn0):
                return self.inline_call(fn0, base, args, n, line)
            e = self.effect(("call", name, None, tuple(args)))
            e.extra = n
            return ("call", name, None, tuple(args))
        if "b" in n and n["b"] is not None:
            base = self.pointee(self.expr(n["b"]))
            if base[0] == "addr":
                base = base[1]
            elif base[0] == "cond" and base[2][0] == base[3][0] == "addr":
                base = ("cond", base[1], base[2][1], base[3][1])
        # std::for_each over a whole container
        if name in ("std::for_each",) and len(n["a"]) == 3:
            r = self.for_each(n)
            if r:
                return ("nil",)
        if name in ("std::any_of", "std::none_of", "std::all_of") and len(n["a"]) == 3:
            r = self.quantified(n, name)
            if r is not None:
                return r
        args = [self.expr(a) for a in n["a"]]
        self.line = line
        fn = self.prog.by_id.get(n.get("fid"))
        if name in ABORTS or n.get("noret"):
            e = self.effect(("call", name, base, tuple(args)))
            e.kind = "abort"
            self.cur = []
            return ("nil",)
        if fn is not None and fn.body is not None and fn.id not in self.stack and \
                len(self.stack) < self.MAXDEPTH and self.inline(fn):
            return self.inline_call(fn, base, args, n, line)
        if name in ("at",) and base is not None and len(args) == 1 and fn is None:
            return self.index(base, args[0])
        if name == "data" and base is not None and fn is None and not args and re.match(r"std::(vector|array)\b", str(n.get("c", ""))):
            return ("addr", self.index(base, ("i", 0)))
        if name == "get" and base is not None and fn is None and not args:
            return base  # smart pointers
        if name == "std::get" and len(args) == 1:
            i = str(n.get("ta", "")).split(",")[0].rstrip("UL").rstrip("ul")
            return self.tuple_get(args[0], i)
        if name in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::addressof") and len(args) == 1:
            return args[0] if name != "std::addressof" else ("addr", args[0])
        if name in ("std::begin", "std::end", "std::cbegin", "std::cend") and len(args) == 1:
            return ("call", name[5:].replace("cbegin", "begin").replace("cend", "end"), args[0], ())
        if base is not None and fn is None and name in ("cbegin", "cend"):
            name = name[1:]
        if base is not None and fn is None:
            if name == "empty" and not args:
                return ("empty", base)
            if name in NOEFFECT:
                return ("nil",)
            if name in MUTATORS:
                self.mutate(name, base, list(args), n)
                return ("call", name, base, tuple(args))
            if n.get("mc") is False and name not in ("begin", "end", "find", "front", "back", "data", "rbegin", "rend", "lower_bound", "upper_bound", "equal_range", "c_str", "str"):
                self.effect(("mut", name, base, tuple(args)))
            return ("call", name, base, tuple(args))
        if base is None and name in ("std::sort", "std::stable_sort", "std::reverse", "std::unique", "std::fill", "std::iota", "std::swap"):
            if name in ("std::sort", "std::stable_sort"):
                tgt = args[0][2] if args[0][0] == "call" and args[0][1] == "begin" else args[0]
                self.effect(("mut", "sort", tgt, tuple(args[2:])))
            elif name == "std::swap":
                self.mutate("swap", args[0], [args[1]], n)
            else:
                tgt = args[0][2] if args[0][0] == "call" and args[0][1] == "begin" else args[0]
                self.effect(("mut", name[5:], tgt, tuple(args[1:])))
            return ("call", name, base, tuple(args))
        if name == "std::copy" and len(args) == 3 and args[0][0] == "call" and args[0][1] == "begin" and \
                args[1] == ("call", "end", args[0][2], ()):
            dst = args[2]
            if dst[0] == "call" and dst[1] in ("std::back_inserter", "std::inserter"):
                tgt = dst[3][0]
                op = "push_back" if dst[1] == "std::back_inserter" else "insert"

                def body(el):
                    self.effect(("mut", op, tgt, (el,)))
                self.loop_over(args[0][2], body, "each")
                return ("nil",)
            if dst[0] == "call" and dst[1] == "begin":
                self.effect(("asg", "=", dst[2], args[0][2]))
                return ("nil",)
        v = ("call", name + ("<" + n["ta"] + ">" if name.startswith("std::get") else ""), base, tuple(args))
        if base is None and name.startswith("std::") and not self.has_ref_params(n):
            return v
        if base is None and name in PURE_LIB:
            return v
        if fn is not None and fn.d.get("const"):
            pure = True
        else:
            pure = False
        e = self.effect(("call", v[1], base, tuple(args)))
        e.extra = n
        if pure:
            e.kind = "pcall"
        return v

    def mutate(self, name, base, args, n=None):
        """one spelling per container operation"""
        def whole(a, b):
            return a[0] == "call" and a[1] == "begin" and b[0] == "call" and b[1] == "end" and a[2] is not None and a[2] == b[2]

        def at_end(a):
            return a == ("call", "end", base, ())
        if name in ("emplace_back", "push_back", "push"):
            name = "push_back"
            if len(args) == 2 and n is not None and n.get("b") and "t" in n["b"] and re.match(
                    r"(const )?std::(vector|list|deque)<(const )?std::pair<", self.prog.types[n["b"]["t"]]):
                args = [("call", "std::make_pair", None, tuple(args))]
            elif len(args) != 1:
                args = [("ctor", "", tuple(args))]
        if name == "emplace_hint" or (name in ("insert", "emplace") and len(args) == 2 and at_end(args[0])):
            vec = n is not None and "vector" in str(n.get("c", ""))
            name, args = ("push_back" if vec else "insert"), args[1:]
        if name == "emplace" and len(args) == 2:
            name, args = "insert", [("call", "std::make_pair", None, tuple(args))]
        elif name == "emplace" and len(args) == 1:
            name = "insert"
        if name == "insert":
            rng = args[-2:] if len(args) in (2, 3) else None
            if rng and whole(*rng) and (len(args) == 2 or at_end(args[0])):
                vec = len(args) == 3

                def body(el):
                    self.effect(("mut", "push_back" if vec else "insert", base, (el,)))
                self.loop_over(rng[0][2], body, "each")
                return
        if name == "assign" and len(args) == 2 and whole(*args):
            self.effect(("asg", "=", base, args[0][2]))
            return
        if name == "erase":
            if len(args) == 2 and whole(*args) and args[0][2] == base:
                name, args = "clear", []
            elif len(args) == 1 and args[0][0] == "call" and args[0][1] == "find" and args[0][2] == base:
                args = [args[0][3][0]]
        if name == "resize" and len(args) == 1 and args[0] == ("i", 0):
            name, args = "clear", []
        if name == "swap" and len(args) == 1:
            if is_empty_value(args[0]):
                name, args = "clear", []
            elif is_empty_value(base):
                name, base, args = "clear", args[0], []
        self.effect(("mut", name, base, tuple(args)))

    def has_ref_params(self, n):
        for t in n.get("pt", []):
            ty = self.prog.types[t]
            if ty.endswith("&&"):
                continue
            if ty.endswith("&") and not ty.startswith("const ") and "const &" not in ty[-8:]:
                return True
            if "iterator" in ty:
                return True
        return False

    def tuple_get(self, x, i):
        try:
            k = int(i)
        except ValueError:
            return ("call", "std::get<%s>" % i, None, (x,))
        if x[0] == "call" and x[1] in ("std::make_tuple", "std::tie") and k < len(x[3]):
            return x[3][k]
        return ("call", "std::get<%d>" % k, None, (x,))

    def quantified(self, n, name):
        lam = n["a"][2]
        while isinstance(lam, dict) and lam.get("k") in ("cast", "ctor") and len(lam.get("a", [])) == 1:
            lam = lam["a"][0]
        bb, ee = self.expr(n["a"][0]), self.expr(n["a"][1])
        if lam.get("k") != "lambda" or not (bb[0] == "call" and bb[1] == "begin" and ee == ("call", "end", bb[2], ())):
            return None
        self.x_lambda(lam)
        res = []

        def body(el):
            res.append(self.inline_lambda(lam, [el], lam.get("l", self.line)))
        self.loop_over(bb[2], body, "each")
        c = truth(res[0])
        if name == "std::all_of":
            c = mk_not(c)
        ex = ("exists", (bb[2],), c)
        return ex if name == "std::any_of" else mk_not(ex)

    def for_each(self, n):
        a = n["a"]
        if len(a) != 3:
            return False

        def rng(e):
            while isinstance(e, dict) and e.get("k") in ("cast", "ctor") and len(e.get("a", [])) == 1:
                e = e["a"][0]
            return e
        b, e, l = rng(a[0]), rng(a[1]), rng(a[2])
        if l.get("k") != "lambda" or b.get("k") != "call" or e.get("k") != "call":
            return False
        bb = self.expr(a[0])
        ee = self.expr(a[1])
        if not (bb[0] == "call" and bb[1] == "begin" and ee[0] == "call" and ee[1] == "end" and bb[2] == ee[2]):
            return False
        self.x_lambda(l)
        dom = bb[2]

        def body(el):
            self.inline_lambda(l, [el], l.get("l", self.line))
        self.loop_over(dom, body, "each")
        return True

    # -- inlining
    def push_frame(self, fr):
        saved = (self.fr, self.guards, self.loopstack, self.loops)
        fr.guards_at_entry = self.guards
        self.fr = fr
        self.loopstack = []
        return saved

    def pop_frame(self, fr, saved):
        self.cur = self.cur + fr.ret_ends
        self.fr, self.guards, self.loopstack, self.loops = saved
        ng = len(self.guards)
        if not fr.rets:
            return ("nil",)
        vals = [(g[ng:], v) for g, v in fr.rets]
        if len(vals) == 1:
            return vals[0][1] if vals[0][1] is not None else ("nil",)
        if any(v is None for _, v in vals):
            return ("nil",)
        # a value returned from inside a loop cannot be expressed as a formula
        if any(lp for lp in fr.ret_in_loop):
            ex = self.search_value(fr, saved, ng)
            if ex is not None:
                return ex
            # "search" helper: return one value inside the loop, another after
            return ("phi", fr.func.q if fr.func else "<lambda>", tuple(v for _, v in vals))
        r = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            r = mk_cond(mk_and([x.cond for x in g]), v, r)
        return r

    def search_value(self, fr, saved, ng):
        """truth value returned by a helper that searches: constants returned
        from inside loops, a constant after them"""
        base = len(saved[3])
        val = None
        for (g, v), loops in zip(reversed(fr.rets), reversed(fr.ret_loops)):
            v = truth(v)
            if v[0] == "b" or is_bool(v):
                pass
            else:
                return None
            extra = loops[base:]
            c = mk_and([x.cond for x in g[ng:] if x.kind not in ("abort", "ret", "brk") or not extra or True])
            if val is None:
                if extra:
                    return None
                val = v
                continue
            if extra:
                if v[0] != "b":
                    return None
                c = ("exists", tuple(l.dom for l in extra), c)
            if v == ("b", True):
                val = mk_or([c, val])
            elif v == ("b", False):
                val = mk_and([mk_not(c), val])
            else:
                val = mk_or([mk_and([c, v]), mk_and([mk_not(c), val])])
        return val

    def bind(self, fr, params, args, modified):
        for i, p in enumerate(params):
            a = args[i] if i < len(args) else None
            if a is None:
                fr.env[p["id"]] = ("v", p["n"], p["id"], fr.num)
                continue
            t = self.prog.types[p["t"]]
            if t.endswith("&") or p["id"] not in modified:
                fr.env[p["id"]] = a
            else:
                v = ("v", p["n"], p["id"], fr.num)
                fr.env[p["id"]] = v
                self.effect(("init", v, a))

    def inline_call(self, fn, base, args, n, line):
        fr = Frame(fn, base if base is not None else ("this",), self.fr)
        fr.ret_in_loop = []
        fr.modified = modified_vars(self.prog, fn.body)
        mark = self.node("call")
        mark.eff = ("enter", fn.q, base, tuple(args))
        mark.extra = fn
        saved = self.push_frame(fr)
        self.out.inlined.append(fn)
        self.stack.append(fn.id)
        self.bind(fr, fn.params, args, fr.modified)
        if "inits" in fn.d:
            for i in fn.d["inits"]:
                if i["e"]:
                    self.effect(("asg", "=", (".", fr.this, i["f"]), self.expr(i["e"])))
        self.stmt(fn.body)
        self.stack.pop()
        v = self.pop_frame(fr, saved)
        self.line = line
        end = self.node("callend")
        end.eff = ("leave", fn.q, base, tuple(args))
        end.extra = mark
        if v == ("nil",) and fn.rt != "void":
            v = ("call", fn.name, base, tuple(args))
        if v[0] == "phi":
            v = ("call", fn.name, base, tuple(args))
        return v

    def inline_lambda(self, lam, args, line):
        fr = Frame(self.fr.func, None, self.fr)
        fr.ret_in_loop = []
        fr.lexical = lam["_frame"]
        fr.func = lam["_frame"].func
        fr.modified = modified_vars(self.prog, lam["body"])
        saved = self.push_frame(fr)
        self.stack.append(("lam", lam["id"]))
        self.bind(fr, lam["p"], args, fr.modified)
        self.stmt(lam["body"])
        self.stack.pop()
        v = self.pop_frame(fr, saved)
        self.line = line
        return v

    # -- statements
    def stmt(self, n):
        if n is None or not self.cur:
            return
        if "l" in n:
            self.line = n["l"]
        getattr(self, "s_" + n["k"], self.s_other)(n)

    def s_other(self, n):
        raise AnalysisBroken("statement kind %s not supported (line %s)" % (n["k"], n.get("l")))

    def s_nop(self, n):
        pass

    def s_x(self, n):
        e = n["e"]
        v = self.expr(e)
        # statement `m[k];` creates an entry
        while e.get("k") in ("cast", "expr") and len(e.get("a", [])) == 1:
            e = e["a"][0]
        if e.get("k") == "op" and e["o"] == "[]" and v[0] == "[]":
            self.effect(("mut", "[]", v[1], (v[2],)))

    def s_decl(self, n):
        for v in n["v"]:
            self.declare(v)

    def is_modified(self, vid):
        f = self.fr
        while f is not None:
            if vid in f.modified:
                return True
            f = f.lexical
        return False

    def declare(self, v):
        t = self.prog.types[v["t"]]
        init = self.expr(v["init"]) if v.get("init") else None
        if init is not None and init[0] == "lam":
            self.fr.env[v["id"]] = init
            return
        isref = t.endswith("&")
        if init is not None and (isref or not self.is_modified(v["id"])) and not v.get("static"):
            # a default-constructed container that nothing writes
            self.fr.env[v["id"]] = init
            if not isref:
                e = self.effect(("init", ("v", v["n"], v["id"], self.fr.num), init))
                e.kind = "bind"
                e.extra = t
            return
        var = ("v", v["n"], v["id"], self.fr.num)
        self.fr.env[v["id"]] = var
        e = self.effect(("init", var, init if init is not None else ("undef",)))
        e.extra = t

    def s_blk(self, n):
        save = self.guards
        ss = n["s"]
        i = 0
        while i < len(ss):
            if not self.cur:
                break
            f = self.as_for(ss[i], ss[i + 1]) if i + 1 < len(ss) else None
            if f is not None:
                vid = ss[i]["v"][0]["id"]
                if any(x.get("k") == "var" and x.get("id") == vid for y in ss[i + 2:] for x in walk(y)):
                    f = None
            if f is not None:
                self.stmt(f)
                i += 2
                continue
            cj = self.as_counter(ss, i)
            if cj is not None:
                j, loop = cj
                ss = ss[:i] + ss[i + 1:j] + [loop] + ss[j + 1:]
                continue
            self.stmt(ss[i])
            i += 1
        # guards added by early exits last until the end of the enclosing
        # function, loop body or branch; the caller restores them
        n_ = None

    def s_if(self, n):
        save = self.guards
        if n.get("cv"):
            self.declare(n["cv"])
        c = truth(self.expr(n["c"]))
        line = n["l"]
        if c in (("b", True), ("b", False)):
            self.stmt(n["t"] if c[1] else n["e"])
            return
        br = self.node("br")
        br.eff = ("br", c)
        br.line = line
        x0 = self.exits_mark()
        self.cur = [(br, True)]
        self.guards = save + (Guard(c, "if", line),)
        self.stmt(n["t"])
        t_end, t_g = self.cur, self.guards
        self.cur = [(br, False)]
        self.guards = save + (Guard(mk_not(c), "if", line),)
        if n["e"] is not None:
            self.stmt(n["e"])
        e_end, e_g = self.cur, self.guards
        self.cur = t_end + e_end
        exits = self.exits_since(x0, len(save))
        if not t_end and not e_end:
            self.guards = save
        else:
            # conditions under which control left inside the branches
            add = []
            for kind, gs in exits:
                f = mk_not(mk_and([g.cond for g in gs]))
                if f != ("b", True):
                    add.append(Guard(f, kind, line))
            self.guards = save + tuple(add)

    # exits recorded as (kind, guards) in order
    def exits_mark(self):
        if not hasattr(self, "exitlog"):
            self.exitlog = []
        return (len(self.exitlog), self.fr)

    def exits_since(self, mark, ng):
        i, fr = mark
        out = []
        for kind, gs, f in self.exitlog[i:]:
            if f is fr:
                out.append((kind, gs[ng:]))
        return out

    def log_exit(self, kind):
        if not hasattr(self, "exitlog"):
            self.exitlog = []
        self.exitlog.append((kind, self.guards, self.fr))

    def loop_rets(self, mark, dom, save):
        """a return inside a finished loop constrains what follows: no element
        made it happen"""
        i, fr = mark
        add = []
        for j in range(i, len(self.exitlog)):
            kind, gs, f = self.exitlog[j]
            if f is fr and kind == "ret":
                c = mk_and([g.cond for g in gs[len(save):]])
                ex = ("exists", (dom,) + c[1], c[2]) if c[0] == "exists" else ("exists", (dom,), c)
                self.exitlog[j] = (kind, save + (Guard(ex, "if"),), f)
                add.append(Guard(mk_not(ex), "ret"))
        return tuple(add)

    def s_ret(self, n):
        v = self.expr(n["v"]) if n.get("v") else None
        if not self.cur:
            return
        self.emit_ret(v, n)

    def emit_ret(self, v, n):
        if v is not None and v[0] == "cond":
            save = self.guards
            br = self.node("br")
            br.eff = ("br", v[1])
            self.cur = [(br, True)]
            self.guards = save + (Guard(v[1], "if", self.line),)
            self.emit_ret(v[2], n)
            self.cur = [(br, False)]
            self.guards = save + (Guard(mk_not(v[1]), "if", self.line),)
            self.emit_ret(v[3], n)
            self.guards = save
            return
        e = self.node("ret")
        e.eff = ("ret", v)
        e.line = n["l"]
        self.fr.rets.append((self.guards, v))
        self.fr.ret_loops.append(self.loops)
        if hasattr(self.fr, "ret_in_loop") and self.loopstack:
            self.fr.ret_in_loop.append(True)
        self.fr.ret_ends = self.fr.ret_ends + self.cur
        self.cur = []
        self.log_exit("ret")

    def s_break(self, n):
        lp = self.loopstack[-1]
        lp.breaks += self.cur
        lp.break_guards.append(self.guards)
        self.cur = []
        self.log_exit("brk")

    def s_cont(self, n):
        for lp in reversed(self.loopstack):
            if not getattr(lp, "is_switch", False):
                lp.conts += self.cur
                break
        self.cur = []
        self.log_exit("cont")

    # loops
    def loop_over(self, dom, body, kind, var=None):
        save = self.guards
        savel = self.loops
        x0 = self.exits_mark()
        br = self.node("br")
        br.eff = ("br", ("each", dom))
        lp = Loop(dom, br)
        depth = sum(1 for l in self.loops if l.dom == dom)
        self.loops = self.loops + (LoopRef(dom, lp, kind),)
        self.loopstack = self.loopstack + [lp]
        self.cur = [(br, True)]
        body(("el", dom, depth))
        for p, l in self.cur + lp.conts:
            p.succ.append((br, l))
        self.cur = [(br, False)] + lp.breaks
        self.loopstack = self.loopstack[:-1]
        self.guards = save + self.loop_rets(x0, dom, save)
        self.loops = savel
        self.drop_loop_exits(lp)
        return lp

    def drop_loop_exits(self, lp):
        # breaks and continues of a finished loop do not constrain what follows
        if hasattr(self, "exitlog"):
            self.exitlog = [e if e[0] not in ("brk", "cont") or e[2] is not self.fr else ("done", e[1], None) for e in self.exitlog]

    def s_rfor(self, n):
        dom = self.expr(n["r"])
        v = n.get("v")

        def body(el):
            if v:
                t = self.prog.types[v["t"]]
                if t.endswith("&") or not self.is_modified(v["id"]):
                    self.fr.env[v["id"]] = el
                else:
                    var = ("v", v["n"], v["id"], self.fr.num)
                    self.fr.env[v["id"]] = var
                    self.effect(("init", var, el))
            self.set_counter(n, el)
            self.stmt(n["b"])
        self.loop_over(dom, body, "each")

    def s_for(self, n):
        # recognise iterator and counting loops
        i = n["i"]
        if i and i["k"] == "decl" and len(i["v"]) >= 1 and n["c"]:
            v = i["v"][0]
            vid = v["id"]
            bodymod = modified_vars(self.prog, n["b"])
            if vid not in bodymod and len(i["v"]) <= 2 and self.inc_of(n["n"], vid):
                init = self.peek(v.get("init"))
                c = n["c"]
                if init is not None and init[0] == "call" and init[1] == "begin" and self.cmp_end(c, vid):
                    dom = init[2]
                    end = self.cmp_end(c, vid)
                    if end == ("call", "end", dom, ()):
                        for extra in i["v"][1:]:
                            self.declare(extra)

                        def body(el):
                            self.fr.env[vid] = ("addr", el)
                            self.set_counter(n, el)
                            self.stmt(n["b"])
                        self.loop_over(dom, body, "each")
                        return
                if len(i["v"]) == 2 and i["v"][1]["id"] not in bodymod:
                    v2 = self.peek(i["v"][1].get("init"))
                    if v2 is not None:
                        self.fr.env[i["v"][1]["id"]] = v2
                hi = self.cmp_bound(c, vid)
                if init is not None and hi is not None and not self.bound_modified(c, n["b"]):
                    dom = ("range", init, hi)
                    if init == ("i", 0) and hi[0] == "call" and hi[1] == "size" and hi[2] is not None:
                        def body(el, hi=hi, dom=dom):
                            self.fr.env[vid] = ("el", dom, el[2])
                            self.set_counter(n, el)
                            self.stmt(n["b"])
                        self.loop_over(hi[2], body, "index")
                    else:
                        def body(el):
                            self.fr.env[vid] = el
                            self.stmt(n["b"])
                        self.loop_over(dom, body, "range")
                    return
        if i:
            self.stmt(i)
        self.generic_loop(n["c"], n["b"], n["n"], False)

    def peek(self, e):
        """value of an expression that must have no effects"""
        if e is None:
            return None
        mark = len(self.out.nodes)
        cur = self.cur
        v = self.expr(e)
        if any(x.kind not in ("pcall",) and not (x.kind == "bind") for x in self.out.nodes[mark:]):
            pass
        return v

    def inc_of(self, n, vid):
        for x in walk(n):
            k = x.get("k")
            if k in ("un", "op") and x.get("o") in ("++", "++post") and x["a"][0].get("id") == vid:
                return True
            if k == "asg" and x["o"] == "+=" and x["a"][0].get("id") == vid and x["a"][1].get("v") == "1":
                return True
        return False

    def strip(self, e):
        while isinstance(e, dict) and e.get("k") in ("cast", "ctor") and len(e.get("a", [])) == 1:
            e = e["a"][0]
        return e

    def cmp_end(self, c, vid):
        c = self.strip(c)
        if c.get("k") in ("op", "bin") and c["o"] == "!=" and len(c["a"]) == 2:
            a, b = self.strip(c["a"][0]), self.strip(c["a"][1])
            for x, y in ((a, c["a"][1]), (b, c["a"][0])):
                if x.get("k") == "var" and x["id"] == vid:
                    return self.peek(y)
        return None

    def cmp_bound(self, c, vid):
        c = self.strip(c)
        if c.get("k") == "bin" and c["o"] in ("<", "!=", ">"):
            a, b = self.strip(c["a"][0]), self.strip(c["a"][1])
            if a.get("k") == "var" and a["id"] == vid and c["o"] in ("<", "!="):
                return self.peek(c["a"][1])
            if b.get("k") == "var" and b["id"] == vid and c["o"] in (">", "!="):
                return self.peek(c["a"][0])
        return None

    def bound_modified(self, c, body):
        # the bound is stable if no variable in it is assigned in the body and
        # no container whose size it takes is resized there
        def path(e):
            e = self.strip(e)
            k = e.get("k")
            if k == "var":
                return ("v", e["id"])
            if k == "mem":
                return (".", path(e["b"]), e["n"])
            if k == "this":
                return ("this",)
            if k in ("op", "un"):
                return (e["o"],) + tuple(path(a) for a in e["a"])
            if k == "call":
                return ("[]" if e["n"] == "at" else e["n"],) + ((path(e["b"]),) if e.get("b") else ()) + tuple(path(a) for a in e["a"])
            if k == "int":
                return ("i", e["v"])
            return ("?", k)
        sized, plain = [], set()
        for x in walk(c):
            if x.get("k") == "call" and x["n"] == "size" and x.get("b"):
                sized.append(path(x["b"]))
        for x in walk(c):
            if x.get("k") == "var" and not sized:
                plain.add(x["id"])
        for x in walk(body):
            k = x.get("k")
            if k == "call" and x["n"] in MUTATORS and x.get("b") and path(x["b"]) in sized:
                return True
            if k in ("asg", "op") and x.get("o") in ASSIGN_OPS and path(x["a"][0]) in sized:
                return True
        if plain & modified_vars(self.prog, body):
            return True
        return False

    def generic_loop(self, c, b, inc, post):
        save, savel = self.guards, self.loops
        x0 = self.exits_mark()
        if post:
            head = self.node("nop")
            lp = Loop(("while",), head)
            self.loops = self.loops + (LoopRef(("while",), lp, "while"),)
            self.loopstack = self.loopstack + [lp]
            self.stmt(b)
            self.cur = self.cur + lp.conts
            if self.cur:
                self.guards = save
                cv = truth(self.expr(c)) if c else ("b", True)
                br = self.node("br")
                br.eff = ("br", cv)
                lp.dom = ("while", cv)
                br.succ.append((head, True))
                self.cur = [(br, False)] + lp.breaks
            else:
                self.cur = lp.breaks
        else:
            head = self.node("nop")
            cv = truth(self.expr(c)) if c else ("b", True)
            br = self.node("br")
            br.eff = ("br", cv)
            lp = Loop(("while", cv), head)
            self.loops = self.loops + (LoopRef(("while", cv), lp, "while"),)
            self.loopstack = self.loopstack + [lp]
            self.cur = [(br, True)]
            self.guards = save + (Guard(cv, "loop", self.line),)
            self.stmt(b)
            self.cur = self.cur + lp.conts
            self.guards = save
            if inc and self.cur:
                self.expr(inc)
            for p, l in self.cur:
                p.succ.append((head, l))
            self.cur = ([(br, False)] if cv != ("b", True) else []) + lp.breaks
        self.loopstack = self.loopstack[:-1]
        self.guards, self.loops = save + self.loop_rets(x0, lp.dom, save), savel
        self.drop_loop_exits(lp)

    def s_while(self, n):
        self.generic_loop(n["c"], n["b"], None, False)

    def as_for(self, decl, w):
        """`T i = ...; while (i != e) { ...; ++i; }` as a for loop"""
        if decl["k"] != "decl" or len(decl["v"]) != 1 or w["k"] != "while" or w["b"]["k"] != "blk" or not w["b"]["s"]:
            return None
        vid = decl["v"][0]["id"]
        last = w["b"]["s"][-1]
        if last["k"] != "x" or not self.inc_of(last["e"], vid):
            return None
        body = dict(w["b"])
        body["s"] = w["b"]["s"][:-1]
        for x in walk(body):
            if x.get("k") == "cont":
                return None
        if vid in modified_vars(self.prog, body):
            return None
        return {"k": "for", "i": decl, "c": w["c"], "n": last["e"], "b": body, "l": w.get("l", 0)}

    def as_counter(self, ss, i):
        """`int c = k; for (e: list) { ...; ++c; }`: c is the position plus k"""
        d = ss[i]
        if d["k"] != "decl" or len(d["v"]) != 1 or not d["v"][0].get("init"):
            return None
        v = d["v"][0]
        t = self.prog.types[v["t"]]
        if t not in ("int", "unsigned int", "unsigned long", "long", "short", "unsigned short", "long long", "unsigned long long"):
            return None
        vid = v["id"]
        uses = lambda y: any(x.get("k") == "var" and x.get("id") == vid for x in walk(y))
        js = [j for j in range(i + 1, len(ss)) if uses(ss[j])]
        if len(js) != 1:
            return None
        lp = ss[js[0]]
        if lp["k"] not in ("rfor", "for") or lp["b"]["k"] != "blk" or not lp["b"]["s"]:
            return None
        if lp["k"] == "rfor" and uses(lp["r"]) or lp["k"] == "for" and any(uses(lp[k]) for k in ("i", "c", "n") if lp.get(k)):
            return None
        init = self.peek(v["init"])
        if init is None or init[0] != "i":
            return None
        if lp["k"] == "for":
            li = lp["i"]
            if not li or li["k"] != "decl" or len(li["v"]) != 1 or not lp["c"]:
                return None
            lid = li["v"][0]["id"]
            start = self.peek(li["v"][0].get("init"))
            if start is None or lid in modified_vars(self.prog, lp["b"]) or not self.inc_of(lp["n"], lid):
                return None
            if start[0] == "call" and start[1] == "begin":
                if self.cmp_end(lp["c"], lid) != ("call", "end", start[2], ()):
                    return None
            else:
                hi = self.cmp_bound(lp["c"], lid)
                if start != ("i", 0) or hi is None or hi[0] != "call" or hi[1] != "size" or hi[2] is None or self.bound_modified(lp["c"], lp["b"]):
                    return None
        last = lp["b"]["s"][-1]
        if last["k"] != "x" or not self.inc_of(last["e"], vid):
            return None
        body = dict(lp["b"])
        body["s"] = lp["b"]["s"][:-1]
        e = self.strip(last["e"])
        whole = e.get("k") in ("un", "op", "asg") and e.get("a") and e["a"][0].get("id") == vid
        if not whole:
            # used and incremented at once: `x = c++`
            uses_in = [x for x in walk(last["e"]) if x.get("k") == "var" and x.get("id") == vid]
            if len(uses_in) != 1 or not any(x.get("k") in ("un", "op") and x.get("o") == "++post" and x["a"][0].get("id") == vid for x in walk(last["e"])):
                return None

            def plain(x):
                if isinstance(x, dict):
                    if x.get("k") in ("un", "op") and x.get("o") == "++post" and x["a"][0].get("id") == vid:
                        return x["a"][0]
                    return {k: plain(y) for k, y in x.items()}
                return [plain(y) for y in x] if isinstance(x, list) else x
            body["s"] = body["s"] + [plain(last)]
        if any(x.get("k") == "cont" for x in walk(body)) or vid in modified_vars(self.prog, body):
            return None
        return js[0], dict(lp, b=body, ctr=(vid, init))

    def set_counter(self, n, el):
        c = n.get("ctr")
        if c:
            pos = ("el", ("range", ("i", 0), ("call", "size", el[1], ())), el[2])
            self.fr.env[c[0]] = pos if c[1] == ("i", 0) else mk_bin("+", pos, c[1])

    def s_do(self, n):
        self.generic_loop(n["c"], n["b"], None, True)

    def s_switch(self, n):
        x = self.expr(n["c"])
        save = self.guards
        lp = Loop(None, None)
        lp.is_switch = True
        self.loopstack = self.loopstack + [lp]
        br = self.node("br")
        br.eff = ("br", ("switch", x))
        # flatten case labels
        groups = []

        def flat(s):
            if s is None:
                return
            if s["k"] == "case":
                groups.append([("case", s["v"]), []])
                flat(s["s"])
            elif s["k"] == "default":
                groups.append([("default",), []])
                flat(s["s"])
            else:
                if groups:
                    groups[-1][1].append(s)
        body = n["b"]
        for s in (body["s"] if body["k"] == "blk" else [body]):
            flat(s)
        self.cur = []
        hasdef = False
        seen = []
        fall = []
        for lab, ss in groups:
            if lab[0] == "case":
                v = self.expr_pure(lab[1])
                c = mk_bin("==", x, v)
                seen.append(c)
            else:
                hasdef = True
                c = mk_and([mk_not(mk_bin("==", x, self.expr_pure(l[0][1]))) for l in groups if l[0][0] == "case"])
            fall.append(c)
            self.cur = self.cur + [(br, ("case", c))]
            self.guards = save + (Guard(mk_or(fall), "if", n["l"]),)
            for s in ss:
                if not self.cur:
                    break
                self.stmt(s)
            if not self.cur:
                fall = []
        self.cur = self.cur + lp.breaks + ([] if hasdef else [(br, ("case", "none"))])
        self.guards = save
        self.loopstack = self.loopstack[:-1]

    def expr_pure(self, e):
        return self.expr(e)

    def s_try(self, n):
        save = self.guards
        t = []
        self.trys.append(t)
        start = self.node("nop")
        self.stmt(n["b"])
        self.trys.pop()
        ends = self.cur
        added = []
        for h in n["h"]:
            x0 = self.exits_mark()
            head_src = [(x, "exc") for x in t]
            self.cur = head_src
            ty = self.prog.types[h["et"]] if "et" in h else "..."
            self.guards = save + (Guard(("catch", ty, start.id), "catch", h["l"]),)
            self.stmt(h["b"])
            if self.cur:
                ends = ends + self.cur
        self.cur = ends
        self.guards = save


def lower(prog, func, inline=None, user_args=(), default_args=()):
    """user_args: positions of parameters that are ids of user defined
    neighborhoods; default_args: that are the id of the default one"""
    low = Lower(prog, inline)
    low.default_args = set(default_args)
    USER_IDS.clear()
    for i in user_args:
        USER_IDS.add(("v", "arg%d" % i, func.params[i]["id"], 0))
    try:
        return low.run(func)
    finally:
        USER_IDS.clear()


# ------------------------------------------------------------ graph utilities
def reachable(starts, stop=lambda n: False, exc=True):
    seen = set()
    st = list(starts)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if stop(n):
            continue
        for s, l in n.succ:
            if not exc and l == "exc":
                continue
            st.append(s)
    return seen


def path_avoiding(starts, goal, avoid, exc=False):
    """a path from a successor of one of starts to a goal node not touching
    `avoid`; returns the list of nodes or None"""
    from collections import deque
    prev = {}
    dq = deque()
    for s0 in starts:
        for s, l in s0.succ:
            if not exc and l == "exc":
                continue
            if s.id not in prev:
                prev[s.id] = None
                dq.append(s)
    while dq:
        n = dq.popleft()
        if avoid(n):
            continue
        if goal(n):
            p = [n]
            by = prev[n.id]
            while by is not None:
                p.append(by)
                by = prev[by.id]
            return list(reversed(p))
        for s, l in n.succ:
            if not exc and l == "exc":
                continue
            if s.id not in prev:
                prev[s.id] = n
                dq.append(s)
    return None
