"""Propagation of affine (polynomial) values along the successful course of a
function: positions and sizes of file items, running sums in loops."""
import re
from ir import pr
import rules

SIZES = {"unsigned long": 8, "long": 8, "unsigned long long": 8, "long long": 8, "double": 8, "unsigned int": 4, "int": 4, "float": 4,
         "unsigned char": 1, "char": 1, "signed char": 1, "bool": 1, "unsigned short": 2, "short": 2, "size_t": 8, "uint64_t": 8, "uint8_t": 1, "int32_t": 4}
MPI_SIZES = {"uint64_t": 8, "int64_t": 8, "int": 4, "unsigned": 4, "double": 8, "float": 4, "uint8_t": 1, "byte": 1, "char": 1, "unsigned_char": 1, "unsigned_long": 8,
             "long": 8, "int8_t": 1, "uint32_t": 4, "int32_t": 4, "unsigned_long_long": 8, "long_long_int": 8}


def size_of(t):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    if t in SIZES:
        return SIZES[t]
    m = re.match(r"^std::array<(.*), (\d+)>$", t)
    if m:
        s = size_of(m.group(1))
        return None if s is None else s * int(m.group(2))
    m = re.match(r"^(.*)\[(\d+)\]$", t)
    if m:
        s = size_of(m.group(1))
        return None if s is None else s * int(m.group(2))
    return None


def mpi_size(e):
    """(name, bytes) of a predefined MPI datatype expression"""
    m = re.match(r"^&ompi_mpi_(\w+)$", pr(e))
    return (m.group(1), MPI_SIZES.get(m.group(1))) if m else (None, None)


class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.t.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        r = {}
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                kk = tuple(sorted(k + k2))
                r[kk] = r.get(kk, 0) + v * v2
        return Poly(r)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(str(self))

    def atoms(self):
        return {a for k in self.t for a in k}

    def subst(self, f):
        """replace atoms: f(atom) -> Poly or None"""
        r = Poly()
        for k, v in self.t.items():
            p = Poly.const(v)
            for a in k:
                x = f(a)
                p = p * (Poly.atom(a) if x is None else x)
            r = r + p
        return r

    def __str__(self):
        if not self.t:
            return "0"
        out = []
        for k, v in sorted(self.t.items(), key=lambda kv: (len(kv[0]), kv[0])):
            s = "*".join(k)
            out.append(str(v) if not k else s if v == 1 else "%d*%s" % (v, s))
        return " + ".join(out)


class Trace:
    """values along the nodes of a view in program order, keeping nodes whose
    condition holds under the assumptions; a value assigned under a condition
    that the assumptions leave open becomes unknown"""
    def __init__(self, view, assume, hook=None, norm=None):
        self.v = view
        self.assume = assume
        self.hook = hook or (lambda tr, n, e: None)
        self.norm = norm or (lambda s: s)
        self.env = {}
        self.fill = {}
        self.unknown = 0
        self.log = []
        self.order = {}
        self.run()

    # --------------------------------------------------------------- expressions
    def ev(self, e):
        if e in self.env:
            return self.env[e]
        k = e[0]
        if k == "i":
            return Poly.const(e[1])
        if k == "sizeof":
            s = size_of(e[1])
            return Poly.atom("sizeof(%s)" % e[1]) if s is None else Poly.const(s)
        if k == "bin" and e[1] in ("+", "-", "*"):
            a, b = self.ev(e[2]), self.ev(e[3])
            return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b
        if k == "neg":
            return self.ev(e[1]).scale(-1)
        if k == "cast":
            return self.ev(e[-1])
        if k == "cond":
            c = str(rules.simplify(rules.fml(rules.truth(e[1])), self.assume))
            if c in ("true", "false"):
                return self.ev(e[2] if c == "true" else e[3])
        if k == "b":
            return Poly.const(int(e[1]))
        if k == "call" and e[1] == "std::accumulate" and len(e[3]) == 3:
            b, f = e[3][0], e[3][1]
            if b[0] == "call" and b[1] in ("begin", "cbegin") and f[0] == "bin" and f[1] == "+" and b in f[2:4]:
                n = self.text(f[3] if f[2] == b else f[2])
                return self.ev(e[3][2]) + Poly.atom("SUM[0..%s]{%s[each(0..%s)]}" % (n, self.text(b[2]), n))
        return Poly.atom(self.text(e))

    def text(self, e):
        return self.norm(pr(e))

    def forget(self, key):
        self.unknown += 1
        self.env[key] = Poly.atom("?%s#%d" % (pr(key), self.unknown))

    # ------------------------------------------------------------------- program
    def active(self, n):
        c = rules.simplify(self.v.cond(n), self.assume)
        s = str(c)
        if s == "false":
            return False
        return True if s == "true" else None

    def writes(self, e):
        """(key, delta expression or None) of a write"""
        if e[0] == "init":
            return e[1], None
        if e[0] == "asg":
            return e[2], (e[1], e[3])
        return None

    def run(self):
        nodes = [n for n in self.v.nodes if n.kind in ("eff", "ret", "pcall", "bind") and n.eff is not None]
        self.block(nodes, ())

    def loopkey(self, n):
        # the loops around a node, identified by their objects
        return tuple(id(r.loop) for r in n.loops)

    def block(self, nodes, prefix):
        i = 0
        while i < len(nodes):
            n = nodes[i]
            lk = self.loopkey(n)
            if len(lk) > len(prefix):
                sub = lk[:len(prefix) + 1]
                j = i
                grp = []
                while j < len(nodes) and self.loopkey(nodes[j])[:len(sub)] == sub:
                    grp.append(nodes[j])
                    j += 1
                self.loop(grp, sub)
                i = j
                continue
            self.step(n)
            i += 1

    def loop(self, grp, prefix):
        dt = grp[0].loops[len(prefix) - 1].dom
        dom = self.norm(pr(dt))
        # variables that grow in the loop by an amount that does not depend on themselves
        sums = {}
        kill = set()
        declared = {n.eff[1] for n in grp if n.eff[0] == "init"}
        for n in grp:
            a = self.active(n)
            w = self.writes(n.eff) if n.eff[0] in ("init", "asg") else None
            if a is False or w is None or w[0] in declared:
                continue
            key, d = w
            if key[0] == "[]":
                # element of the current iteration
                continue
            if d is not None and d[0] in ("+=", "-=") and a is True and len(self.loopkey(n)) == len(prefix):
                sums.setdefault(key, []).append(n)
            else:
                kill.add(key)
        for key in kill:
            self.forget(key)
            sums.pop(key, None)
        start = {key: self.ev(key) for key in sums}
        base = dict(self.env)
        # first pass to learn the increments (values of loop variables unknown)
        saved = (dict(self.env), list(self.log), self.unknown)
        for key in sums:
            self.env[key] = Poly.atom("VAR<%s>" % pr(key))
        self.log = []
        self.block(grp, prefix)
        inc = {}
        for key in sums:
            d = self.env[key] - Poly.atom("VAR<%s>" % pr(key))
            inc[key] = None if any(a.startswith("VAR<") for a in d.atoms()) else d
        self.env, self.log, self.unknown = saved
        for key in sums:
            if inc[key] is None:
                self.forget(key)
            else:
                self.env[key] = start[key] + self.running("PRE", dt, dom, inc[key])
        self.block(grp, prefix)
        for key in sums:
            if inc[key] is None:
                self.forget(key)
            else:
                self.env[key] = start[key] + self.running("SUM", dt, dom, inc[key])

    def running(self, kind, dt, dom, inc):
        """sum of the increments of all or the previous iterations"""
        if not inc.t:
            return Poly()
        if set(inc.t) == {()} and dt[0] == "range" and dt[1] == ("i", 0):
            return (self.ev(dt[2]) if kind == "SUM" else Poly.atom("each(%s)" % dom)).scale(inc.t[()])
        return Poly.atom("%s[%s]{%s}" % (kind, dom, inc))

    def step(self, n):
        a = self.active(n)
        if a is False:
            return
        e = n.eff
        w = self.writes(e) if e[0] in ("init", "asg") else None
        if w is not None:
            key, d = w
            if a is None:
                self.forget(key)
            elif d is None:
                self.env[key] = self.ev(e[2])
                m = re.match(r"^std::vector\{.*, (-?\d+)\}$", pr(e[2]))
                if m:
                    self.fill[key] = Poly.const(int(m.group(1)))
            elif d[0] == "=":
                self.env[key] = Poly.atom(self.text(key)) if key[0] == "[]" and d[1][0] == "call" else self.ev(d[1])
            elif d[0] in ("+=", "-=", "*="):
                x, y = (self.fill[key[1]] if key[0] == "[]" and key not in self.env and key[1] in self.fill else self.ev(key)), self.ev(d[1])
                self.env[key] = x + y if d[0] == "+=" else x - y if d[0] == "-=" else x * y
            else:
                self.forget(key)
        if e[0] == "call" and e[1] == "MPI_Type_size" and len(e[3]) == 2 and e[3][1][0] == "addr":
            self.env[e[3][1][1]] = Poly.atom("TYPESIZE(%s)" % self.text(e[3][0]))
        if e[0] == "call" and e[1] and e[1].startswith("MPI_File_read") and len(e[3]) > 2 and e[3][2][0] == "addr":
            self.env[e[3][2][1]] = Poly.atom(pr(e[3][2][1]))
        self.log.append((n, a))
        self.hook(self, n, e)
