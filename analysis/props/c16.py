"""Cell ids, indices, grid lengths and file offsets stay in 64 bits.  Decided on
the resolved syntax tree: every conversion between arithmetic types is an
obligation.  A conversion of a 64 bit value to a narrower type is judged by where
the value comes from (followed through local variables, loops over containers,
indexing and arithmetic): no cell id, index, length or file offset may be
narrowed; no 32 bit product of two run-time values may be widened to 64 bits
afterwards; no 32 bit counter may run up to one of these quantities; none may go
through floating point and back.  The number of level 0 cells a grid accepts is
compared with the largest id from the product of all three lengths."""
from .common import *
import facts

MIN_OBLIGATIONS = 150
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = [
    "ids handed to Zoltan have the width of Zoltan's id type, which its configuration decides",
    "counts given to MPI are limited to int by MPI",
    "the offset between a cell and its parent and the length of a cell in indices fit in 22 bits because a refinement level is at most 21",
]
BITS = {"unsigned long": 64, "long": 64, "unsigned long long": 64, "long long": 64, "int": 32, "unsigned int": 32,
        "short": 16, "unsigned short": 16, "unsigned char": 8, "signed char": 8, "char": 8}
FP = {"float": 24, "double": 53, "long double": 64}
GRID = re.compile(r"^(Mapping|Grid_Length|Grid_Topology|No_Geometry|Cartesian_Geometry|Stretched_Cartesian_Geometry)$")
SMALL = re.compile(r"^(get_cell_length_in_indices|data_size|size|get_neighbor_processes|get_number_of_\w+|count|max_size|capacity)$")
KEYED = re.compile(r"^(const )?std::(unordered_)?(map|set)<unsigned long\b|^(const )?std::vector<(std::pair<)?unsigned long\b|^(const )?std::array<unsigned long\b|^(const )?std::vector<std::array<unsigned long")


def strip(t):
    t = re.sub(r"\bconst\b|&", "", t).strip()
    return t


class Origin:
    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.defs = {}
        self.params = {p["id"]: p for p in f.params}
        self.zoltan = any(strip(prog.types[p["t"]]).startswith("void *") for p in f.params[:1])
        for x in facts.walk(f.body):
            k = x.get("k")
            if k == "decl":
                for d in x.get("v", []) if isinstance(x.get("v"), list) else []:
                    if isinstance(d.get("init"), dict):
                        self.defs.setdefault(d["id"], []).append(d["init"])
            if "id" in x and "init" in x and isinstance(x["init"], dict):
                if x["init"] not in self.defs.get(x["id"], []):
                    self.defs.setdefault(x["id"], []).append(x["init"])
            if k == "rfor" and "v" in x:
                self.defs.setdefault(x["v"]["id"], []).append({"k": "element", "a": [x["r"]]})
            if k == "asg":
                l = x["a"][0]
                while l.get("k") in ("op", "mem", "cast"):
                    l = (l.get("a") or [l.get("b")])[0]
                    if not isinstance(l, dict):
                        break
                if isinstance(l, dict) and l.get("k") == "var":
                    self.defs.setdefault(l.get("id"), []).append(x["a"][1])
            if k == "lambda":
                pass

    def cls(self):
        return (self.f.cls or "").rsplit("::", 1)[-1]

    def grid(self, e, seen=()):
        """why the value is a cell id, index, length or file offset (or None)"""
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        T = lambda i: strip(self.prog.types[i]) if i is not None else ""
        if k == "cast":
            return self.grid(e["a"][0], seen)
        if k == "call":
            n, c = e.get("n") or "", (e.get("c") or "").rsplit("::", 1)[-1]
            t = T(e.get("t"))
            if SMALL.match(n):
                return None
            if (GRID.match(c) or c == "Dccrg") and "unsigned long" in t and not re.search(r"process|pin_request", n):
                return "%s::%s()" % (c, n)
            if n in ("at", "front", "back", "operator[]", "find", "begin", "cbegin") and isinstance(e.get("b"), dict):
                return self.element(e["b"], seen)
            if n in ("std::max", "std::min", "std::abs"):
                for a in e.get("a", []):
                    w = self.grid(a, seen)
                    if w:
                        return w
            return None
        if k == "op":
            if e.get("o") == "[]":
                return self.element(e["a"][0], seen)
            if e.get("o") in ("*", "->"):
                return self.grid(e["a"][0], seen)
            return None
        if k == "element":
            return self.element(e["a"][0], seen)
        if k == "mem":
            b = e.get("b", {})
            if b.get("k") == "this":
                if GRID.match(self.cls()) and re.search(r"\bunsigned long\b", T(e.get("t"))) and not re.search(r"^(std::)?(array|vector)", T(e.get("t"))):
                    return "member %s" % e["n"]
                return None
            if e["n"] == "first":
                return self.grid(b, seen)
            return None
        if k == "un":
            return self.grid(e["a"][0], seen) if e.get("o") in ("++", "--", "++post", "--post", "+", "-", "*") else None
        if k == "bin":
            o = e.get("o")
            if o in ("*", "+", "-", "/", "|", "^", "<<"):
                if o == "-" and self.grid(e["a"][0], seen) and self.grid(e["a"][1], seen):
                    # the distance between two indices is not an index
                    return None
                for a in e["a"][:1 if o in ("<<", "/") else 2]:
                    w = self.grid(a, seen)
                    if w:
                        return w
            return None
        if k == "cond":
            return self.grid(e["a"][1], seen) or self.grid(e["a"][2], seen)
        if k == "var":
            t = T(e.get("t"))
            i = e.get("id")
            if t in ("long long",):
                return "file offset %s" % e["n"]
            if i in self.params:
                p = self.params[i]
                if t in ("unsigned long",) and not re.search(r"number|batches|process|rank|count", p["n"]):
                    return "parameter %s" % p["n"]
                return None
            if i in seen:
                return None
            for d in self.defs.get(i, []):
                w = self.grid(d, seen + (i,))
                if w:
                    return w
        return None

    def element(self, c, seen):
        """why the elements (or keys) of a container are grid quantities"""
        if not isinstance(c, dict):
            return None
        t = strip(self.prog.types[c["t"]]) if c.get("t") is not None else ""
        k = c.get("k")
        if k == "cast":
            return self.element(c["a"][0], seen)
        if k == "mem" and c.get("b", {}).get("k") == "this" or k == "mem":
            n = c["n"]
            if n in ("cell_process", "pin_requests", "new_pin_requests") or re.search(r"process", n):
                return None
            m = re.match(r"^(const )?std::(unordered_)?(map|set)<unsigned long|^(const )?std::array<unsigned long|^(const )?std::vector<(std::pair<)?unsigned long", t)
            if m:
                return "element of %s" % n
            return self.element(c["b"], seen) if n in ("second",) else None
        if k == "call":
            return self.grid(c, seen)
        if k == "op" and c.get("o") == "[]":
            return self.element(c["a"][0], seen)
        if k == "var":
            if not KEYED.match(t):
                return None
            i = c.get("id")
            if i in self.params:
                return "element of %s" % c["n"] if not re.search(r"process|number", c["n"]) else None
            if i in seen:
                return None
            for d in self.defs.get(i, []):
                w = self.element(d, seen + (i,)) or self.grid(d, seen + (i,))
                if w:
                    return w
        return None


def runtime(e):
    """the value is not fixed at compile time"""
    while e.get("k") == "cast":
        e = e["a"][0]
    return e.get("k") not in ("int", "sizeof", "bool", "float")


def unwrap(e):
    while isinstance(e, dict) and e.get("k") == "cast":
        e = e["a"][0]
    return e


def small(e):
    """a level, a dimension or an offset inside a neighborhood: its product with
    another such number is small"""
    e = unwrap(e)
    t = e.get("n", "") if e.get("k") in ("var", "mem", "call") else ""
    return re.search(r"level|lvl|dim|offset", t) is not None or (e.get("k") == "op" and small(e["a"][0]))


def parents(body):
    up = {}
    st = [(body, None)]
    while st:
        x, p = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                up[id(x)] = p
                p = x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    st.append((v, p))
        else:
            for v in x:
                if isinstance(v, (dict, list)):
                    st.append((v, p))
    return up


def run(rep, prog, tier):
    T = lambda i: strip(prog.types[i])
    seen = set()
    for f in prog.funcs:
        if f.body is None or not f.file.startswith("dccrg") or (f.q, f.sig) in seen:
            continue
        seen.add((f.q, f.sig))
        og = Origin(prog, f)
        up = parents(f.body)
        cls = og.cls()
        bad = []
        nconv = 0
        for x in facts.walk(f.body):
            k = x.get("k")
            where = "%s:%s" % (f.file, x.get("l", f.line))
            if k == "cast" and "from" in x:
                a, b = T(x["from"]), T(x["t"])
                src = x["a"][0]
                if BITS.get(a) == 64 and (BITS.get(b, 64) < 64 or b == "float"):
                    nconv += 1
                    par = up.get(id(x))
                    mpi = par is not None and par.get("k") == "call" and str(par.get("n", "")).startswith("MPI_")
                    w = og.grid(src)
                    if w and not (og.zoltan or mpi):
                        bad.append((where, "%s is converted from %s to %s" % (w, a, b)))
                    rt = round_trip(og, up, x, T)
                    if rt and not w and not mpi and not og.zoltan:
                        bad.append((where, rt))
                elif BITS.get(b) == 64 and BITS.get(a, 64) == 32:
                    nconv += 1
                    y = unwrap(src)
                    if y.get("k") == "bin" and y.get("o") == "*" and all(runtime(z) for z in y["a"]) and not any(small(z) for z in y["a"]):
                        bad.append((where, "the product of two run-time values is computed in %s before it becomes %s" % (a, b)))
                    if y.get("k") == "bin" and y.get("o") == "<<" and runtime(y["a"][1]) and (runtime(y["a"][0]) or any(z.get("k") == "bin" and z.get("o") == "*" for z in facts.walk(y["a"][1]))):
                        bad.append((where, "the shifted value is computed in %s before it becomes %s" % (a, b)))
                elif a in FP and BITS.get(b) and cls in ("Mapping", "Dccrg", "Grid_Length", "Grid_Topology"):
                    nconv += 1
                    w = next((w for w in (og.grid(z) for z in facts.walk(src) if z.get("k") in ("var", "call", "mem", "op")) if w), None)
                    if w and BITS[b] == 64:
                        bad.append((where, "%s goes through floating point" % w))
            elif k == "asg" and x.get("o") in ("+=", "-=", "*=", "|="):
                a = T(x["t"])
                if BITS.get(a, 64) < 64:
                    nconv += 1
                    w = og.grid(x["a"][1])
                    if w and not og.zoltan:
                        bad.append((where, "%s is accumulated in %s" % (w, a)))
            elif k == "bin" and x.get("o") in ("<", "<=", "!=", ">", ">="):
                for i in (0, 1):
                    s = x["a"][i]
                    if s.get("k") == "cast" and s.get("imp") and "from" in s and BITS.get(T(s["from"]), 64) < 64 and BITS.get(T(s["t"])) == 64:
                        v = unwrap(s)
                        if v.get("k") == "var" and counter(og, f, v) and x.get("o") in ("<", "<=", ">", ">=", "!="):
                            nconv += 1
                            w = og.grid(x["a"][1 - i])
                            if w and in_loop_cond(up, x):
                                bad.append((where, "counter %s of type %s runs up to %s" % (v["n"], T(s["from"]), w)))
        if nconv or bad:
            rep.funcs.add(f.q)
            for wh, d in dict(bad).items():
                rep.bad("64 bits", "%s keeps grid quantities in 64 bits" % f.q.split("::", 1)[-1], wh, d)
            if not bad:
                for i in range(nconv):
                    rep.ok("64 bits", "%s: conversion %d keeps grid quantities in 64 bits" % (f.name, i), "%s:%d" % (f.file, f.line))
    lengths(rep, prog)


def counter(og, f, v):
    for x in facts.walk(f.body):
        if x.get("k") == "un" and x.get("o", "")[:2] in ("++", "--") and unwrap(x["a"][0]).get("id") == v.get("id"):
            return True
        if x.get("k") == "asg" and x.get("o") == "+=" and unwrap(x["a"][0]).get("id") == v.get("id"):
            return True
    return False


def in_loop_cond(up, x):
    p = up.get(id(x))
    while p is not None and p.get("k") in ("bin", "un", "cast"):
        p = up.get(id(p))
    return p is not None and p.get("k") in ("for", "while", "do")


def round_trip(og, up, x, T):
    """the narrowed value is stored in a variable which is widened again for use
    in 64 bit arithmetic or as a file offset"""
    p = up.get(id(x))
    if p is None:
        return None
    var = None
    for i, ds in og.defs.items():
        if any(d is x for d in ds):
            var = i
    if var is None:
        return None
    for y in facts.walk(og.f.body):
        if y.get("k") == "cast" and "from" in y and BITS.get(T(y["t"])) == 64 and BITS.get(T(y["from"]), 64) < 64:
            v = unwrap(y)
            if v.get("k") == "var" and v.get("id") == var:
                q = up.get(id(y))
                if q is not None and (q.get("k") == "bin" and q.get("o") in ("*", "+", "<<") or q.get("k") == "asg") or T(y["t"]) == "long long":
                    return "%s is narrowed from %s and used in 64 bit arithmetic afterwards" % (v["n"], T(x["from"]))
    return None


def lengths(rep, prog):
    v = view(prog, "Grid_Length", "set", 1)
    rep.saw(v)
    P = ["given_length", "arg0", "length"]
    # a refusal for too many cells exists and is decided by all three lengths
    lits = set()
    for n in v.nodes:
        if n.kind == "ret":
            lits |= v.cond(n).atoms()
    three = lambda t: all(re.search(r"\[%d\]" % d, t) for d in range(3))
    ok = False
    for t in lits:
        if "<" not in t:
            continue
        if three(t) and re.search(r"[*/]", t) and "+" not in t and re.search(r"~0|max\(|e\+|\d{6}", t):
            ok = True
        for x in re.findall(r"%[\w.#]+", t):
            # accumulated over the dimensions
            ok = ok or any(v.txt[n.id].startswith((x + " = ", x + " *=", x + " /=")) and re.search(r"[*/]", v.txt[n.id])
                           and any("0..3" in l for l in v.loops(n)) for n in v.nodes if n.id in v.txt)
    where = "%s:%d" % (v.func.file, v.func.line)
    rep.check(ok, "lengths", "Grid_Length::set decides whether the number of level 0 cells fits from the product of the lengths",
              where, "no refusal compares the product of all three lengths with the largest 64 bit number: %s" % sorted(lits)[:6])
    T = lambda i: strip(prog.types[i])
    wraps = [x for x in facts.walk(v.func.body) if x.get("k") == "bin" and x.get("o") == "*" and BITS.get(T(x["t"])) == 64 and all(runtime(a) for a in x["a"])]
    divides = any(x.get("k") == "bin" and x.get("o") == "/" for x in facts.walk(v.func.body))
    rep.check(not wraps or divides, "lengths", "Grid_Length::set: the number of level 0 cells is not computed in 64 bits where it could wrap around",
              "%s:%s" % (v.func.file, wraps[0]["l"] if wraps else v.func.line), "a product of lengths in 64 bits is compared with the limit")
