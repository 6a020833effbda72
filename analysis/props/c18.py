"""Dimensions are treated alike.  Decided on the syntax tree: wherever an
operation is spelled out for the three dimensions (elements of a list or call,
operands of a conjunction, disjunction, sum or product, consecutive statements,
assignments to members), parts that are equal but for the dimension they mention
must each mention a single dimension, and all three dimensions equally often; a
part that differs from its two companions is reported; and every loop over
dimensions covers all of them."""
from .common import *
import facts

MIN_OBLIGATIONS = 60
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["only operations written out per dimension and loops whose variable is used as a dimension are judged"]
SKIP = {"l", "id", "t", "fid", "rt", "pt", "from", "imp", "c", "mc", "virt", "vk"}
NAME = re.compile(r"^((?:.*_)?)([xyz])((?:_.*)?)$")


def unwrap(n):
    while isinstance(n, dict) and (n.get("k") == "cast" and n.get("ck") in (None, "c", "func", "static") or n.get("k") == "x" or n.get("k") == "ctor" and len(n.get("a", [])) == 1 and n.get("copy")):
        n = n["e"] if n.get("k") == "x" else n["a"][0]
    return n


TYPES = []
DIM3 = re.compile(r"(std::array<.*, 3(UL|ul)?>|\[3\])( ?(const)?[&*]?)*$")


def dim3(n):
    n = unwrap(n)
    t = n.get("t") if isinstance(n, dict) else None
    return t is None or DIM3.search(TYPES[0][t].replace("const ", "")) is not None


def shape(n, dims, index=False):
    """structure of an expression without dimensions, which are added to dims"""
    if isinstance(n, list):
        return tuple(shape(x, dims) for x in n)
    if not isinstance(n, dict):
        return n
    n = unwrap(n)
    if not isinstance(n, dict):
        return n
    k = n.get("k")
    if k == "int" and index and str(n.get("v")) in ("0", "1", "2"):
        dims.append(int(n["v"]))
        return ("dim",)
    if k == "op" and n.get("o") == "[]" or k == "idx":
        a = n["a"]
        return ("[]", shape(a[0], dims), shape(a[1], dims, dim3(a[0])))
    if k == "call" and n.get("n") == "at" and len(n.get("a", [])) == 1:
        return ("[]", shape(n.get("b"), dims), shape(n["a"][0], dims, dim3(n.get("b"))))
    if k == "call" and n.get("n") in PER_DIMENSION:
        return ("call", n["n"], shape(n.get("b"), dims), tuple(shape(x, dims, True) for x in n["a"]))
    if k in ("var", "mem"):
        m = NAME.match(n.get("n", ""))
        b = shape(n.get("b"), dims) if "b" in n else None
        if m:
            dims.append("xyz".index(m.group(2)))
            return (k, m.group(1) + "?" + m.group(3), b)
        return (k, n.get("n"), b)
    return tuple((q, shape(x, dims)) for q, x in sorted(n.items()) if q not in SKIP)


PER_DIMENSION = {"is_periodic", "set_periodicity"}


def flatten(n, o):
    n = unwrap(n)
    if isinstance(n, dict) and n.get("k") == "bin" and n.get("o") == o:
        return flatten(n["a"][0], o) + flatten(n["a"][1], o)
    return [n]


def contexts(body):
    """(kind, line, elements) of everything that may be written out per dimension"""
    inner = set()
    for n in facts.walk(body):
        k = n.get("k")
        if k in ("ilist", "ctor", "call") and len(n.get("a", [])) >= 3:
            yield "list" if k != "call" else "arguments", n.get("l"), n["a"]
        if k == "bin" and n.get("o") in ("&&", "||", "+", "*") and id(n) not in inner:
            ops = flatten(n, n["o"])
            for x in facts.walk(n):
                if x.get("k") == "bin" and x.get("o") == n["o"]:
                    inner.add(id(x))
            if len(ops) >= 3:
                yield "operands of " + n["o"], n.get("l"), ops
        if k == "blk":
            s = n["s"]
            for i in range(len(s) - 2):
                yield "statements", s[i].get("l"), s[i:i + 3]
        if k == "decl" and len(n.get("v", [])) == 3:
            yield "variables", n.get("l"), n["v"]


def where_of(f, n, l):
    x = n.get("l") if isinstance(n, dict) else None
    return "%s:%d" % (f.file, x or l or f.line)


def indexed(n):
    return any((x.get("k") == "op" and x.get("o") == "[]" or x.get("k") == "idx") and unwrap(x["a"][1]).get("k") == "int" for x in facts.walk(n))


def triads(rep, f):
    for kind, line, parts in contexts(f.body):
        groups = {}
        info = []
        for x in parts:
            d = []
            s = repr(shape(x, d))
            info.append((s, d, x))
            if d:
                groups.setdefault(s, []).append((d, x))
        what = "%s: %s %%s" % (f.q.replace("dccrg::", ""), kind)
        for s, g in groups.items():
            if len(g) % 3 == 0:
                if not any(len(set(d)) == 1 and set(d) != set(g[0][0]) for d, _ in g):
                    # nothing in common with dimensions
                    if kind in ("statements", "arguments") or kind.startswith("operands"):
                        continue
                mixed = [(d, x) for d, x in g if len(set(d)) > 1]
                if len(mixed) == len(g):
                    continue
                count = [sum(1 for d, _ in g if set(d) == {k}) for k in range(3)]
                ok = not mixed and len(set(count)) == 1
                odd = mixed[0][1] if mixed else next((x for i, (d, x) in enumerate(g) if d[0] != i % 3), g[0][1])
                rep.check(ok, "alike", what % "treat every dimension alike", where_of(f, odd, line), "part mentions dimension %s" % " and ".join("xyz"[i] for i in sorted(set(mixed[0][0]))) if mixed else "dimensions x, y, z are mentioned %d, %d, %d times" % tuple(count))
            elif len(g) == 2 and len(parts) == 3 and kind in ("list", "variables", "operands of &&", "operands of ||"):
                rest = [x for s2, d, x in info if s2 != s]
                ds = [d for s2, d, x in info if s2 != s]
                a, b = g
                if len(set(a[0])) == 1 and len(set(b[0])) == 1 and set(a[0]) != set(b[0]) and ds and ds[0] and indexed(rest[0]) and set(ds[0]) - set(a[0]) - set(b[0]):
                    rep.bad("alike", what % "treat every dimension alike", where_of(f, rest[0], line), "the part about %s differs from the others" % " and ".join("xyz"[i] for i in sorted(set(ds[0]))))


def loops(rep, f):
    for n in facts.walk(f.body):
        if n.get("k") != "for":
            continue
        i = n.get("i") or {}
        vs = i.get("v") or [] if i.get("k") == "decl" else []
        if len(vs) != 1:
            continue
        var = vs[0]
        used = any((x.get("k") == "op" and x.get("o") == "[]" or x.get("k") == "idx") and typed3(x["a"][0]) and (unwrap(x["a"][1]) or {}).get("id") == var["id"] for x in facts.walk(n["b"]))
        if not used:
            continue
        start = unwrap(var.get("init") or {})
        c = unwrap(n.get("c") or {})
        if c.get("k") != "bin" or c.get("o") not in ("<", "!=", "<=", ">") or start.get("k") not in ("int", "zero"):
            continue
        a, b = [unwrap(x) for x in c["a"]]
        if c["o"] == ">":
            a, b = b, a
        if a.get("id") != var["id"]:
            continue
        if b.get("k") == "int":
            last = int(b["v"]) - (c["o"] != "<=")
        elif b.get("k") == "call" and b.get("n") == "size" and typed3(b.get("b")):
            last = 2 if c["o"] != "<=" else 3
        else:
            continue
        first = int(start.get("v", 0))
        rep.check(first == 0 and last == 2, "loops", "%s: a loop over dimensions covers all of them" % f.q.replace("dccrg::", ""), "%s:%d" % (f.file, n.get("l") or f.line), "covers %d..%d" % (first, last))


def typed3(n):
    n = unwrap(n)
    return isinstance(n, dict) and n.get("t") is not None and DIM3.search(TYPES[0][n["t"]].replace("const ", "")) is not None


def run(rep, prog, tier):
    seen = set()
    TYPES[:] = [prog.types]
    for f in prog.funcs:
        if f.body is None or f.d.get("implicit") or not f.file.startswith("dccrg") or (f.q, f.sig) in seen:
            continue
        seen.add((f.q, f.sig))
        k = len(rep.obligations)
        triads(rep, f)
        loops(rep, f)
        if len(rep.obligations) > k:
            rep.funcs.add(f.q)
