"""No container changes shape while it is being iterated over.  Decided on the
control-flow graphs: for every loop over the elements of a container, no
statement of the body (directly or in functions it calls) inserts into or
removes from that container on a path that returns to the loop; what is assigned
to an associative container by operator [] counts as an insertion unless the
key comes from that container."""
from .common import *
import facts, ir

MIN_OBLIGATIONS = 80
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["loops that handle iterators of erased elements themselves are not loops over all elements and not judged"]
OPS = r"(insert|emplace|emplace_back|push_back|push_front|pop_back|erase|clear|resize|assign|swap|reserve|rehash|shrink_to_fit|merge)"


def container_of(text):
    m = re.match(r"^(.*)\.%s\(" % OPS, text)
    if m:
        return m.group(1), m.group(2), text[m.end():-1]
    m = re.match(r"^([^ ]*?)\.\[\]\((.*)\)$", text)
    if m:
        return m.group(1), "[]", m.group(2)
    return None, None, None


class Mods:
    """members of a class that calling a function may change the shape of"""
    def __init__(self, prog):
        self.prog, self.direct, self.calls, self.memo = prog, {}, {}, {}
        self.types = {}
        for r in prog.records:
            for x in r["fields"]:
                self.types.setdefault(x["n"], prog.types[x["t"]])

    def is_map(self, name):
        return re.match(r"^std::(unordered_)?map<", self.types.get(name, "")) is not None

    def of(self, cls, name, stack=()):
        k = (cls, name)
        if k in self.memo:
            return self.memo[k]
        if k in stack:
            return {}
        out = {}
        for f in self.prog.find(cls, name):
            if f.body is None:
                continue
            v = View(self.prog, f)
            for n in v.nodes:
                if n.kind != "eff":
                    continue
                for m, how in self.shape(v, n, cls, stack + (k,)):
                    out.setdefault(m, "%s in %s (%s)" % (how, name, n.where()))
        self.memo[k] = out
        return out

    def shape(self, v, n, cls, stack=()):
        """(container text, how) changed in shape by an effect"""
        t = v.txt[n.id]
        c, op, arg = container_of(t)
        out = []
        if c and op == "[]":
            root = re.match(r"^(\w+)$", c)
            if not root or self.is_map(root.group(1)):
                out.append((c, "looking up %s" % arg))
        elif c:
            out.append((c, op))
        m = re.match(r"^(\w+)\[(.*)\] = ", t)
        if m and self.is_map(m.group(1)):
            out.append((m.group(1), "assigning to %s" % m.group(2)))
        m = re.match(r"^([\w.%#\[\]()]+) = (.*)$", t)
        if m and not t.startswith("let ") and m.group(1) in self.types and re.match(r"^std::(unordered_)?(map|set)|^std::vector", self.types[m.group(1)]):
            out.append((m.group(1), "assignment"))
        m = re.match(r"^(\w+)\(", t)
        if m and cls and self.prog.find(cls, m.group(1)):
            out += [(x, h) for x, h in self.of(cls, m.group(1), stack).items() if re.match(r"^\w+$", x) and not x.startswith("arg")]
        return out


def key_of(how):
    m = re.match(r"^(?:looking up|assigning to) (.*)$", how)
    return m.group(1) if m else None


def run(rep, prog, tier):
    mods = Mods(prog)
    seen = set()
    for f in prog.funcs:
        if f.body is None or not f.file.endswith(".hpp") or (f.q, f.sig) in seen:
            continue
        seen.add((f.q, f.sig))
        v = View(prog, f)
        cls = (f.cls or "").rsplit("::", 1)[-1]
        loops = {}
        for n in v.nodes:
            for l, d in zip(n.loops, v.loops(n)):
                if not d.startswith("while(") and ".." not in d:
                    loops.setdefault((d, l.loop.node.id), (l, []))[1].append(n)
        for (d, _), (l, body) in sorted(loops.items(), key=lambda x: x[0][1]):
            bad = None
            for n in body:
                if n.kind != "eff":
                    continue
                for c, how in mods.shape(v, n, cls):
                    if c != d:
                        continue
                    key = key_of(how)
                    if key and (key in ("each(%s)" % d, "each(%s).first" % d) or v_has(v, n, c, key)):
                        continue
                    back = ir.path_avoiding([n], lambda m: m.id == l.loop.node.id, lambda m: False)
                    if back is not None:
                        bad = (n, how)
            rep.saw(v)
            rep.check(bad is None, "shape", "%s: %s keeps its shape while iterated over" % (f.name, d[:80]), bad[0].where() if bad else l.loop.node.where(), "%s" % (bad[1] if bad else ""))


def v_has(v, n, c, key):
    """the element is known to exist where it is looked up"""
    return implies(v.cond(n), A("has(%s, %s)" % (c, key))) is None
