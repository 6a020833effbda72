"""What every process must know identically (owner of every cell, pinned
cells, cell numbering, periodicity, geometry, neighborhoods) changes only by
values that are identical everywhere, under control that is identical
everywhere.  Decided by the SPMD uniformity analysis: every write to such a
member, in every public operation with callees inlined, must be uniform, and
operations that act on one process only must not write them at all."""
from .common import *
from . import c02
import uniform

MIN_OBLIGATIONS = 60
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = c02.ASSUMPTIONS[:2]
# called on one process with its own arguments
LOCAL_API = re.compile(r"^(pin|unpin|unpin_local_cells|refine_completely|refine_completely_at|unrefine_completely|unrefine_completely_at|"
                       r"dont_refine|dont_refine_at|dont_unrefine|dont_unrefine_at|set_cell_weight|"
                       r"start_remote_neighbor_copy_\w+|wait_remote_neighbor_copy_\w+|update_copies_of_remote_neighbors|"
                       r"clear_refined_unrefined_data)$")


def run(rep, prog, tier):
    n = 0
    for f in prog.funcs:
        if not f.body or c02.short_cls(f) != "Dccrg" or f.d.get("acc") != "public" or f.d.get("const") or f.d.get("static") or f.name.startswith("~"):
            continue
        if f.name == "Dccrg":
            continue
        v, F = c02.flow(prog, f)
        rep.saw(v)
        local = LOCAL_API.match(f.name)
        for k, (i, r, strong, forced, deps) in enumerate(F.defs):
            if i not in F.live or r[0] != "." or r[1] != ("this",) or r[2] not in uniform.KNOWLEDGE:
                continue
            node = F.nodes[i]
            if node.kind == "br":
                continue
            what = "%s: change of %s" % (f.name, r[2])
            n += 1
            if local:
                rep.bad("local-api", what, node.where(), "an operation of a single process changes knowledge that all processes share: %s" % v.txt.get(node.id, ""))
                continue
            if F.bad >> k & 1:
                b = F.divergent.get(i)
                d = "under control of %s (%s)" % (pr(F.nodes[b].eff[1])[:200], F.nodes[b].where()) if b is not None else \
                    "from %s" % ", ".join(pr(x)[:160] for x in deps if not F.uniform(x, i))
                rep.bad("uniform", what, node.where(), "%s: %s, which can differ between processes" % (v.txt.get(node.id, ""), d))
            else:
                rep.ok("uniform", what + " is the same on every process", node.where())
        if local:
            rep.ok("local-api", "%s leaves shared knowledge alone" % f.name, "dccrg.hpp:%d" % f.line)
    if n < 40:
        raise AnalysisBroken("only %d changes of shared knowledge found" % n)
