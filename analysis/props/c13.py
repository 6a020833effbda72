"""A grid is self-contained and copying keeps its structure.  Decided on the
constructors: every public reference is bound to the object's own state and not
used before it is bound; a class that refers to its own state does not leave its
copying to the compiler; a grid constructed from one with other cell data gets,
member by member, the state of the original through functions that return exactly
that member, storage for the same cells, its own geometry, iterators and
callbacks.  Types of the public references are const."""
from .common import *
import facts, ir

MIN_OBLIGATIONS = 70
WITNESS = "copy.cpp"
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["copy constructors of the standard library and of user-given geometries copy", "what documentation of the copy constructor excludes is not required to be copied, only to not be mixed up"]

OWN = {"Dccrg": {"topology": "topology_rw", "mapping": "mapping_rw", "length": "mapping_rw.length_rw", "geometry": "geometry_rw",
                 "neighbors": "neighbors_rw", "cells": "cells_rw"},
       "Mapping": {"length": "length_rw"}}
NEEDED = ("topology_rw mapping_rw mapping_initialized grid_initialized neighborhood_length neighbors_ max_tag send_single_cells comm rank comm_size "
          "neighbors_of neighborhood_of neighborhood_to neighbors_to cell_process local_cells_on_process_boundary remote_cells_on_process_boundary "
          "cells_to_send cells_to_receive").split()
EMPTY = re.compile(r"^[\w:]*\{\}$|^[\w:]+\(\)$")


def short(c):
    return (c or "").rsplit("::", 1)[-1]


def ctors(prog, cls):
    out, seen = [], set()
    for f in prog.funcs:
        if short(f.cls) == cls and f.d.get("ctor") and f.body is not None and not f.d.get("implicit") and f.line not in seen:
            seen.add(f.line)
            out.append(f)
    return out


def getters(rep, prog):
    out = {}
    for f in prog.funcs:
        if short(f.cls) == "Dccrg" and f.name.startswith("get_") and not f.params and f.body is not None and f.name not in out:
            v = View(prog, f)
            rep.saw(v)
            rs = {v.txt[n.id][7:] for n in v.nodes if n.kind == "ret"}
            if len(rs) == 1:
                r = rs.pop()
                for n in v.nodes:
                    m = re.match(r"^MPI_Comm_dup\((\w+), &?(.*)\)$", v.txt.get(n.id, ""))
                    if m and m.group(2) == r:
                        r = m.group(1)
                out[f.name] = r
    return out


def own(rep, prog):
    refs = {}
    for r in prog.records:
        c = short(r["q"])
        if c not in OWN:
            continue
        names = [x["n"] for x in r["fields"]]
        rf = {x["n"]: prog.types[x["t"]] for x in r["fields"] if prog.types[x["t"]].endswith("&")}
        refs[c] = rf
        for n, t in sorted(rf.items()):
            rep.check(t.startswith("const "), "read-only", "%s::%s can't be used for changing what it refers to" % (c, n), "%s:%d" % (prog.files[r["file"]] if isinstance(r["file"], int) else r["file"], r["l"]), "type is " + t)
            rep.check(n in OWN[c], "own", "%s::%s refers to known state" % (c, n), "%s:%d" % (prog.files[r["file"]] if isinstance(r["file"], int) else r["file"], r["l"]), "unexpected reference")
        if rf:
            rep.check(r["user_copy_ctor"] or not r["implicit_copy"], "copying", "%s refers to its own state so copying isn't left to the compiler" % c, "%s:%d" % (prog.files[r["file"]] if isinstance(r["file"], int) else r["file"], r["l"]),
                      "the implicit copy constructor makes references of the copy refer to state of the original")
    for c in OWN:
        for f in ctors(prog, c):
            v = View(prog, f)
            rep.saw(v)
            what = "%s(%s)" % (c, "" if not f.params else ("other" if f.d["ctor"] != "default" else ""))
            got = {}
            for n in v.nodes:
                m = re.match(r"^(\w+) = (.*)$", v.txt.get(n.id, ""))
                if m and n.kind == "eff" and m.group(1) in refs.get(c, ()):
                    got.setdefault(m.group(1), m.group(2))
            for r, want in sorted(OWN[c].items()):
                if r in refs.get(c, ()):
                    rep.check(got.get(r) == want, "own", "%s: %s refers to own state" % (what, r), "%s:%d" % (f.file, f.line), "refers to %s" % got.get(r))
            # references are bound before they are used
            bound = set()
            for i in f.d.get("inits", []):
                for x in facts.walk(i["e"]):
                    if x.get("k") == "mem" and (x.get("b") or {}).get("k") == "this" and x.get("n") in refs.get(c, ()):
                        rep.check(x["n"] in bound, "own", "%s: %s is bound before %s uses it" % (what, x["n"], i["f"]), "%s:%d" % (f.file, x.get("l") or f.line), "not bound yet")
                bound.add(i["f"])
            if c == "Dccrg":
                g = [v.txt[n.id] for n in v.nodes if n.kind == "eff" and v.txt[n.id].startswith("geometry_rw = ")]
                a = re.match(r"^.*?\{(.*)\}$", g[0]) if g else None
                rep.check(bool(a) and a.group(1) == "mapping_rw.length_rw, mapping_rw, topology_rw", "own", "%s: geometry refers to length, mapping and topology of its grid" % what,
                          "%s:%d" % (f.file, f.line), str(g))
            if f.d["ctor"] == "copy":
                for x in [x for r in prog.records if short(r["q"]) == c for x in r["fields"]]:
                    if x["n"] in refs.get(c, ()):
                        continue
                    vals = [v.txt[n.id] for n in v.nodes if n.kind == "eff" and re.match(r"^%s(\.set\(| = )" % x["n"], v.txt[n.id])]
                    rep.check(bool(vals) and vals[-1] in ("%s = arg0.%s" % (x["n"], x["n"]),), "copy", "%s: %s is that of the original" % (what, x["n"]), "%s:%d" % (f.file, f.line), str(vals))


def copy(rep, prog):
    cs = [f for f in ctors(prog, "Dccrg") if f.d["ctor"] == "other" and len(f.params) == 1]
    if not cs:
        rep.bad("copy", "a grid can be constructed from one with other cell data", "dccrg.hpp", "constructor not found")
        return
    f = cs[0]
    v = View(prog, f, inline=("set_zoltan_callbacks",))
    rep.saw(v)
    get = getters(rep, prog)
    fields = [x["n"] for r in prog.records if r["q"].endswith("::Dccrg") for x in r["fields"] if not prog.types[x["t"]].endswith("&")]
    final = {}
    for n in v.nodes:
        m = re.match(r"^(\w+) = (.*)$", v.txt.get(n.id, ""))
        if n.kind == "eff" and m and m.group(1) in fields:
            final[m.group(1)] = (m.group(2), n)

    def resolve(t):
        m = re.match(r"^arg0\.(\w+)\(\)$", t)
        if m:
            return get.get(m.group(1), t), m.group(1)
        return (t[5:], None) if t.startswith("arg0.") else (None, None)
    done = set()
    for x in fields:
        if x in done or x not in final:
            continue
        done.add(x)
        t, n = final[x]
        r, via = resolve(t)
        if r is not None:
            rep.check(r == x and implies(TRUE, v.cond(n)) is None, "copy", "%s is that of the original" % x, n.where(), "is %s of the original%s" % (r, " (by %s)" % via if via else ""))
        elif x in NEEDED:
            rep.bad("copy", "%s is that of the original" % x, n.where(), "is %s" % t)
    for x in NEEDED:
        if x not in done:
            rep.bad("copy", "%s is that of the original" % x, "%s:%d" % (f.file, f.line), "isn't initialized")
    # steps
    ok = lambda n: implies(AND(*[~v.cond(a) for a in v.nodes if a.kind == "abort" and "throw" not in v.txt.get(a.id, "throw")]), v.cond(n)) is None

    def step(pats, what, after=None):
        ms = [m for m in v.find(pats) if not m[0].loops]
        where = ms[0][0].where() if ms else "%s:%d" % (f.file, f.line)
        if not ms:
            rep.bad("steps", what, where, "doesn't happen")
            return None
        n = ms[0][0]
        rep.check(ok(n), "steps", what, where, "happens only if %s" % v.cond(n))
        if after is not None:
            rep.check(ir.path_avoiding([v.entry], lambda m: m is n, lambda m: m is after) is None, "steps", what + " (in order)", where, "happens before " + v.txt[after.id][:80])
        return n
    step(["geometry_rw.set(arg0.geometry_rw)", "geometry_rw.set(arg0.geometry)"], "geometry is set to that of the original")
    D = "arg0.cell_data"
    ds = []
    for n in v.nodes:
        if n.kind != "eff" or len(n.loops) != 1:
            continue
        t = re.sub(r"arg0\.(\w+)\(\)", lambda m: "arg0." + get.get(m.group(1), m.group(1)), v.txt[n.id])
        if re.match(r"^cell_data\.(\[\]|emplace|insert|at)\((std::make_pair\(|\{)?each\(arg0\.cell_data\)\.first\b", t) or re.match(r"^cell_data\[each\(arg0\.cell_data\)\.first\] = ", t):
            ds.append(n)
        elif re.match(r"^cell_data\b", t) and re.search(r"\beach\(arg0\.(neighbors_of|neighbors_to)\)\.first", t):
            ds.append(n)
    rep.check(any(ok(n) for n in ds), "steps", "every local cell of the original has data in the copy",
              ds[0].where() if ds else "%s:%d" % (f.file, f.line), "only if %s" % v.cond(ds[0]) if ds else "data isn't created")
    a = step(["allocate_copies_of_remote_neighbors($x)"], "storage of remote neighbors is allocated")
    p = step(["update_cell_pointers(cells_rw, neighbors_rw, inner_cells_default, outer_cells_default, local_cells_default, remote_cells_default, all_cells_default, $x)"],
             "iterators of the default neighborhood are created", a)
    if p is not None and ds:
        rep.check(all(ir.path_avoiding([p], lambda m: m is n, lambda m: False) is None for n in ds), "steps", "iterators are created after data of cells", p.where(), "before")
    # zoltan
    ini = View(prog, prog.one("Dccrg", "initialize_zoltan", 0), inline=("set_zoltan_callbacks",))
    rep.saw(ini)
    want = [ini.txt[n.id] for n in ini.nodes if n.kind == "eff" and re.match(r"^Zoltan_Set_\w+_Fn\(", ini.txt[n.id])]
    if not want and not any(n.kind == "eff" and ini.txt[n.id].startswith("zoltan = ") for n in ini.nodes):
        return      # without load balancing
    z = [n for n in v.nodes if n.kind == "eff" and v.txt[n.id].startswith("zoltan = ")]
    rep.check(bool(z) and not re.match(r"^zoltan = arg0\.\w+(\(\))?$", v.txt[z[-1].id]), "own", "the copy has its own load balancer", z[-1].where() if z else "%s:%d" % (f.file, f.line), v.txt[z[-1].id] if z else "none")
    for w in want:
        rep.check(w.split("(")[1].startswith("zoltan, ") and (w.endswith(", this)") or w.endswith(", nil())")), "own", "%s is about this grid" % w.split("(")[0], "%s:%d" % (ini.func.file, ini.func.line), w)
        ns = [n for n in v.nodes if n.kind == "eff" and v.txt[n.id] == w]
        rep.check(bool(ns) and bool(z) and ok(ns[0]) and ir.path_avoiding([ns[-1]], lambda m: m is z[-1], lambda m: False) is None, "own", "Dccrg(other): %s is set to that of the copy" % w.split("(")[0],
                  ns[0].where() if ns else "%s:%d" % (f.file, f.line), "load balancing of the copy would use the original grid")


def geometries(rep, prog):
    for f in prog.funcs:
        c = short(f.cls)
        if f.name != "set" or not c.endswith("Geometry") or c == "No_Geometry" or f.body is None or len(f.params) != 1 or short(prog.types[f.params[0]["t"]].replace(" &", "")) != c:
            continue
        v = View(prog, f)
        rep.saw(v)
        g = View(prog, prog.one(c, "get", 0))
        rep.saw(g)
        rs = {g.txt[n.id] for n in g.nodes if n.kind == "ret"}
        rep.check(rs == {"return parameters"}, "copy", "%s::get returns all parameters" % c, "%s:%d" % (g.func.file, g.func.line), str(sorted(rs)))
        ok = [n for n in v.nodes if n.kind == "ret" and v.txt[n.id] in ("return set(arg0.get())", "return set(arg0.parameters)")]
        ok += [n for n in v.nodes if n.kind == "eff" and v.txt[n.id] in ("parameters = arg0.parameters", "parameters = arg0.get()")]
        rep.check(any(implies(TRUE, v.cond(n)) is None for n in ok), "copy", "%s: setting to another geometry uses all parameters of the other" % c, "%s:%d" % (f.file, f.line), "")


def run(rep, prog, tier):
    own(rep, prog)
    geometries(rep, prog)
    copy(rep, prog)
