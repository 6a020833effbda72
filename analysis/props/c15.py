"""Refused settings leave no trace and accepted ones take effect as a whole.
Decided on the control-flow graphs: (1) in every function that reports refusal
(returns false, or throws for an invalid argument) no change of the object's
state lies on a path to the refusal unless it is undone on that path; (2) the
hierarchical partitioning levels and their options change together, at the same
position and only for levels that exist, options reserved for dccrg are never
changed, the getters and the callbacks that Zoltan uses read the level they are
asked for."""
from .common import *
import facts, ir

MIN_OBLIGATIONS = 40
THOROUGH_CONFIGS = [("DEBUG",)]
ASSUMPTIONS = ["failures of MPI, of Zoltan and of reading files may leave a grid that isn't usable"]
NOT_SETTERS = re.compile(r"^(initialize\w*|\w*load(ing)?_grid_data|read|\w*balance_load|create_level_0_cells|update_\w+|start_\w+|wait_\w+|save_grid_data|verify_\w+|is_consistent|write\w*)$")
HARMLESS = re.compile(r"^(let |%|arg\d|\*arg|MPI_|quiet_NaN|std::|sort\(|abort|throw|[\w:]*Error_String|get_\w+\(|is_\w+\()")


def state_change(v, n, fields, methods):
    t = v.txt.get(n.id, "")
    if n.kind != "eff" or HARMLESS.match(t):
        return False
    m = re.match(r"^\*?([A-Za-z_]\w*)", t)
    return bool(m) and (m.group(1) in fields or m.group(1) in methods or t.startswith("Zoltan_Set_Param"))


def undone(t):
    """(member, is a restore) of an effect that sets a member to its old value"""
    m = re.match(r"^(\w+) = (\w+)$", t)
    if m and m.group(1) == m.group(2):
        return m.group(1)
    m = re.match(r"^(\w+)\.set\w*\((\w+)\.get\(\)\)$", t)
    if m and m.group(1) == m.group(2):
        return m.group(1)
    m = re.match(r"^(\w+)(?:\.set\w*\(| = )%(old|previous|saved|original)", t)
    return m.group(1) if m else None


def refusals(rep, prog):
    seen = set()
    fields = {}
    for r in prog.records:
        fields.setdefault(r["q"].rsplit("::", 1)[-1], set()).update(x["n"] for x in r["fields"])
    for f in prog.funcs:
        cls = (f.cls or "").rsplit("::", 1)[-1]
        if f.body is None or not cls or not f.file.startswith("dccrg") or f.d.get("implicit") or (f.q, f.sig) in seen or NOT_SETTERS.match(f.name):
            continue
        seen.add((f.q, f.sig))
        setter = re.match(r"^(set|add|remove|pin|unpin|refine|unrefine|dont)\w*$", f.name)
        if f.rt != "bool" and not setter:
            continue
        v = View(prog, f)
        ends = [n for n in v.nodes if n.frame is v.L.frame and (n.kind == "ret" and v.txt[n.id] == "return false")]
        if setter:
            ends += [n for n in v.nodes if n.kind == "abort" and "throw" in v.txt.get(n.id, "throw") and n.frame is v.L.frame]
        if not ends:
            continue
        methods = {g.name for g in prog.funcs if g.cls == f.cls and not g.d.get("const") and not g.d.get("mc")}
        effs = [n for n in v.nodes if state_change(v, n, fields.get(cls, ()), methods)]
        rep.saw(v)
        for e in ends:
            bad = None
            ce = v.cond(e, drop=())
            for n in effs:
                t = v.txt[n.id]
                if undone(t):
                    continue
                m = re.match(r"^(\w+)", t)
                path = ir.path_avoiding([n], lambda x: x is e, lambda x: x.kind == "eff" and undone(v.txt.get(x.id, "")) == m.group(1))
                if path is None or satisfiable(AND(ce, v.cond(n, drop=()))) is None:
                    continue
                if t.endswith(")") and implies(ce, ~A(t)) is None:
                    continue        # the refusal is that of the setter called
                bad = n
                break
            rep.check(bad is None, "no trace", "%s::%s: refusing has no effect" % (cls, f.name), e.where(), "%s happened before (%s)" % (v.txt[bad.id][:60], bad.where()) if bad else "")


def partition(rep, prog):
    D = "Dccrg"
    size = "processes_per_part.size()"
    ok0 = AND(~F("atom", cmp_key("<", "arg0", "0")), F("atom", cmp_key("<", "arg0", size)))

    def fix(t):
        t = re.sub(r"\bpartitioning_options\.size\(\)", size, t)
        return t

    def exact(v, pats, want, what):
        rep.saw(v)
        ms = v.find(pats)
        where = ms[0][0].where() if ms else "%s:%d" % (v.func.file, v.func.line)
        what = "%s: %s" % (v.func.name, what)
        if not ms:
            rep.bad("levels", what, where, "required effect missing")
            return
        # what throws before isn't reached
        stop = lambda n: [~v.cond(a) for a in v.nodes if a.kind == "abort" and not a.loops and ir.path_avoiding([n], lambda m: m is a, lambda m: False) is None]
        c = rename(OR(*[AND(v.cond(n), *stop(n)) for n, _ in ms]), fix)
        ce = implies(AND(want, A("grid_initialized")), c)       # DEBUG aborts without a grid
        if ce is not None:
            rep.bad("levels", what, where, "doesn't happen when %s" % show(ce))
            return
        ce = implies(c, want)
        rep.check(ce is None, "levels", what, where, "happens also when %s" % (show(ce) if ce else ""))
    v = view(prog, D, "add_partitioning_level", 1)
    pos = ~F("atom", cmp_key("<", "arg0", "1"))
    exact(v, ["processes_per_part.push_back(arg0)", "processes_per_part.emplace_back(arg0)"], pos, "the number of processes of the new level is added")
    exact(v, ["partitioning_options.push_back($x)", "partitioning_options.emplace_back($x)", "partitioning_options.emplace_back()"], pos, "options of the new level are added")
    v = view(prog, D, "remove_partitioning_level", 1)
    exact(v, ["processes_per_part.erase((processes_per_part.begin() + arg0))", "processes_per_part.erase((arg0 + processes_per_part.begin()))"], ok0, "the number of processes of a level that exists is removed")
    exact(v, ["partitioning_options.erase((partitioning_options.begin() + arg0))", "partitioning_options.erase((arg0 + partitioning_options.begin()))"], ok0, "options of a level that exists are removed")
    v = view(prog, D, "add_partitioning_option", 3)
    exact(v, ["partitioning_options[arg0][arg1] = arg2"], AND(ok0, ~A("has(reserved_options, arg1)")), "the option of a level that exists is set unless reserved")
    v = view(prog, D, "remove_partitioning_option", 2)
    exact(v, ["partitioning_options[arg0].erase(arg1)"], ok0, "the option of a level that exists is removed")
    v = view(prog, D, "set_partitioning_option", 2)
    exact(v, ["Zoltan_Set_Param(zoltan, arg0.c_str(), arg1.c_str())"], ~A("has(reserved_options, arg0)"), "the option is given to Zoltan unless reserved")
    v = view(prog, D, "get_partitioning_options", 1)
    spec(rep, v, "levels", ["$v.push_back(each(partitioning_options[arg0]).first)", "$v.insert(each(partitioning_options[arg0]).first)", "$v.emplace_back(each(partitioning_options[arg0]).first)"], ok0,
         "all options of a level that exists are returned", ["partitioning_options[arg0]"], sub=fix)
    v = view(prog, D, "get_partitioning_option_value", 2)
    from .c23 import outcomes
    has = A("has(partitioning_options[arg0], arg1)")
    got = [(x, rename(c, fix), n) for x, c, n in outcomes(v, True)]
    c = OR(*[c for x, c, n in got if x == "partitioning_options[arg0][arg1]"] or [~TRUE])
    rep.saw(v)
    ce = implies(AND(ok0, has), c) or implies(c, AND(ok0, has))
    rep.check(ce is None, "levels", "get_partitioning_option_value: the value is returned exactly if level and option exist", "%s:%d" % (v.func.file, v.func.line), "differs when %s" % (show(ce) if ce else ""))
    # what Zoltan asks for
    asize = "arg0.processes_per_part.size()"
    ok1 = AND(~F("atom", cmp_key("<", "arg1", "0")), F("atom", cmp_key("<", "arg1", asize)))
    fix1 = lambda t: t.replace("arg0.partitioning_options.size()", asize)
    v = view(prog, D, "get_number_of_load_balancing_hierarchies", 2)
    rep.saw(v)
    vals = [fix1(x) for x, c, n in outcomes(v, True)]
    rep.check(vals == [asize], "callbacks", "get_number_of_load_balancing_hierarchies: the number of levels", "%s:%d" % (v.func.file, v.func.line), "returns %s" % vals)
    v = view(prog, D, "set_partitioning_options", 4)
    E = "each(arg0.partitioning_options[arg1])"
    spec(rep, v, "callbacks", ["Zoltan_Set_Param(arg2, %s.first.c_str(), %s.second.c_str())" % (E, E)], AND(ok1, ~eqf("arg2", "nil()")),
         "every option of the level is given to Zoltan's instance for that level", ["arg0.partitioning_options[arg1]"], sub=fix1)
    v = view(prog, D, "get_part_number", 3)
    rep.saw(v)
    out = [(x, rename(c, fix1), n) for x, c, n in outcomes(v, True)]
    bad = OR(*[c for x, c, n in out if x == "-1"] or [~TRUE])
    ce = implies(bad, ~ok1) or implies(~ok1, bad)
    rep.check(ce is None, "callbacks", "get_part_number: refused exactly for levels that don't exist", "%s:%d" % (v.func.file, v.func.line), "differs when %s" % (show(ce) if ce else ""))
    # what dccrg relies on is reserved
    v = view(prog, D, "initialize_zoltan", 0)
    rep.saw(v)
    own = {}
    for n, b in v.find("Zoltan_Set_Param(zoltan, $k, $v)"):
        own[b["k"].strip("'")] = n
    res = set()
    for n in v.nodes:
        if n.kind == "eff" and v.txt[n.id].startswith(("reserved_options.", "reserved_options =")):
            res |= set(re.findall(r"'(\w+)'", v.txt[n.id]))
    for k in ("EDGE_WEIGHT_DIM", "NUM_GID_ENTRIES", "NUM_LID_ENTRIES", "OBJ_WEIGHT_DIM", "RETURN_LISTS"):
        rep.check(k in own, "reserved", "initialize_zoltan sets %s" % k, "%s:%d" % (v.func.file, v.func.line), "not set")
        rep.check(k in res, "reserved", "%s which dccrg relies on can't be changed by the user" % k, own[k].where() if k in own else "%s:%d" % (v.func.file, v.func.line), "not among the reserved options")
    for k in ("AUTO_MIGRATE", "NUM_GLOBAL_PARTS", "NUM_LOCAL_PARTS"):
        rep.check(k in res, "reserved", "%s which dccrg relies on can't be changed by the user" % k, "%s:%d" % (v.func.file, v.func.line), "not among the reserved options")


def run(rep, prog, tier):
    refusals(rep, prog)
    partition(rep, prog)
    accepts(rep, prog)


def dimtext(t):
    t = re.sub(r"\beach\((arg0\.coordinates|arg0\.level_0_cell_length)\)", r"\1[DIM]", t)
    t = re.sub(r"\beach\(0\.\.(3|(?:arg0\.|parameters\.)?(?:coordinates|level_0_cell_length)\.size\(\)|length\.get\(\)\.size\(\))\)", "DIM", t)
    c = r"arg0\.coordinates\[DIM\]"
    n = r"%s\.size\(\)" % c
    t = re.sub(r"^\(%s\[each\(0\.\.\(%s - 1\)\)\] < %s\[\(each\(0\.\.\(%s - 1\)\) \+ 1\)\]\)$" % (c, n, c, n), "INCREASING", t)
    t = re.sub(r"^\(%s\[\(each\(1\.\.%s\) - 1\)\] < %s\[each\(1\.\.%s\)\]\)$" % (c, n, c, n), "INCREASING", t)
    t = re.sub(r"\(1 \+ length\.get\(\)\[DIM\]\)", "(length.get()[DIM] + 1)", t)
    return t


def refuses(rep, prog, cls, f, want, what):
    v = View(prog, f)
    rep.saw(v)
    ends = [n for n in v.nodes if n.kind == "ret" and v.txt[n.id] == "return false" and n.frame is v.L.frame]
    c = OR(*[rename(v.cond(n), dimtext) for n in ends] or [~TRUE])
    where = ends[0].where() if ends else "%s:%d" % (v.func.file, v.func.line)
    three = OR(*[rename(want, lambda t, d=d: t.replace("DIM", str(d))) for d in range(3)])
    first = None
    for w in (want, three):
        ce = implies(w, c)
        if ce is not None:
            first = first or "accepted when %s" % show(ce)
            continue
        ce = implies(c, w)
        if ce is None:
            first = None
            break
        first = first or "refused also when %s" % show(ce)
    rep.check(first is None, "accepts", "%s::set refuses exactly %s" % (cls, what), where, first or "")


def accepts(rep, prog):
    less = lambda a, b: F("atom", cmp_key("<", a, b))
    for f in prog.find("Cartesian_Geometry", "set"):
        if f.body is not None and "_Parameters" in f.sig:
            refuses(rep, prog, "Cartesian_Geometry", f, ~less("0", "arg0.level_0_cell_length[DIM]"), "lengths of cells that aren't positive")
    for f in prog.find("Stretched_Cartesian_Geometry", "set"):
        if f.body is not None and "_Parameters" in f.sig:
            size = "arg0.coordinates[DIM].size()"
            refuses(rep, prog, "Stretched_Cartesian_Geometry", f,
                    OR(less(size, "2"), ~eqf("(length.get()[DIM] + 1)", size), ~A("INCREASING")), "coordinates that aren't increasing or not as many as cells require")
    v = view(prog, "Grid_Topology", "set_periodicity", 2)
    rep.saw(v)
    ok = ~less("2", "arg0")
    same = lambda t: t.replace("(arg0 < 3)", "X")
    three = lambda t: {"(arg0 < 3)": "(2 < arg0)"}.get(t, t)

    def norm(f):
        if f.k == "atom":
            return ~less("2", "arg0") if f.a[0] in ("(arg0 < 3)", "(arg0 < periodic.size())") else f
        return f if f.k == "b" else F(f.k, *[norm(x) for x in f.a])
    ws = v.find(["periodic[arg0] = arg1"])
    c = norm(OR(*[v.cond(n) for n, _ in ws] or [~TRUE]))
    ce = implies(ok, c) or implies(c, ok)
    rep.check(ce is None, "accepts", "Grid_Topology::set_periodicity sets the given dimension exactly if it exists", "%s:%d" % (v.func.file, v.func.line), "differs when %s" % (show(ce) if ce else ""))
    c = norm(ret_formula(v, True))
    ce = implies(ok, c) or implies(c, ok)
    rep.check(ce is None, "accepts", "Grid_Topology::set_periodicity reports dimensions that don't exist", "%s:%d" % (v.func.file, v.func.line), "differs when %s" % (show(ce) if ce else ""))
    v = view(prog, "Dccrg", "set_periodic", 3)
    rep.saw(v)
    for d in range(3):
        ws = v.find(["topology_rw.set_periodicity(%d, arg%d)" % (d, d)])
        rep.check(bool(ws), "accepts", "set_periodic sets dimension %d to what is given for it" % d, "%s:%d" % (v.func.file, v.func.line), "not set")
