"""Adding and removing neighborhoods.  Decided on the control-flow graph: what
add_neighborhood accepts, what it derives, that nothing changes when it refuses,
and that remove_neighborhood forgets every container that holds something of the
neighborhood; queries given an unknown neighborhood change nothing and fail."""
from .common import *

MIN_OBLIGATIONS = 60
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["offsets are compared as add_neighborhood documents"]
DEF = "dccrg::default_neighborhood_id"


def keyed(prog):
    """members of the grid that are maps from neighborhood id: those indexed by
    the id somewhere below add_neighborhood"""
    rec = prog.record("Dccrg")
    maps = {x["n"] for x in rec["fields"] if re.match(r"^std::(unordered_)?map<int,", prog.types[x["t"]])}
    out = set()
    for f in prog.funcs:
        if not (f.cls or "").endswith("Dccrg"):
            continue
        ids = [i for i, p in enumerate(f.params) if p["n"] == "neighborhood_id"]
        if not ids or f.body is None:
            continue
        v = view(prog, "Dccrg", f.name, len(f.params))
        for n in v.nodes:
            for m in re.finditer(r"\b([a-z_]\w*)(?:\[|\.at\(|\.\[\]\()arg(\d)\b", v.txt.get(n.id, "")):
                if m.group(1) in maps and int(m.group(2)) in ids:
                    out.add(m.group(1))
    return out


def add(rep, prog, fields):
    v = view(prog, "Dccrg", "add_neighborhood", 2)
    rep.saw(v)
    where = "%s:%d" % (v.func.file, v.func.line)
    e = "each(arg1)"
    long_ = F("atom", cmp_key("<", "0", "neighborhood_length"))
    base = ~eqf("arg0", DEF) & ~A("has(user_hood_of, arg0)")
    toolong = EX(["arg1", "0..3"], F("atom", cmp_key("<", "neighborhood_length", "abs(%s[each(0..3)])" % e)))
    zero = EX("arg1", eqf("%s[0]" % e, "0") & eqf("%s[1]" % e, "0") & eqf("%s[2]" % e, "0"))
    zero2 = EX("arg1", ~EX("0..3", ~eqf("%s[each(0..3)]" % e, "0")))
    got = ret_formula(v)
    asmL = lambda t: True if t == cmp_key("<", "0", "neighborhood_length") else None
    g = simplify(got, asmL)
    longer = F("atom", cmp_key("<", "neighborhood_length", "abs(%s[each(0..3)])" % e))

    def none_long(f):
        """f if no offset is too long"""
        if f.k == "atom":
            if f.a[0] == longer.a[0]:
                return FALSE
            if f.a[0] in EXISTS:
                els, body = EXISTS[f.a[0]]
                nb = none_long(body)
                if str(nb) == str(body):
                    return f
                return FALSE if satisfiable(nb) is None else exists_atom([x[5:-1] for x in els], nb)
            return f
        if f.k == "b":
            return f
        x = [none_long(y) for y in f.a]
        return ~x[0] if f.k == "not" else AND(*x) if f.k == "and" else OR(*x)
    c1 = implies(g, simplify(base & ~toolong, asmL))
    rep.check(c1 is None, "accept", "add_neighborhood: accepts only new ids with offsets inside of the default neighborhood", where, "accepted when %s" % (show(c1) if c1 is not None else ""))
    g = simplify(none_long(g), asmL)
    ok = False
    why = ""
    for z in (zero, zero2):
        want = simplify(base & ~z, asmL)
        c1, c2 = implies(want, g), implies(g, want)
        ok = ok or (c1 is None and c2 is None)
        why = why or ("refused when %s" % show(c1) if c1 is not None else "accepted when %s" % show(c2) if c2 is not None else "")
    rep.check(ok, "accept", "add_neighborhood: of those, all are accepted that do not include the cell itself", where, why)
    asm0 = lambda t: False if t == cmp_key("<", "0", "neighborhood_length") else True if t == cmp_key("==", "0", "neighborhood_length") else None
    g = simplify(got, asm0)
    want = simplify(base & ~EX(["arg1", "0..3"], F("atom", cmp_key("<", "1", "abs(%s[each(0..3)])" % e))), asm0)
    ce = implies(g, want)
    rep.check(ce is None, "accept", "add_neighborhood: without neighborhood length only offsets of one cell are accepted", where, "accepted when %s" % (show(ce) if ce is not None else ""))
    cnt = [n for n in v.nodes if n.kind == "eff" and re.match(r"^%[\w.#]+ \+= 1$", v.txt[n.id]) and "0..3" in v.loops(n) and "arg1" in v.loops(n)]
    for n in cnt:
        c = simplify(v.cond(n), asm0)
        is0 = eqf("%s[each(0..3)]" % e, "0")
        k = v.txt[n.id].split(" ")[0]
        n0 = implies(c, is0) is None
        n1 = implies(c, ~is0) is None
        lim = "2" if n0 else "1"
        rep.check((n0 or n1) and any(cmp_key("==", k, lim) in str(simplify(v.cond(m), asm0)) for m in v.nodes if m.kind == "ret"),
                  "accept", "add_neighborhood: without neighborhood length only offsets to face neighbors are accepted", n.where(), "compared otherwise")
    acc = got
    U = lambda pats, what, loops: spec(rep, v, "add", pats, acc, what, loops, exits=False)
    U(["user_hood_of[arg0] = arg1", "user_hood_of.emplace(arg0, arg1)", "user_hood_of.insert(std::make_pair(arg0, arg1))"], "the offsets are recorded", [])
    to = v.find("user_hood_to[arg0].push_back({-%s[0], -%s[1], -%s[2]})" % (e, e, e))
    if to:
        U("user_hood_to[arg0].push_back({-%s[0], -%s[1], -%s[2]})" % (e, e, e), "opposite offsets are recorded", ["arg1"])
    steps = [("update_user_neighbors(%s, arg0)" % CP, ["cell_process"], "neighbors of all cells are found"),
             ("update_user_remote_neighbor_info(arg0)", [], "cells on process boundaries are found"),
             ("recalculate_neighbor_update_send_receive_lists(arg0)", [], "cells to transfer are found"),
             ("update_cell_pointers_user(arg0)", [], "iteration over the cells is possible")]
    prev = v.find("user_hood_of[arg0] = arg1") and [v.find("user_hood_of[arg0] = arg1")[0][0]]
    for pat, lp, w in steps:
        alts = [lp, ["cell_data"]] if lp else lp
        pats = [pat] if lp == [] else [pat, pat.replace(CP, CD)]
        ms = spec(rep, v, "add", pats, acc, w, alts if lp else [], exits=False)
        if ms and prev:
            rep.not_after(v, "add", prev, ms, "%s after what it depends on" % w)
        prev = ms or prev
    al = spec(rep, v, "add", ["allocate_copies_of_remote_neighbors($x)"], acc, "storage for copies of remote neighbors exists", [], exits=False)
    # nothing changes when refused
    bad = []
    for n in v.nodes:
        if n.kind == "eff" and n not in bad and not re.match(r"^(let )?%|^Error", v.txt[n.id]):
            if any(n in v.writes(f) for f in fields) and implies(v.cond(n), acc) is not None:
                bad.append(n)
    rep.check(not bad, "refuse", "add_neighborhood: nothing changes when refused", bad[0].where() if bad else where, "%s also when refused" % (v.txt[bad[0].id] if bad else ""))


def remove(rep, prog, fields):
    v = view(prog, "Dccrg", "remove_neighborhood", 1)
    user = ~eqf("arg0", DEF)
    for f in sorted(fields):
        spec(rep, v, "remove", ["%s.erase(arg0)" % f], user, "%s forgets the neighborhood" % f, [],
             assume=lambda t: True if t in ["has(%s, arg0)" % g for g in fields] else None)
    bad = []
    rec = prog.record("Dccrg")
    for x in rec["fields"]:
        for n in v.writes(x["n"]):
            if v.txt[n.id] != "%s.erase(arg0)" % x["n"] and n.kind == "eff" and not v.txt[n.id].startswith("update_cell_pointers"):
                bad.append(n)
    rep.check(not bad, "remove", "remove_neighborhood: nothing else changes", bad[0].where() if bad else v.nodes[0].where(), "also %s" % (v.txt[bad[0].id] if bad else ""))


def unknown(rep, prog, fields):
    """given a neighborhood that does not exist, public functions fail without
    changing anything"""
    rec = prog.record("Dccrg")
    fs = [x["n"] for x in rec["fields"]]
    seen = set()
    takers = {f.name for f in prog.funcs if (f.cls or "").endswith("Dccrg") and f.d.get("acc") == "public" and any(p["n"] == "neighborhood_id" for p in f.params)}
    for f in prog.funcs:
        if not (f.cls or "").endswith("Dccrg") or f.d.get("acc") != "public" or f.body is None or f.name in ("add_neighborhood", "remove_neighborhood"):
            continue
        ids = [i for i, p in enumerate(f.params) if p["n"] == "neighborhood_id"]
        if not ids or (f.name, len(f.params)) in seen:
            continue
        seen.add((f.name, len(f.params)))
        a = "arg%d" % ids[0]
        v = view(prog, "Dccrg", f.name, len(f.params))
        rep.saw(v)

        def asm(t):
            if t == cmp_key("==", a, DEF):
                return False
            m = re.match(r"^has\((\w+), %s\)$" % a, t)
            if m and m.group(1) in fields:
                return False
            m = re.match(r"^(\w+)\((?:.*, )?%s\)$" % a, t)
            if m and m.group(1) in takers:
                return False       # decided for that function
            return None
        look = re.compile(r"\b(%s)\[%s\]" % ("|".join(sorted(fields)), a))

        def live(n):
            # looking up an id that does not exist throws
            return satisfiable(simplify(v.cond(n), asm)) is not None and not any(look.search(l) for l in v.loops(n))
        ch = [n for g in fs for n in v.writes(g) if n.kind == "eff" and live(n)]
        ch = [n for n in ch if not re.match(r"^(let )?%", v.txt[n.id]) and not any(re.search(r"\b%s\(" % t, v.txt[n.id]) for t in takers)]
        ch = [n for n in ch if not look.search(v.txt[n.id]) or re.search(r"\.\[\]\(%s\)" % a, v.txt[n.id])]
        rep.check(not ch, "unknown", "%s: nothing changes for a neighborhood that does not exist" % f.name, ch[0].where() if ch else "%s:%d" % (f.file, f.line), "%s" % (v.txt.get(ch[0].id, "") if ch else ""))
        if f.rt.rstrip().endswith("*"):
            rs = [n for n in v.nodes if n.kind == "ret" and n.frame is v.L.frame and live(n) and v.txt[n.id] != "return nil()"]
            rep.check(not rs, "unknown", "%s: gives nothing for a neighborhood that does not exist" % f.name, rs[0].where() if rs else "%s:%d" % (f.file, f.line), v.txt[rs[0].id] if rs else "")
        if f.rt == "bool":
            g = simplify(ret_formula(v), asm)
            ce = satisfiable(g)
            rep.check(ce is None, "unknown", "%s: fails for a neighborhood that does not exist" % f.name, "%s:%d" % (f.file, f.line), "succeeds when %s" % (show(ce) if ce is not None else ""))


def run(rep, prog, tier):
    fields = keyed(prog)
    rep.check(len(fields) >= 8, "fields", "members holding something of a neighborhood: %s" % ", ".join(sorted(fields)), "dccrg.hpp", "found only these")
    add(rep, prog, fields)
    remove(rep, prog, fields)
    unknown(rep, prog, fields)
