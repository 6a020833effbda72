"""What is given to MPI is what is meant.  Decided on the type-checked syntax
tree: the element type behind every buffer given to MPI must be that of the
datatype, counts of scalars, fixed-size arrays and whole containers must fit the
buffer, both sides of a collective must agree; transfer information of basic
types must name the datatype of the type; and the helpers that gather and reduce
must do so for all processes given, completing every request."""
from .common import *
import facts

MIN_OBLIGATIONS = 60
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
ASSUMPTIONS = ["buffers of user data are described by get_mpi_datatype (C05, C07)"]

CT = {"char": {"char", "signed char"}, "signed_char": {"signed char", "char"}, "unsigned_char": {"unsigned char"}, "uint8_t": {"unsigned char"}, "int8_t": {"signed char"},
      "short": {"short"}, "unsigned_short": {"unsigned short"}, "int": {"int"}, "int32_t": {"int"}, "unsigned": {"unsigned int"}, "uint32_t": {"unsigned int"},
      "long": {"long", "long long"}, "int64_t": {"long", "long long"}, "unsigned_long": {"unsigned long", "unsigned long long"}, "uint64_t": {"unsigned long", "unsigned long long"},
      "long_long_int": {"long", "long long"}, "long_long": {"long", "long long"}, "unsigned_long_long": {"unsigned long", "unsigned long long"},
      "float": {"float"}, "double": {"double"}, "long_double": {"long double"}, "wchar": {"wchar_t"}, "cxx_bool": {"bool"},
      "cxx_cplex": {"std::complex<float>"}, "cxx_dblcplex": {"std::complex<double>"}, "cxx_ldblcplex": {"std::complex<long double>"}, "offset": {"long", "long long"}}

# position of (buffer, count, datatype) in calls
ARGS = {"MPI_Send": [(0, 1, 2)], "MPI_Isend": [(0, 1, 2)], "MPI_Issend": [(0, 1, 2)], "MPI_Ssend": [(0, 1, 2)], "MPI_Recv": [(0, 1, 2)], "MPI_Irecv": [(0, 1, 2)], "MPI_Bcast": [(0, 1, 2)],
        "MPI_Allreduce": [(0, 2, 3), (1, 2, 3)], "MPI_Reduce": [(0, 2, 3), (1, 2, 3)], "MPI_Allgather": [(0, 1, 2), (3, None, 5)], "MPI_Gather": [(0, 1, 2), (3, None, 5)],
        "MPI_Allgatherv": [(0, 1, 2), (3, None, 6)], "MPI_Gatherv": [(0, 1, 2), (3, None, 6)]}
for _n in ("read", "write"):
    for _a in ("_at", "_at_all", "_at_all_begin"):
        ARGS["MPI_File_%s%s" % (_n, _a)] = [(2, 3, 4)]
    for _a in ("", "_all"):
        ARGS["MPI_File_%s%s" % (_n, _a)] = [(1, 2, 3)]
BOTH = {"MPI_Allgather": (2, 5), "MPI_Gather": (2, 5), "MPI_Allgatherv": (2, 6), "MPI_Gatherv": (2, 6)}


def strip(x):
    while x.get("k") in ("cast", "paren") and isinstance(x.get("a"), list) and len(x["a"]) == 1:
        x = x["a"][0]
    return x


def dtype(x):
    for y in facts.walk(x):
        if y.get("k") == "var" and str(y.get("n", "")).startswith("ompi_mpi_"):
            return y["n"][9:]
    return None


def ty(prog, x):
    return re.sub(r"\b(const|volatile)\b", "", prog.types[x["t"]]).strip() if "t" in x else ""


def pointee(prog, x):
    """element type behind a buffer argument"""
    x = strip(x)
    t = ty(prog, x)
    m = re.match(r"^(.*?)\s*\*(?:\s*const)?$", t)
    if m:
        return m.group(1).strip()
    m = re.match(r"^(.*?)\s*\[\d+\]$", t)
    return m.group(1).strip() if m else None


def extent(prog, x):
    """number of elements behind a buffer, when the type says so"""
    x = strip(x)
    if x.get("k") == "un" and x.get("o") == "&":
        y = strip(x["a"][0])
        if y.get("k") in ("var", "mem"):
            return 1
    if x.get("k") in ("call", "mcall") and str(x.get("n", "")).split("::")[-1] == "data":
        b = x.get("b") or (x.get("a") or [None])[0]
        m = b and re.search(r"std::array<.*, (\d+)>", ty(prog, strip(b)))
        if m:
            return int(m.group(1))
    return None


def const(x):
    x = strip(x)
    return int(x["v"]) if x.get("k") == "int" else None


def run(rep, prog, tier):
    for f in prog.funcs:
        if f.body is None or not f.file.endswith(".hpp"):
            continue
        saw = False
        for x in facts.walk(f.body):
            n = str(x.get("n", ""))
            if x.get("k") != "call" or n not in ARGS:
                continue
            saw = True
            where = "%s:%d" % (f.file, x["l"])
            for b, c, t in ARGS[n]:
                d = dtype(x["a"][t])
                e = pointee(prog, x["a"][b])
                if d is None or e is None or e == "void":
                    continue
                who = "%s in %s" % (n, f.name)
                if d in ("byte", "packed"):
                    if c is None:
                        continue
                    s = [y for y in facts.walk(x["a"][c]) if y.get("k") == "sizeof"]
                    if s and isinstance(s[0].get("v"), int):
                        rep.check(re.sub(r"\bconst\b", "", prog.types[s[0]["v"]]).strip() == e, "type", "%s: bytes of %s are transferred" % (who, e), where, "size is that of %s" % prog.types[s[0]["v"]])
                    continue
                if d not in CT:
                    continue
                rep.check(e in CT[d], "type", "%s: buffer of %s is described as %s" % (who, e, d), where, "buffer has elements of type %s" % e)
                if c is not None:
                    ex, k = extent(prog, x["a"][b]), const(x["a"][c])
                    if ex is not None and k is not None:
                        rep.check(ex == k, "count", "%s: %d elements are transferred" % (who, ex), where, "count is %d" % k)
            if n in BOTH:
                a, b = (dtype(x["a"][i]) for i in BOTH[n])
                if a and b:
                    rep.check(a == b, "type", "%s in %s: sent and received as the same type" % (n, f.name), where, "%s and %s" % (a, b))
        if saw:
            rep.saw(View(prog, f))
    helpers(rep, prog)


def datafind(v, pat):
    """like View.find, with the address of the first element as .data()"""
    out = []
    for n in v.nodes:
        if n.kind == "eff":
            b = match(pat, re.sub(r"&(%?[\w.#]+)\[0\]", r"\1.data()", v.txt[n.id]))
            if b is not None:
                out.append((n, b))
    return out


def helpers(rep, prog):
    f = prog.find("All_Reduce", "operator()")
    if f:
        v = View(prog, f[0])
        ms = v.find("MPI_Allreduce(&arg0, &$r, 1, $t, &ompi_mpi_op_sum, arg1)")
        rs = [v.txt[n.id] for n in v.nodes if n.kind == "ret"]
        rep.check(len(ms) == 1 and implies(TRUE, v.cond(ms[0][0])) is None and rs == ["return " + ms[0][1]["r"]], "reduce", "All_Reduce: gives the sum over all processes", "%s:%d" % (v.func.file, v.func.line), "returns %s" % rs)
    f = prog.find("Some_Reduce", "operator()")
    if f:
        v = View(prog, f[0])
        rep.saw(v)
        nb = "each(arg1)"
        rc = v.find("MPI_Irecv(&$b, $c, $t, %s, $tag, arg2, &$q)" % nb)
        sd = v.find("MPI_Isend(&arg0, $c, $t, %s, $tag, arg2, &$q)" % nb)
        for what, ms in (("received from", rc), ("sent to", sd)):
            rep.check(len(ms) == 1 and v.loops(ms[0][0]) == ["arg1"] and implies(TRUE, v.cond(ms[0][0])) is None, "reduce", "Some_Reduce: a value is %s every given process" % what, "%s:%d" % (v.func.file, v.func.line), "not so")
        if len(rc) == 1 and len(sd) == 1:
            rep.check(rc[0][1]["tag"] == sd[0][1]["tag"], "reduce", "Some_Reduce: messages match", sd[0][0].where(), "tags are %s and %s" % (rc[0][1]["tag"], sd[0][1]["tag"]))
            ws = [n for n, _ in v.find("MPI_Wait(&%s, $s)" % rc[0][1]["q"])]
            src, lp = rc[0][1]["b"], ["arg1"]
            if "[%s]" % nb in src and not v.find("$r += %s" % src):
                box, _, rest = src.partition("[%s]" % nb)
                src, lp = "each(%s).second%s" % (box, rest), [box]
            ad = [n for n, _ in v.find("$r += %s" % src)]
            rets = [n for n in v.nodes if n.kind == "ret"]
            okw = ws and v.loops(ws[0]) == ["arg1"] and implies(TRUE, v.cond(ws[0])) is None
            rep.check(okw, "reduce", "Some_Reduce: every receive is completed", "%s:%d" % (v.func.file, v.func.line), "not so")
            ws2 = [n for n, _ in v.find("MPI_Wait(&%s, $s)" % sd[0][1]["q"])]
            rep.check(ws2 and v.loops(ws2[0]) == ["arg1"] and implies(TRUE, v.cond(ws2[0])) is None, "reduce", "Some_Reduce: every send is completed", "%s:%d" % (v.func.file, v.func.line), "not so")
            rep.check(len(ad) == 1 and v.loops(ad[0]) == lp and implies(TRUE, v.cond(ad[0])) is None, "reduce", "Some_Reduce: every received value is added", "%s:%d" % (v.func.file, v.func.line), "not so")
            if ad and okw:
                r = v.txt[ad[0].id].split(" += ")[0]
                init = [b["x"] for n, b in v.find("let %s = $x" % r)]
                rep.check(init == ["arg0"] and [v.txt[n.id] for n in rets] == ["return " + r], "reduce", "Some_Reduce: own value is included in the result", ad[0].where(), "starts from %s" % init)
                rep.not_after(v, "reduce", ws, ad, "received values are used after they have arrived")
    f = prog.find("All_Gather", "operator()")
    if f:
        v = View(prog, f[0])
        rep.saw(v)
        g = datafind(v, "MPI_Allgather(&$n, 1, $t, $c.data(), 1, $t, arg2)")
        gv = datafind(v, "MPI_Allgatherv($a, arg0.size(), $t, $r.data(), $c.data(), $d.data(), $t, arg2)") or datafind(v, "MPI_Allgatherv($a, $n, $t, $r.data(), $c.data(), $d.data(), $t, arg2)")
        where = "%s:%d" % (v.func.file, v.func.line)
        rep.check(len(gv) == 1, "gather", "All_Gather: all values of this process are given to all", where, "no such call")
        if g and gv:
            n, c = g[0][1]["n"], g[0][1]["c"]
            st = [b["x"] for m, b in v.find(["%s = $x" % n, "let %s = $x" % n]) if b["x"] != "0"]
            rep.check(st == ["arg0.size()"], "gather", "All_Gather: the number of values of this process is given to all", g[0][0].where(), "given: %s" % st)
            rep.check(gv[0][1]["c"] == c, "gather", "All_Gather: as many values are received as announced", gv[0][0].where(), "counts are %s" % gv[0][1]["c"])
            d, r = gv[0][1]["d"], gv[0][1]["r"]
            i = "each(1..%s.size())" % c
            seen = [m for m in v.nodes if m.kind == "eff" and v.txt[m.id].startswith(d + "[")]
            if any(i in v.txt[m.id] for m in seen):
                ok = any(set(re.findall(r"%[\w.#]+\[[^]]*\]", v.txt[m.id].split("= ", 1)[1])) == {"%s[(%s - 1)]" % (d, i), "%s[(%s - 1)]" % (c, i)} and "-" not in re.sub(r" - 1\)", "", v.txt[m.id].split("= ", 1)[1]) and implies(TRUE, v.cond(m)) is None for m in seen)
                rep.check(ok, "gather", "All_Gather: values of a process start where those of the previous one end", seen[0].where(), "%s" % [v.txt[m.id] for m in seen])
            out = v.find("arg1[$p][$i] = %s[$k]" % r)
            for m, b in out[:1]:
                p, j, k = b["p"], b["i"], b["k"]
                cnt = "%s[%s]" % (c, p)
                rep.check(v.loops(m) == [p[5:-1], "0..%s" % cnt] and j == "each(0..%s)" % cnt and implies(TRUE, v.cond(m)) is None, "gather", "All_Gather: every value received is given, under the process it came from", m.where(), "%s in %s" % (v.txt[m.id], v.loops(m)))
                if re.match(r"^%[\w.#]+$", k):
                    inc = [x for x in v.nodes if x.kind == "eff" and re.match(r"^%s \S?= " % re.escape(k), v.txt[x.id])]
                    rep.check(len(inc) == 1 and v.txt[inc[0].id] == k + " += 1" and v.loops(inc[0]) == v.loops(m), "gather", "All_Gather: values are taken in order", m.where(), "position changes by %s" % [v.txt[x.id] for x in inc])
            cl = [x for x, _ in v.find(["arg1.clear()", "arg1.assign($x)", "arg1 = $x", "arg1.swap($x)"])]
            ok = (cl and any(implies(TRUE, v.cond(x)) is None for x in cl)) or (v.find("arg1.resize($x)") and any(implies(TRUE, v.cond(x)) is None for x, _ in v.find("arg1.resize($x)")) and (v.find("arg1[$p].resize($x)") or v.find("arg1[$p].assign($x)"))) or v.find("arg1[$p].assign($x)") and cl
            rep.check(bool(ok), "gather", "All_Gather: earlier contents of the result do not remain", where, "they may")
    basic(rep)


def basic(rep):
    """transfer information of basic types"""
    p = facts.load("api.cpp", ("KIND=3", "DCCRG_USER_COMPLEX"))
    if p.errors:
        raise facts.AnalysisBroken("the tree does not compile: %s" % p.errors[:1])
    for f in p.funcs:
        if f.name != "get_mpi_datatype_basic" or f.body is None:
            continue
        t = re.sub(r"\s*&$", "", p.types[f.params[0]["t"]]).strip()
        m = re.match(r"^std::array<(.*), (\d+)>$", t)
        e = m.group(1) if m else t
        v = View(p, f)
        rs = [v.txt[n.id] for n in v.nodes if n.kind == "ret"]
        d = dtype(f.body)
        where = "%s:%d" % (f.file, f.line)
        rep.check(d in CT and e in CT[d], "basic", "%s is transferred as such" % t, where, "datatype is %s" % d)
        if m:
            ok = len(rs) == 1 and re.match(r"^return .*\((?:&arg0\[0\]|arg0\.data\(\)), (arg0\.size\(\)|%s), " % m.group(2), rs[0])
        else:
            ok = len(rs) == 1 and re.match(r"^return .*\(&arg0, 1, ", rs[0])
        rep.check(bool(ok), "basic", "%s: whole value is transferred" % t, where, "returns %s" % rs)
