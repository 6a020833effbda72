"""Which values are the same on every process: flow-sensitive reaching
definitions plus control dependence (SPMD uniformity analysis)."""
import re
import ir
from ir import pr, root, truth
from rules import View, fml, simplify, AND

# members of the grid that every process must hold identically
REPLICATED = {
    "cell_process": "owner of every cell",
    "comm": "communicator", "comm_size": "number of processes", "max_tag": "largest message tag",
    "mapping_rw": "cell numbering", "topology_rw": "periodicity", "geometry_rw": "geometry",
    "mapping": "", "topology": "", "geometry": "", "length": "",
    "neighborhood_length": "size of default neighborhood",
    "neighborhood_of": "default neighborhood", "neighborhood_to": "default neighborhood",
    "user_hood_of": "user neighborhoods", "user_hood_to": "user neighborhoods",
    "pin_requests": "pinned cells of all processes",
    "load_balancing_method": "", "partitioning_options": "", "processes_per_part": "",
    "no_load_balancing": "", "max_ref_lvl_diff": "", "balancing_load": "", "grid_initialized": "", "initialized": "",
    "send_single_cells": "transfer mode", "reserved_options": "", "grid_data_file": "file being loaded", "zoltan": "existence of the partitioner",
}
# only these are reported on by C03: knowledge about cells and neighborhoods
KNOWLEDGE = ["cell_process", "mapping_rw", "topology_rw", "geometry_rw", "neighborhood_length", "neighborhood_of", "neighborhood_to",
             "user_hood_of", "user_hood_to", "pin_requests"]

COLLECTIVE = re.compile(r"^(MPI_(I?(Allreduce|Allgatherv?|Bcast|Barrier|Alltoallv?|Reduce|Gatherv?|Scatterv?|Scan|Exscan)|"
                        r"File_(open|close|set_view|set_size|write_at_all|read_at_all|write_all|read_all|sync|preallocate)|"
                        r"Comm_(dup|split|create|free))|Zoltan_(LB_Balance|LB_Partition|Create|Copy))$")
# output parameters of collectives that are equal everywhere: name -> argument indices
UNIFORM_OUT = {"MPI_Allreduce": [1], "MPI_Bcast": [0], "MPI_Allgather": [3], "MPI_Allgatherv": [3], "MPI_Comm_dup": [1],
               "MPI_Comm_size": [1], "MPI_File_open": [4], "MPI_Comm_get_attr": [2, 3], "MPI_Comm_split": []}
# reads of a file give what the arguments select
FILE_READ = {"MPI_File_read_at_all": 2, "MPI_File_read_at": 2}
# arguments of collectives that must agree
UNIFORM_ARGS = {"MPI_Allreduce": [2, 3, 4, 5], "MPI_Bcast": [1, 2, 3, 4], "MPI_Allgather": [1, 2, 4, 5, 6], "MPI_Allgatherv": [4, 5, 6, 7],
                "MPI_File_open": [0, 2], "MPI_Comm_dup": [0]}


def short(name):
    return name.split("<")[0].rsplit("::", 1)[-1]


class Uniform:
    def __init__(self, prog):
        self.prog = prog
        self.reads_memo = {}
        self.status_memo = {}
        self.coll_memo = {}

    # -- summaries of functions that are not inlined
    def byname(self, name, nargs=None):
        fs = [f for f in self.prog.funcs if f.name == name and f.body]
        if nargs is not None:
            g = [f for f in fs if len(f.params) >= nargs]
            fs = g or fs
        return fs

    def nonuniform_reads(self, f):
        """fields of the grid that are not replicated and that f may read"""
        if f.id in self.reads_memo:
            return self.reads_memo[f.id]
        self.reads_memo[f.id] = set()
        out = set()
        import facts
        for x in facts.walk(f.body):
            if x.get("k") == "mem" and x["b"].get("k") == "this":
                if f.cls and f.cls.endswith("Dccrg") and x["n"] not in REPLICATED and "call" not in x:
                    out.add(x["n"])
            if x.get("k") in ("call", "op"):
                for g in self.callees(x):
                    if g.id != f.id:
                        out |= self.nonuniform_reads(g)
        self.reads_memo[f.id] = out
        return out

    def collective_fn(self, f):
        """f calls a collective operation"""
        if f.id in self.coll_memo:
            return self.coll_memo[f.id]
        self.coll_memo[f.id] = False
        import facts
        r = False
        for x in facts.walk(f.body):
            if x.get("k") in ("call", "op", "construct", "ctor"):
                nm = x.get("n") or ""
                if COLLECTIVE.match(short(nm)):
                    r = True
                    break
                for g in self.callees(x):
                    if g.id != f.id and self.collective_fn(g):
                        r = True
                        break
                if r:
                    break
        self.coll_memo[f.id] = r
        return r

    def callees(self, x):
        if not hasattr(self, "byid"):
            self.byid = {g.id: g for g in self.prog.funcs if g.body}
        g = self.byid.get(x.get("fid"))
        return [g] if g else []

    def status_fn(self, f):
        """returns false only when a library call failed"""
        if f.id in self.status_memo:
            return self.status_memo[f.id]
        self.status_memo[f.id] = False
        if f.rt in ("bool", "_Bool") and f.body:
            try:
                v = View(self.prog, f)
            except Exception:
                return False
            from rules import ret_formula, satisfiable
            self.status_memo[f.id] = satisfiable(simplify(ret_formula(v, False), v.neutral)) is None
        return self.status_memo[f.id]


class Flow:
    """uniformity of one view"""
    def __init__(self, uni, view, local_args=()):
        """local_args: numbers of arguments that differ between processes"""
        self.local_args = {"arg%d" % i for i in local_args}
        self.u = uni
        self.grid = (view.func.cls or "").split("<")[0].endswith("Dccrg")
        self.v = view
        self.nodes = view.nodes
        self.idx = {n.id: i for i, n in enumerate(self.nodes)}
        self.feasible()
        self.postdom()
        self.collect_defs()
        self.reach()
        self.solve()

    # -- control flow under success of library calls
    def neutral(self, text):
        r = self.v.neutral(text)
        if r is not None:
            return r
        if re.match(r"^\(zoltan == nil\(\)\)$|^\(nil\(\) == zoltan\)$", text):
            return False
        m = re.match(r"^\(0 == (.*\))\)$|^\((.*\)) == 0\)$", text)
        if m:
            r = self.neutral(m.group(1) or m.group(2))
            return None if r is None else not r
        m = re.match(r"^(?:[\w.]+\.)?(\w+)\(", text)
        if m:
            fs = self.u.byname(m.group(1))
            if fs and all(self.u.status_fn(f) for f in fs):
                return True
        return None

    def feasible(self):
        self.succ = []
        for n in self.nodes:
            ss = [(s, l) for s, l in n.succ if l != "exc"]
            if n.kind == "br" and n.eff[1][0] != "each" and len(ss) > 1:
                f = simplify(fml(truth(n.eff[1])), self.neutral)
                if f.k == "b":
                    ss = [(s, l) for s, l in ss if l is None or l == f.a[0]]
            self.succ.append(ss)
        # nodes from which the end can be reached
        pred = [[] for _ in self.nodes]
        for i, ss in enumerate(self.succ):
            for s, l in ss:
                pred[self.idx[s.id]].append(i)
        live = set()
        st = [self.idx[self.v.exit.id]]
        while st:
            i = st.pop()
            if i in live:
                continue
            live.add(i)
            st += pred[i]
        fwd = set()
        st = [self.idx[self.v.entry.id]]
        while st:
            i = st.pop()
            if i in fwd or i not in live:
                continue
            fwd.add(i)
            st += [self.idx[s.id] for s, l in self.succ[i]]
        self.live = fwd
        for i in range(len(self.nodes)):
            self.succ[i] = [(self.idx[s.id], l) for s, l in self.succ[i] if self.idx[s.id] in fwd] if i in fwd else []
        self.pred = [[] for _ in self.nodes]
        for i, ss in enumerate(self.succ):
            for s, l in ss:
                self.pred[s].append(i)

    def postdom(self):
        N = len(self.nodes)
        ex = self.idx[self.v.exit.id]
        # immediate post-dominators (Cooper, Harvey, Kennedy)
        order, seen = [], set()
        st = [(ex, iter(self.pred[ex]))]
        seen.add(ex)
        while st:
            i, it = st[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    st.append((p, iter(self.pred[p])))
                    break
            else:
                order.append(i)
                st.pop()
        num = {n: k for k, n in enumerate(order)}
        ip = {ex: ex}
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                if i == ex:
                    continue
                new = None
                for s, _ in self.succ[i]:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            a, b = s, new
                            while a != b:
                                while num[a] < num[b]:
                                    a = ip[a]
                                while num[b] < num[a]:
                                    b = ip[b]
                            new = a
                if ip.get(i) != new:
                    ip[i] = new
                    ch = True
        self.ipdom = ip

    def region(self, b):
        """nodes whose execution depends on the branch b"""
        stop = self.ipdom.get(b)
        out = set()
        st = [s for s, _ in self.succ[b]]
        while st:
            i = st.pop()
            if i in out or i == stop:
                continue
            out.add(i)
            st += [s for s, _ in self.succ[i]]
        return out

    # -- definitions
    def outs(self, n, e):
        """[(root, uniform whatever goes in, dependencies)] of a call effect"""
        name, base, args = e[1], e[2], e[3]
        sn = short(name)
        res = []
        if sn in ("All_Gather", "All_to_All_Set"):
            if len(args) > 1:
                res.append((root(args[1]), True, ()))
            return res
        if COLLECTIVE.match(name) or name.startswith(("MPI_", "Zoltan_")):
            uo = UNIFORM_OUT.get(name, [])
            for i, a in enumerate(args):
                r = root(a)
                if r[0] not in ("v", ".") or r == ("this",):
                    continue
                writes = a[0] == "addr" or (a[0] == "call" and a[1] in ("data",)) or (a[0] in ("[]",) and False)
                if not writes:
                    continue
                if i in uo:
                    res.append((r, True, ()))
                elif name in FILE_READ:
                    if i == FILE_READ[name]:
                        res.append((r, None, (args[0], args[1], args[3])))
                elif name in ("MPI_File_write_at", "MPI_File_write_at_all", "MPI_Allreduce", "MPI_Allgather", "MPI_Allgatherv", "MPI_Isend", "MPI_Send"):
                    pass
                elif name in ("MPI_Type_size", "MPI_Type_commit", "MPI_Type_free", "MPI_Type_create_struct", "MPI_Type_create_hindexed", "MPI_Type_contiguous",
                              "MPI_File_close"):
                    res.append((r, None, tuple(args)))
                else:
                    res.append((r, False, ()))
            return res
        # calls of program functions that were not inlined
        if base is not None:
            r = root(base)
            if r[0] in ("v", ".") and n.kind != "pcall":
                res.append((r, None, tuple(args)))
        fs = self.u.byname(sn)
        for i, a in enumerate(args):
            r = root(a)
            if r[0] not in ("v", ".") or r == ("this",):
                continue
            for f in fs:
                if i < len(f.params):
                    t = self.u.prog.types[f.params[i]["t"]]
                    if t.endswith("&") and not t.startswith("const"):
                        res.append((r, None, tuple(args)))
                        break
        return res

    def collect_defs(self):
        self.defs = []      # (node index, root, strong, forced, deps)
        self.at = {}

        def add(i, r, strong, forced, deps):
            self.at.setdefault(i, []).append(len(self.defs))
            self.defs.append((i, r, strong, forced, deps))
        for i, n in enumerate(self.nodes):
            e = n.eff
            if e is None or n.kind not in ("eff", "bind", "pcall"):
                continue
            if e[0] == "init":
                add(i, e[1], True, None, (e[2],))
            elif e[0] == "asg":
                r = root(e[2])
                strong = e[2] == r and e[1] == "="
                deps = (e[3],) if strong else (e[3],) + indices(e[2])
                forced = True if uniform_call(e[3]) else None
                add(i, r, strong, forced, deps)
            elif e[0] == "mut":
                r = root(e[2])
                if e[1] == "clear" and e[2] == r:
                    add(i, r, True, None, ())
                else:
                    add(i, r, False, None, tuple(e[3]) + indices(e[2]))
                if e[1] == "swap" and e[3]:
                    add(i, root(e[3][0]), False, None, (e[2],))
            elif e[0] == "call":
                for r, forced, deps in self.outs(n, e):
                    if r[0] != "v" and not (r[0] == "." and r[1] == ("this",)):
                        continue
                    strong = e[1].endswith("All_Gather") or forced is True
                    add(i, r, strong, forced, deps)

        self.merge_points(add)

    def merge_points(self, add):
        """`gather copies of r into G; for all of G: r.insert(element)` makes r
        the union over all processes"""
        gathers = {}
        for n in self.nodes:
            e = n.eff
            if n.kind == "eff" and e is not None and e[0] == "call" and short(e[1]) == "All_Gather":
                gathers.setdefault(e[3][1], []).append(e[3][0])
        for i, n in enumerate(self.nodes):
            e = n.eff
            if n.kind != "eff" or e is None or e[0] != "mut" or e[1] not in ("insert",) or len(e[3]) != 1:
                continue
            r, val = e[2], e[3][0]
            for G, srcs in gathers.items():
                if val[0] != "el" or not subterm(G, val):
                    continue
                if not self.whole(val, G, n):
                    continue
                for src in srcs:
                    sr = root(src)
                    if any(d[1] == sr and any(subterm(r, t) for t in d[4]) for d in self.defs) or sr == r:
                        for l in n.loops:
                            if subterm(G, l.dom) or l.dom == ("range", ("i", 0), (".", ("this",), "comm_size")):
                                add(self.idx[l.loop.node.id], r, True, True, ())
                                break

    def whole(self, val, G, n):
        """the insertion is not conditional inside the loops over G"""
        inner = [l for l in n.loops if subterm(G, l.dom)]
        if not inner:
            return False
        b = self.idx[n.id]
        for g in n.guards:
            if g.kind in ("if", "cont", "brk") and subterm(G, g.cond):
                return False
        return True

    def reach(self):
        """definitions reaching the start of each node (bit masks)"""
        byroot = {}
        for k, d in enumerate(self.defs):
            byroot[d[1]] = byroot.get(d[1], 0) | 1 << k
        N = len(self.nodes)
        roots = sorted(byroot, key=str)
        self.init_bit = {}
        base = len(self.defs)
        start = 0
        for j, r in enumerate(roots):
            self.init_bit[r] = 1 << (base + j)
            byroot[r] |= 1 << (base + j)
            start |= 1 << (base + j)
        self.byroot = byroot
        IN = [0] * N
        OUT = [0] * N
        e = self.idx[self.v.entry.id]
        IN[e] = start

        def flow(i):
            x = IN[i]
            for k in self.at.get(i, ()):
                d = self.defs[k]
                if d[2]:
                    x &= ~byroot[d[1]]
                x |= 1 << k
            return x
        wl = [i for i in range(N) if i in self.live]
        OUT = [None] * N
        st = [e]
        onst = {e}
        while st:
            i = st.pop(0)
            onst.discard(i)
            o = flow(i)
            if o != OUT[i]:
                OUT[i] = o
                for s, _ in self.succ[i]:
                    m = IN[s] | o
                    if m != IN[s] or OUT[s] is None:
                        IN[s] = m
                        if s not in onst:
                            onst.add(s)
                            st.append(s)
        self.IN = IN

    # -- uniformity
    def root_uniform(self, r, i):
        if r[0] == "." and r[1] == ("this",):
            f = r[2]
            m = self.IN[i] & self.byroot.get(r, 0)
            if r not in self.byroot:
                return f in REPLICATED or not self.grid
            if m & self.init_bit[r] and f not in REPLICATED and self.grid:
                return False
        elif r[0] == "v":
            loc = r[1] in self.local_args and len(r) > 3 and r[3] == 0
            if r not in self.byroot:
                return not loc
            m = self.IN[i] & self.byroot[r]
            if loc and m & self.init_bit[r]:
                return False
        else:
            return True
        k = 0
        m &= ~self.init_bit[r]
        return not (m & self.bad)

    def uniform(self, x, i):
        """the term x has the same value on every process at node i"""
        if not isinstance(x, tuple) or not x:
            return True
        if isinstance(x[0], tuple):
            return all(self.uniform(y, i) for y in x)
        t = x[0]
        if t in ("i", "f", "s", "b", "g", "undef", "zero", "nil", "this", "lam", "str"):
            return True
        if t == "v":
            return self.root_uniform(x, i)
        if t == "." and x[1] == ("this",):
            return self.root_uniform(x, i)
        if t == "call":
            sn = short(x[1])
            if sn in ("All_Reduce",):
                return True
            if x[1].startswith("MPI_") or x[1].startswith("Zoltan_"):
                return True         # status of a library call: success assumed
            if not all(self.uniform(a, i) for a in x[3]):
                return False
            if x[2] is not None and x[2] != ("this",):
                return self.uniform(x[2], i)
            if x[1].startswith("std::"):
                return True
            for f in self.u.byname(sn):
                if f.cls and f.cls.endswith("Dccrg") and self.u.nonuniform_reads(f):
                    return False
            return True
        if t == "catch":
            return False
        return all(self.uniform(y, i) for y in x[1:] if isinstance(y, tuple))

    def solve(self):
        self.bad = 0
        self.divergent = {}     # node index -> branch that makes it divergent
        self.badbr = set()
        while True:
            before = (self.bad, len(self.badbr))
            for i in self.live:
                n = self.nodes[i]
                if n.kind == "br" and len(self.succ[i]) > 1 and i not in self.badbr:
                    c = n.eff[1]
                    if c[0] == "each":
                        c = c[1]
                    if not self.uniform(c, i):
                        self.badbr.add(i)
                        for j in self.region(i):
                            self.divergent.setdefault(j, i)
            for k, (i, r, strong, forced, deps) in enumerate(self.defs):
                if self.bad >> k & 1 or i not in self.live:
                    continue
                ok = i not in self.divergent
                if ok and forced is None:
                    ok = all(self.uniform(d, i) for d in deps)
                elif forced is False:
                    ok = False
                if not ok:
                    self.bad |= 1 << k
            if (self.bad, len(self.badbr)) == before:
                return

    # -- collectives
    def is_collective(self, i):
        n = self.nodes[i]
        e = n.eff
        if e is None or n.kind not in ("eff", "pcall"):
            return None
        if e[0] == "call":
            if COLLECTIVE.match(e[1]):
                return e[1] + ("(root %s)" % pr(e[3][3]) if e[1] == "MPI_Bcast" and len(e[3]) > 3 else "")
            for f in self.u.byname(short(e[1])):
                if self.u.collective_fn(f):
                    return short(e[1])
            if short(e[1]) in ("All_Gather", "All_Reduce"):
                return short(e[1])
        return None

    def sequences(self, start, stop, budget=20000):
        """set of collective sequences on paths from start to stop"""
        memo = {}
        onstack = set()

        def go(i):
            if i == stop:
                return frozenset([()])
            if i in memo:
                return memo[i]
            if i in onstack:
                return None
            onstack.add(i)
            res = set()
            for s, _ in self.succ[i]:
                r = go(s)
                if r is None:
                    continue
                res |= r
            onstack.discard(i)
            c = self.is_collective(i)
            if c:
                res = {(c,) + x for x in res}
            if len(res) > 64:
                raise OverflowError
            memo[i] = frozenset(res)
            return memo[i]
        return go(start)


def indices(x):
    out = ()
    while isinstance(x, tuple):
        if x[0] == "[]":
            out += (x[2],)
            x = x[1]
        elif x[0] in (".", "deref", "addr"):
            x = x[1]
        elif x[0] == "el":
            out += (x[1],)
            return out
        elif x[0] == "call":
            out += tuple(x[3])
            x = x[2]
        else:
            return out
    return out


def subterm(t, x):
    if t == x:
        return True
    return isinstance(x, tuple) and any(subterm(t, y) for y in x if isinstance(y, tuple))


def uniform_call(x):
    return x[0] == "call" and short(x[1]) == "All_Reduce"
