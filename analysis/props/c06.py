"""The result of every MPI, Zoltan and file operation is examined before it is
forgotten, and the failing outcome never continues as if nothing happened: on
every path after a failure the function aborts, throws, reports failure to its
caller, or records the failure in its result."""
from .common import *

MIN_OBLIGATIONS = 150
THOROUGH_CONFIGS = [("DEBUG",), ("DCCRG_NO_LB",)]
LIB = re.compile(r"^(MPI_\w+|Zoltan_\w+|ZOLTAN_\w+)\(")
BOOLS = re.compile(r"^((\w+)_rw\.(read|write)|initialize_mpi|initialize_zoltan|load_cells|start_loading_grid_data|continue_loading_grid_data|finish_loading_grid_data|"
                   r"start_user_data_receives|start_user_data_sends|start_remote_neighbor_copy_\w+|wait_remote_neighbor_copy_\w+|wait_user_data_transfer_\w+)\(")
# calls whose failure has no consequence for the grid: releasing and tuning of
# Zoltan, text of error messages
EXEMPT = {"Zoltan_Set_Param", "Zoltan_Set_Fn", "Zoltan_Destroy", "Zoltan_LB_Free_Data", "Zoltan_LB_Free_Part", "MPI_Error_string", "MPI_Wtime", "MPI_Abort", "Zoltan_Copy"}
EXEMPT_RE = re.compile(r"^Zoltan_Set_\w+$")
# internal transfers abort on their own errors; their results are informative
ABORTING = {"execute_refines", "continue_balance_load"}
# operations documented to report through an error message only
MESSAGE_ONLY = {"get_communicator"}


def mentions(text, name):
    return re.search(re.escape(name) + r"(?![\w%])", text) is not None


def strong(v, n):
    if n.kind in ("abort", "throw"):
        return True
    if n.kind == "ret":
        e = n.eff[1]
        if e is None:
            return False
        if e[0] == "v" and e in flags(v):
            return False      # a flag that wasn't set on the way
        return n.frame is v.L.frame and (e == ("b", False) or e[0] == "i" and e[1] != 0 or e[0] in ("v", "call") or e[0] in ("not", "and", "or", "cond", "bin", "exists", "all"))
    if n.kind == "eff":
        return re.match(r"^(let )?%?\w+ = false$", v.txt[n.id]) is not None or re.match(r"^exit\(", v.txt[n.id]) is not None
    return False


def flags(v):
    """local variables that only ever are true or false"""
    r = getattr(v, "_flags", None)
    if r is None:
        w = {}
        for n in v.nodes:
            if n.kind not in ("eff", "bind"):
                continue
            if n.eff[0] in ("init", "let"):
                w.setdefault(n.eff[1], []).append(n.eff[2])
            elif n.eff[0] == "asg":
                w.setdefault(n.eff[2], []).append(n.eff[3] if n.eff[1] == "=" else None)
        r = v._flags = {x for x, l in w.items() if x[0] == "v" and ("b", True) in l and all(y in (("b", True), ("b", False)) for y in l)}
    return r


def callname(t):
    return t.split("(", 1)[0]


def run(rep, prog, tier):
    seen = set()
    for f in prog.funcs:
        if not f.body or f.file == "main.cpp" or f.sig in seen or "lambda" in f.q:
            continue
        seen.add(f.sig)
        v = View(prog, f)
        calls = []
        for n in v.nodes:
            if n.kind in ("eff", "pcall") and n.eff and LIB.match(v.txt.get(n.id, "")) and "=" not in v.txt[n.id].split("(")[0]:
                calls.append((n, True))
            elif n.kind in ("eff", "pcall") and BOOLS.match(v.txt.get(n.id, "")):
                calls.append((n, False))
        if not calls:
            continue
        rep.saw(v)
        text = {}
        for n in v.nodes:
            if n.kind == "br":
                text[n.id] = pr(n.eff[1])
            elif n.id in v.txt:
                text[n.id] = v.txt[n.id]
        for n, lib in calls:
            t = v.txt[n.id]
            nm = callname(t)
            if nm in EXEMPT or EXEMPT_RE.match(nm):
                continue
            if not lib and f.name in ABORTING:
                continue
            what = "%s: result of %s" % (f.q.split("::")[-1], nm)
            one_call(rep, v, f, n, t, text, what, lib)


def one_call(rep, v, f, n, t, text, what, lib):
    # where does the value go: into a variable, or directly into tests
    var = None
    start = n
    for s, _ in n.succ:
        x = text.get(s.id, "")
        m = re.match(r"^(?:let )?(%?[\w.]+) = (.*)$", x)
        if m and m.group(2) == t and s.kind == "eff":
            var, start = m.group(1), s
    key = var if var is not None else t
    isuse = lambda k: (k.kind in ("br", "ret") and mentions(text.get(k.id, ""), key) if var is not None else
                       k.kind in ("br", "ret") and t in text.get(k.id, ""))
    copies = lambda k: k.kind == "eff" and re.match(r"^(let )?%\w+ = ", text.get(k.id, "")) and key in text[k.id].split(" = ", 1)[1] and k is not start

    def redefined(k):
        if k is v.exit:
            return True
        if var is None:
            return k is n and False
        x = text.get(k.id, "")
        return k is not start and k.kind == "eff" and (x.startswith(var + " = ") or x.startswith("let %s = " % var))
    p = ir.path_avoiding([start], redefined, lambda k: isuse(k) or bool(copies(k)) or k.kind == "abort")
    if p is not None and not dead(v, p):
        rep.bad("examined", what + " is examined", n.where(), "%s is not looked at before %s" % (
            t[:80], "the function ends" if p[-1] is v.exit else "it is overwritten at line %d" % p[-1].line))
        return
    rep.ok("examined", what + " is examined", n.where())
    if f.name in MESSAGE_ONLY:
        return

    def failed(a):
        """truth of a test after a failure with an error code nobody singles out"""
        if not (mentions(a, key) if var is not None else t in a):
            return None
        if not lib:
            return a == cmp_key("==", "0", key)
        if handle(t):
            return a in (cmp_key("==", "nil()", key), cmp_key("==", "0", key))
        if " == " in a:
            return False
        if a == key:
            return True
        return None

    def hides(k):
        """a returned condition that holds whether or not this call failed"""
        if k.kind != "ret" or k.eff[1] is None or k.eff[1][0] not in ("call", "not", "and", "or", "exists", "all"):
            return False
        if strong_calls(k.eff[1]):
            return False
        c = simplify(fml(truth(k.eff[1])), failed)
        return satisfiable(c) is not None and not any(mentions(a, key) if var is not None else t in a for a in c.atoms())
    succeeds(rep, v, n, start, t, what, lib, key, var, isuse)
    loops = status_loops(v)
    own = AND(TRUE, *[g for g in (fml(truth(g.cond)) for g in n.guards) if not any(mentions(a, key) if var is not None else t in a for a in g.atoms())])
    prev = {start.id: None}
    todo = [start]
    while todo:
        k = todo.pop()
        if k is not start and redefined(k):
            rep.bad("failure", what + ": failure is reported", n.where(), "after a failure the function continues%s without reporting it" % (
                " and ends at line %d" % prev[k.id].line if k is v.exit else " and overwrites the result at line %d" % k.line))
            return
        if k is not start and (reported(v, k, loops) or copies(k)) and not hides(k):
            continue
        for s, lab in k.succ:
            if k.kind == "br" and lab is not None and isuse(k):
                c = fml(truth(k.eff[1]))
                c = simplify(AND(c if lab else ~c, own), failed)
                if satisfiable(c) is None:
                    continue
            if s.id not in prev:
                prev[s.id] = k
                todo.append(s)
    rep.ok("failure", what + ": failure is reported", n.where())


def succeeds(rep, v, n, start, t, what, lib, key, var, isuse):
    """success isn't taken for failure: some way of going on reports none"""
    if handle(t) or any(s.kind == "abort" for s, _ in start.succ):
        return

    def fine(a):
        if not (mentions(a, key) if var is not None else t in a):
            return None
        if lib:
            return True if a == cmp_key("==", "0", key) else False if a == key else None
        return False if a == cmp_key("==", "0", key) else True if a == key else None
    bad = lambda k: k.kind in ("abort", "throw") or (k.kind == "ret" and k.eff[1] == ("b", False) and k.frame is v.L.frame) or (
        k.kind == "eff" and re.match(r"^%?\w+ = false$", v.txt.get(k.id, "")) is not None)
    seen, todo = {start.id}, [start]
    while todo:
        k = todo.pop()
        if k is v.exit:
            rep.ok("success", what + ": success isn't reported as failure", n.where())
            return
        if k is not start and bad(k):
            continue
        for s, lab in k.succ:
            if k.kind == "br" and lab is not None and isuse(k):
                c = fml(truth(k.eff[1]))
                c = simplify(c if lab else ~c, fine)
                if satisfiable(c) is None:
                    continue
            if s.id not in seen:
                seen.add(s.id)
                todo.append(s)
    rep.bad("success", what + ": success isn't reported as failure", n.where(), "every path after success reports a failure")


def strong_calls(e):
    """the result of a function handed on, a local variable"""
    return not any(BOOLS.match(pr(x)) for x in walk_terms(e)) or any(x[0] == "v" for x in walk_terms(e) if isinstance(x, tuple) and not BOOLS.match(pr(e)))


def walk_terms(e):
    if isinstance(e, tuple) and e and isinstance(e[0], str):
        yield e
        if e[0] == "call":
            return
    for x in e if isinstance(e, tuple) else ():
        if isinstance(x, tuple):
            yield from walk_terms(x)


def status_loops(v):
    # a failing wait leaves an error in one of the statuses, so a loop over
    # them that reports is a report
    loops = set()
    for n in v.nodes:
        if strong(v, n):
            for l in n.loops:
                if "status" in pr(l.dom):
                    loops.add(l.loop.node.id)
    return loops


def reported(v, k, loops):
    # without load balancing Zoltan's failure is irrelevant
    return strong(v, k) or k.id in loops or (k.kind == "br" and pr(k.eff[1]).strip("!()") == "no_load_balancing" and any(True for _ in ends(v, k)))


def handle(t):
    return t.startswith("Zoltan_Create(")


def ends(v, k):
    """first reporting node after the branch, if one of its sides leads there directly"""
    for s, lab in k.succ:
        x = s
        for _ in range(6):
            if strong(v, x):
                yield x, lab
                break
            if len(x.succ) != 1 and x.kind != "br":
                break
            if not x.succ:
                break
            x = x.succ[0][0] if x.kind != "br" else x.succ[-1][0]


def dead(v, p):
    """path that cannot be taken (conditions along it contradict)"""
    last = [n for n in p if n.kind in ("ret", "eff")]
    return any(n.kind == "abort" for n in p)
