"""Obtain facts (resolved AST as JSON) about the dccrg sources in /repo.

The exporter (exporter/dccrg_export.cpp, clang 18 libTooling) parses a witness
translation unit that instantiates the class templates.  Nothing of the
analysed program is ever executed.
"""
import hashlib, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DCCRG_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: neither a pass nor a violation."""


def mpi_flags():
    for cmd in (["mpic++", "--showme:compile"], ["mpicxx", "--showme:compile"]):
        try:
            return subprocess.check_output(cmd, text=True, stderr=subprocess.DEVNULL).split()
        except Exception:
            pass
    return ["-I/usr/lib/x86_64-linux-gnu/openmpi/include",
            "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]


def compile_flags(defines=()):
    return (["-std=c++11", "-I" + REPO, "-isystem", "/usr/include/trilinos"] + mpi_flags()
            + ["-D" + d for d in defines])


def exporter():
    exe = os.path.join(BUILD, "dccrg_export")
    src = os.path.join(VERIF, "exporter", "dccrg_export.cpp")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "exporter")],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("cannot build exporter: " + r.stderr[-2000:])
    return exe


def repo_headers():
    return sorted(os.path.join(REPO, f) for f in os.listdir(REPO) if f.endswith(".hpp"))


def repo_hash(extra=()):
    h = hashlib.sha256()
    for f in list(repo_headers()) + list(extra):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


_cache = {}


def load(witness="main.cpp", defines=()):
    """facts for one witness translation unit under the given macro definitions"""
    key = (witness, tuple(defines))
    if key in _cache:
        return _cache[key]
    exe = exporter()
    src = os.path.join(VERIF, "witness", witness)
    tag = repo_hash([src, exe]) + "_" + witness.replace(".", "_") + "_" + "_".join(defines)
    os.makedirs(os.path.join(BUILD, "facts"), exist_ok=True)
    out = os.path.join(BUILD, "facts", hashlib.sha256((tag + REPO).encode()).hexdigest()[:24] + ".json")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        cmd = [exe, "--root=" + REPO, "--out=" + tmp, src, "--"] + compile_flags(defines) + \
              ["-resource-dir", LLVM + "/lib/clang/18", "-Wno-everything"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(tmp):
            raise AnalysisBroken("exporter failed: " + r.stderr[-2000:])
        os.replace(tmp, out)
        # keep the fact cache small
        def age(f):
            try:
                return os.path.getmtime(f)
            except OSError:
                return 0
        fs = sorted((os.path.join(BUILD, "facts", f) for f in os.listdir(os.path.join(BUILD, "facts")) if f.endswith(".json")), key=age)
        for f in fs[:-40]:
            try:
                os.remove(f)
            except OSError:
                pass
    d = json.load(open(out))
    p = Program(d, REPO)
    p.defines = tuple(defines)
    _cache[key] = p
    return p


class Func:
    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self.name = d["n"]
        self.q = d["q"]
        self.id = d["id"]
        self.cls = d.get("c")
        self.line = d["l"]
        self.file = os.path.basename(prog.files[d["file"]])
        self.params = d["p"]
        self.body = d.get("body")
        self.rt = prog.types[d["rt"]]
        self.targs = d.get("targs", "")
        self.cfull = prog.types[d["cfull"]] if "cfull" in d else None

    @property
    def sig(self):
        return "%s(%s)" % (self.q, ", ".join(self.prog.types[p["t"]] for p in self.params))

    def __repr__(self):
        return "<%s %s:%d>" % (self.q, self.file, self.line)


class Program:
    def __init__(self, d, root):
        self.types = d["types"]
        self.files = d["files"]
        self.errors = d["errors"]
        self.records = d["records"]
        self.root = root
        self.funcs = [Func(self, f) for f in d["functions"]]
        self.by_id = {f.id: f for f in self.funcs}
        self.lambda_bodies = {}
        self.alias = {}
        self._aliases()

    def _aliases(self):
        # reference members that their constructor binds to a member of the
        # same object: reading one is reading the other
        tab = {}
        for f in self.funcs:
            if "inits" not in f.d or f.d.get("implicit"):
                continue
            rec = [r for r in self.records if self.types[r["full"]] == f.cfull]
            if not rec:
                continue
            refs = {x["n"] for x in rec[0]["fields"] if x["ref"]}
            for i in f.d["inits"]:
                if i["f"] in refs and isinstance(i["e"], dict):
                    e = i["e"]
                    if e.get("k") == "mem" and e["b"].get("k") == "this":
                        tab.setdefault((f.cls, i["f"]), set()).add(e["n"])
        for (c, n), s in tab.items():
            if len(s) == 1:
                self.alias[(c, n)] = next(iter(s))

    def find(self, cls, name, nparams=None, public=None):
        r = [f for f in self.funcs if f.name == name and (cls is None or f.cls == cls or
             (f.cls or "").rsplit("::", 1)[-1] == cls)]
        if nparams is not None:
            r = [f for f in r if len(f.params) == nparams]
        return r

    def one(self, cls, name, nparams=None):
        r = self.find(cls, name, nparams)
        if not r:
            raise AnalysisBroken("anchor function %s::%s not found" % (cls, name))
        return r[0]

    def record(self, cls):
        for r in self.records:
            if r["q"] == cls or r["q"].rsplit("::", 1)[-1] == cls:
                return r
        raise AnalysisBroken("class %s not found" % cls)


def walk(n):
    """all dict nodes below n"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    st.append(v)
