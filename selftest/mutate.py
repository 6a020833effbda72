#!/usr/bin/env python3
"""Mechanical mutants of the sources, to look for behaviour no check depends on:
each mutant changes one statement or operator in a scratch copy; those that
compile and that no check reports are listed as survivors (to be judged by hand:
equivalent, outside of all properties, or a gap).
usage: mutate.py [-n MAX] [-f FUNCTION REGEX] [-k KINDS] [--files a.hpp,..] [-j N] [--seed N]"""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from run import checks
from refactor import blank, functions, match_close, stmt_end
SRC = "/repo"


def skip_regions(s, b):
    """DEBUG blocks and error messages"""
    out = []
    for m in re.finditer(r"^[ \t]*#if(def DEBUG\b|.*defined\(DEBUG\)).*?^[ \t]*#endif", s, re.S | re.M):
        out.append((m.start(), m.end()))
    for m in re.finditer(r"^[ \t]*#ifndef USE_SFC.*?^[ \t]*(#else.*?^[ \t]*#endif)", s, re.S | re.M):
        out.append((m.start(1), m.end(1)))
    for m in re.finditer(r"std::cerr\b[^;]*;|\bthrow\b[^;]*;|\babort\(\);", b):
        out.append((m.start(), m.end()))
    # conditions of internal errors
    for m in re.finditer(r"\bif\s*\(", b):
        p = m.end() - 1
        q = match_close(b, p)
        t = re.match(r"\s*\{", b[q + 1:q + 40])
        if t:
            e = match_close(b, q + t.end())
            if re.search(r"\b(abort|throw|exit)\b", b[q:e]) and len(re.findall(";", b[q:e])) <= 2:
                out.append((m.start(), e))
    return out


OPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("and", "or"), ("or", "and"),
       ("<", "<="), (">", ">="), ("+", "-"), ("-", "+"), ("*", "+"), ("/", "*"), ("+=", "-="), ("-=", "+="), ("++", "--"),
       ("continue", "break"), ("break", "continue"), ("true", "false"), ("false", "true"), ("min", "max"), ("max", "min")]


def sites(s, b, lo, hi):
    for m in re.finditer(r"(?<=[;{}\n])[ \t]*\n?[ \t]*(this->|[a-z_]\w*[\[.(]|[a-z_]\w*\s*[-+*/]?=[^=]|return\b|insert|MPI_|[a-z_]\w*\+\+)", b[lo:hi]):
        a = lo + m.start(1)
        if re.match(r"return\b|if\b|for\b|while\b|else\b|switch\b|catch\b|do\b", b[a:a + 8]):
            continue
        try:
            e = stmt_end(b, a)
        except (ValueError, IndexError):
            continue
        if e > hi or "{" in b[a:e]:
            continue
        yield "del", a, e, ";"
    for m in re.finditer(r"\bif\s*\(", b[lo:hi]):
        p = lo + m.end() - 1
        q = match_close(b, p)
        yield "neg", p + 1, q, "!(" + s[p + 1:q] + ")"
        yield "iftrue", p + 1, q, "((" + s[p + 1:q] + "), true)"
        yield "iffalse", p + 1, q, "((" + s[p + 1:q] + "), false)"
    for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+=|-=|\+\+|\band\b|\bor\b|\bcontinue\b|\bbreak\b|\btrue\b|\bfalse\b|\bmin\b|\bmax\b|(?<= )[<>+*/-](?= )", b[lo:hi]):
        for o, n in OPS:
            if o == m.group(0):
                yield "op", lo + m.start(), lo + m.end(), n
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", b[lo:hi]):
        v = int(m.group(1))
        yield "num", lo + m.start(), lo + m.end(), str(v + 1)
        if v:
            yield "num", lo + m.start(), lo + m.end(), str(v - 1)
    for m in re.finditer(r"(?<=[(,])\s*([\w.>\-\[\]]+)\s*,\s*([\w.>\-\[\]]+)(?=\s*[,)])", b[lo:hi]):
        if m.group(1) != m.group(2):
            t = m.group(0)
            i = m.start(1) - m.start(0)
            j = m.start(2) - m.start(0)
            new = t[:i] + m.group(2) + t[i + len(m.group(1)):j] + m.group(1) + t[j + len(m.group(2)):]
            yield "swap", lo + m.start(), lo + m.end(), new


def all_mutants(files, fx, kinds):
    for f in files:
        s = open(os.path.join(SRC, f)).read()
        b = blank(s)
        sk = skip_regions(s, b)
        for name, lo, hi in functions(s, b):
            if fx and not fx.search(name):
                continue
            for k, a, e, n in sites(s, b, lo + 1, hi):
                if kinds and k not in kinds:
                    continue
                if any(x <= a < y for x, y in sk):
                    continue
                yield f, name, k, a, e, n, s


def order(fn, allc, cov):
    return sorted(allc, key=lambda c: (fn not in cov.get(c, ()), c))


def one(m, allc, cov):
    f, name, k, a, e, n, s = m
    d = tempfile.mkdtemp(prefix="dccrg_mut_")
    try:
        for g in os.listdir(SRC):
            if g.endswith(".hpp"):
                shutil.copy(os.path.join(SRC, g), d)
        open(os.path.join(d, f), "w").write(s[:a] + n + s[e:])
        env = dict(os.environ, DCCRG_REPO=d, DCCRG_EVIDENCE=os.path.join(d, "evidence"))
        broken = []
        for c in order(name, allc, cov):
            r = subprocess.run([sys.executable, os.path.join(VERIF, "analysis", "check.py"), c], capture_output=True, text=True, env=env)
            if r.returncode == 1:
                return m, "killed", c
            if r.returncode != 0:
                if "does not compile" in r.stdout + r.stderr:
                    return m, "nocompile", ""
                broken.append(c)
        return m, "broken" if broken else "SURVIVED", ",".join(broken)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]

    def opt(o, d=None):
        return a[a.index(o) + 1] if o in a else d
    files = opt("--files", "dccrg.hpp,dccrg_mapping.hpp,dccrg_topology.hpp,dccrg_length.hpp,dccrg_cartesian_geometry.hpp,dccrg_no_geometry.hpp,dccrg_stretched_cartesian_geometry.hpp,dccrg_mpi_support.hpp,dccrg_get_cell_datatype.hpp,dccrg_iterator_support.hpp").split(",")
    fx = re.compile(opt("-f")) if "-f" in a else None
    kinds = opt("-k", "").split(",") if "-k" in a else None
    ms = list(all_mutants(files, fx, kinds))
    total = len(ms)
    random.Random(int(opt("--seed", "1"))).shuffle(ms)
    ms = ms[:int(opt("-n", "100"))]
    allc = opt("--checks").split(",") if "--checks" in a else checks()
    cov = {}
    for c in allc:
        p = os.path.join(VERIF, "evidence", c + ".json")
        if os.path.exists(p):
            cov[c] = set(re.split(r"[:(]", x.split("::")[-1])[0].split("/")[0] for x in json.load(open(p))["coverage"].get("functions_analysed", []))
    print("%d of %d mutants" % (len(ms), total), flush=True)
    cnt = {}
    with ThreadPoolExecutor(int(opt("-j", "4"))) as ex:
        for m, res, c in ex.map(lambda m: one(m, allc, cov), ms):
            cnt[res] = cnt.get(res, 0) + 1
            f, name, k, x, e, n, s = m
            line = s.count("\n", 0, x) + 1
            if res not in ("killed", "nocompile") or "-v" in a:
                print("%-9s %s:%d %s %s: %r -> %r %s" % (res, f, line, name, k, s[x:e].replace("\t", "")[:90], n.replace("\t", "")[:60], c), flush=True)
    print(cnt)


if __name__ == "__main__":
    main()
