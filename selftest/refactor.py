#!/usr/bin/env python3
"""Mechanical behaviour-preserving rewrites of the sources, to look for false
alarms: each kind of rewrite is applied to one function at a time (all sites in
it, or one at a time) in a scratch copy and every check must stay quiet.
usage: refactor.py [-k KINDS] [-f FUNCTION REGEX] [-n MAX] [--checks C01,..] [--each] [--seed N]"""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from run import checks
SRC = "/repo"


def blank(s):
    """comments, strings and preprocessor lines replaced by spaces"""
    out = list(s)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'|^[ \t]*#(?:[^\n\\]|\\.|\\\n)*', s, re.S | re.M):
        for i in range(m.start(), m.end()):
            if out[i] != "\n":
                out[i] = " "
    return "".join(out)


def match_close(b, i):
    o = b[i]
    c = {"(": ")", "{": "}", "[": "]"}[o]
    d = 0
    for j in range(i, len(b)):
        if b[j] == o:
            d += 1
        elif b[j] == c:
            d -= 1
            if d == 0:
                return j
    return -1


def functions(s, b):
    """(name, body start, body end) of function definitions"""
    out = []
    for m in re.finditer(r"\b([A-Za-z_]\w*)\s*\(", b):
        if m.group(1) in ("if", "for", "while", "switch", "catch", "return", "sizeof", "defined", "and", "or", "not", "decltype"):
            continue
        e = match_close(b, m.end() - 1)
        if e < 0:
            continue
        t = re.match(r"\s*(const)?\s*(noexcept)?\s*(override)?\s*(->[^{;]*)?\{", b[e + 1:e + 200])
        if not t:
            continue
        st = e + 1 + t.end() - 1
        en = match_close(b, st)
        if out and st < out[-1][2]:
            continue
        out.append((m.group(1), st, en))
    return out


def stmt_end(b, i):
    """end (exclusive) of the statement starting at i (whitespace skipped)"""
    while b[i].isspace():
        i += 1
    if b[i] == "{":
        return match_close(b, i) + 1
    m = re.match(r"(if|for|while|switch)\s*\(", b[i:])
    if m:
        e = match_close(b, i + m.end() - 1) + 1
        e = stmt_end(b, e)
        if m.group(1) == "if":
            t = re.match(r"\s*else\b", b[e:])
            if t:
                return stmt_end(b, e + t.end())
        return e
    if re.match(r"do\b", b[i:]):
        e = stmt_end(b, i + 2)
        return b.index(";", e) + 1
    j = i
    while b[j] != ";":
        if b[j] in "({[":
            j = match_close(b, j)
        j += 1
    return j + 1


def heads(b, lo, hi, kw):
    """(start, open paren, close paren, body start, body end) with braced bodies"""
    for m in re.finditer(r"\b%s\s*\(" % kw, b[lo:hi]):
        p = lo + m.end() - 1
        q = match_close(b, p)
        t = re.match(r"\s*\{", b[q + 1:])
        if not t:
            continue
        bs = q + 1 + t.end() - 1
        yield lo + m.start(), p, q, bs, match_close(b, bs)


def own(b, lo, hi, word):
    """does `word` (continue/break) in b[lo:hi] belong to the enclosing loop"""
    for m in re.finditer(r"\b%s\b" % word, b[lo:hi]):
        k = lo + m.start()
        inner = False
        for kw in ("for", "while") + (("switch",) if word == "break" else ()):
            for s, p, q, bs, be in heads(b, lo, hi, kw):
                if bs < k < be:
                    inner = True
        if not inner:
            return True
    return False


def has_else(b, e):
    return re.match(r"\s*else\b", b[e + 1:]) is not None


def is_elseif(b, s):
    return re.search(r"\belse\s*$", b[:s]) is not None


def has_pp(s, lo, hi):
    return re.search(r"^[ \t]*#", s[lo:hi], re.M) is not None


N = [0]


def uid():
    N[0] += 1
    return N[0]


# each rewrite gives a list of sites; a site is a list of (lo, hi, text)
def t_iter(s, b, lo, hi):
    for st, p, q, bs, be in heads(b, lo, hi, "for"):
        if ";" in b[p:q]:
            continue
        m = re.match(r"^(.*?[^:]):([^:].*)$", s[p + 1:q], re.S)
        if not m:
            continue
        i = uid()
        decl, c = m.group(1).strip(), m.group(2).strip()
        yield [(st, bs + 1, "for (auto rf_it%d = %s.begin(); rf_it%d != %s.end(); ++rf_it%d) {\n%s = *rf_it%d;" % (i, c, i, c, i, decl, i))] if "(" not in re.sub(r"\.at\(|\.first|\.second", "", c) else \
              [(st, bs + 1, "{ auto&& rf_c%d = %s;\nfor (auto rf_it%d = rf_c%d.begin(); rf_it%d != rf_c%d.end(); ++rf_it%d) {\n%s = *rf_it%d;" % (i, c, i, i, i, i, i, decl, i)), (be, be + 1, "}}")]


def t_index(s, b, lo, hi):
    for st, p, q, bs, be in heads(b, lo, hi, "for"):
        if ";" in b[p:q]:
            continue
        m = re.match(r"^(.*?[^:]):([^:].*)$", s[p + 1:q], re.S)
        if not m:
            continue
        i = uid()
        decl, c = m.group(1).strip(), m.group(2).strip()
        yield [(st, bs + 1, "RF_VECTOR(%s) for (size_t rf_i%d = 0; rf_i%d < %s.size(); rf_i%d++) {\n%s = %s[rf_i%d];" % (c, i, i, c, i, decl, c, i))]


def t_while(s, b, lo, hi):
    for st, p, q, bs, be in heads(b, lo, hi, "for"):
        parts = b[p + 1:q].split(";")
        if len(parts) != 3 or own(b, bs + 1, be, "continue"):
            continue
        a = p + 1 + len(parts[0])
        e = a + 1 + len(parts[1])
        yield [(st, bs + 1, "{ %s; while (%s) {" % (s[p + 1:a], s[a + 1:e])), (be, be + 1, "%s; }}" % s[e + 1:q])]


def t_swap(s, b, lo, hi):
    for st, p, q, bs, be in heads(b, lo, hi, "if"):
        t = re.match(r"\s*else\s*\{", b[be + 1:])
        if not t or has_pp(s, st, be):
            continue
        es = be + 1 + t.end() - 1
        ee = match_close(b, es)
        if has_pp(s, es, ee):
            continue
        yield [(st, ee + 1, "if (not (%s)) %s else %s" % (s[p + 1:q], s[es:ee + 1], s[bs:be + 1]))]


def t_guard(s, b, lo, hi):
    """if (A) { ..; continue; } rest -> if (A) { .. } else { rest }"""
    for kw in ("for", "while"):
        for st, p, q, bs, be in heads(b, lo, hi, kw):
            for t, p2, q2, bs2, be2 in heads(b, bs + 1, be, "if"):
                if is_elseif(b, t) or has_else(b, be2):
                    continue
                if not re.search(r"\bcontinue\s*;\s*$", b[bs2 + 1:be2]) or has_pp(s, t, be):
                    continue
                d = b[bs + 1:t]
                if d.count("{") != d.count("}"):
                    continue
                body = re.sub(r"continue\s*;\s*$", "", s[bs2 + 1:be2].rstrip())
                if own(b, bs2 + 1, bs2 + 1 + len(body), "continue"):
                    continue
                yield [(t, be2 + 1, "if (%s) {%s} else {" % (s[p2 + 1:q2], body)), (be, be + 1, "}}")]


def t_continue(s, b, lo, hi):
    """last statement of a loop body: if (A) { X } -> if (not A) continue; X"""
    for kw in ("for", "while"):
        for st, p, q, bs, be in heads(b, lo, hi, kw):
            for t, p2, q2, bs2, be2 in heads(b, bs + 1, be, "if"):
                if is_elseif(b, t) or b[be2 + 1:be].strip() or has_pp(s, t, be):
                    continue
                yield [(t, be2 + 1, "if (not (%s)) { continue; }\n%s" % (s[p2 + 1:q2], s[bs2 + 1:be2]))]


def t_lambda(s, b, lo, hi):
    """a loop becomes a call of a local function"""
    for st, p, q, bs, be in heads(b, lo, hi, "for"):
        if re.search(r"\breturn\b", b[bs:be]) or has_pp(s, st, be):
            continue
        i = uid()
        yield [(st, be + 1, "const auto rf_do%d = [&]() {\n%s\n};\nrf_do%d();" % (i, s[st:be + 1], i))]


def t_helper(s, b, lo, hi):
    """a loop becomes a (template) member function taking the locals it uses"""
    sig = b[max(0, lo - 900):lo]
    for st, p, q, bs, be in heads(b, lo, hi, "for"):
        if re.search(r"\breturn\b", b[bs:be]) or has_pp(s, st, be):
            continue
        text = b[st:be + 1]
        # locals declared before the loop in this function, plus parameters
        before = b[lo:st]
        names = set()
        for m in re.finditer(r"(?:^|[;{}(,])\s*(?:const\s+)?(?:std::)?[A-Za-z_][\w:]*(?:\s*<[^;{}=()]*>)?(?:\s+const)?\s*[&*]*\s+[&*]*([A-Za-z_]\w*)\s*(?==|;|\(|,|:|\[|$)", before):
            names.add(m.group(1))
        for m in re.finditer(r",\s*\n?\s*([A-Za-z_]\w*)\s*(?==|;|\()", before):
            names.add(m.group(1))
        ps = sig[sig.rfind("\n\t}"):] if "\n\t}" in sig else sig
        for m in re.finditer(r"[\w>&*]\s+&?\s*([A-Za-z_]\w*)\s*(?=,|\)|=)", ps):
            names.add(m.group(1))
        used = sorted(n for n in names if re.search(r"(?<![\w.>:])%s\b(?!\s*::)" % n, text) and n not in ("const", "return", "int", "this"))
        d0 = sorted(n for n in used)
        i = uid()
        const = re.search(r"\)\s*const\s*$", b[:lo].rstrip() if b[lo] == "{" else b[:lo]) is not None
        tp = ", ".join("class RF_T%d" % k for k in range(len(d0)))
        helper = "\n\t%svoid rf_helper%d(%s)%s\n\t{\n\t\t%s\n\t}\n" % ("template<%s> " % tp if d0 else "", i, ", ".join("RF_T%d& %s" % (k, n) for k, n in enumerate(d0)), " const" if const else "", s[st:be + 1])
        yield [(st, be + 1, "this->rf_helper%d(%s);" % (i, ", ".join(d0))), (hi + 1, hi + 1, helper)]


def t_cond(s, b, lo, hi):
    for st, p, q, bs, be in heads(b, lo, hi, "if"):
        if is_elseif(b, st):
            continue
        i = uid()
        yield [(st, bs, "const bool rf_cond%d = (%s);\nif (rf_cond%d) " % (i, s[p + 1:q], i))]


def t_nest(s, b, lo, hi):
    for st, p, q, bs, be in heads(b, lo, hi, "if"):
        if is_elseif(b, st) or has_else(b, be) or has_pp(s, st, be):
            continue
        c = b[p + 1:q]
        d, cut = 0, []
        for m in re.finditer(r"[([{]|[)\]}]|\band\b|&&|\bor\b|\|\|", c):
            if m.group() in "([{":
                d += 1
            elif m.group() in ")]}":
                d -= 1
            elif d == 0:
                cut.append(m)
        if not cut or any(m.group() in ("or", "||") for m in cut):
            continue
        m = cut[0]
        yield [(st, be + 1, "if (%s) { if (%s) %s }" % (s[p + 1:p + 1 + m.start()], s[p + 1 + m.end():q], s[bs:be + 1]))]


def t_demorgan(s, b, lo, hi):
    """if (A or B) X -> if (not (not (A) and not (B))) X"""
    for st, p, q, bs, be in heads(b, lo, hi, "if"):
        c = b[p + 1:q]
        d, cut = 0, []
        for m in re.finditer(r"[([{]|[)\]}]|\band\b|&&|\bor\b|\|\|", c):
            if m.group() in "([{":
                d += 1
            elif m.group() in ")]}":
                d -= 1
            elif d == 0:
                cut.append(m)
        if len(cut) != 1:
            continue
        m = cut[0]
        op = "or" if m.group() in ("and", "&&") else "and"
        yield [(p, q + 1, "(not (not (%s) %s not (%s)))" % (s[p + 1:p + 1 + m.start()], op, s[p + 1 + m.end():q]))]


def t_alias(s, b, lo, hi):
    """a reference to a member is used instead of the member"""
    cnt = {}
    for m in re.finditer(r"\bthis->([a-z_]\w*)\b(?!\s*\()", b[lo:hi]):
        cnt.setdefault(m.group(1), []).append((lo + m.start(), lo + m.end()))
    for n, ps in sorted(cnt.items()):
        if b[lo] != "{":
            continue
        yield [(lo + 1, lo + 1, "\nauto& rf_%s = this->%s;\n" % (n, n))] + [(x, y, "rf_" + n) for x, y in ps]


def t_find(s, b, lo, hi):
    """X.count(k) > 0 -> X.find(k) != X.end()"""
    for m in re.finditer(r"((?:this->)?[a-z_]\w*(?:\.at\(\w+\))?)\.count\(([^()]*(?:\([^()]*\)[^()]*)*)\)\s*(> 0|== 0|!= 0)", b[lo:hi]):
        x, k, o = s[lo + m.start(1):lo + m.end(1)], s[lo + m.start(2):lo + m.end(2)], m.group(3)
        yield [(lo + m.start(), lo + m.end(), "%s.find(%s) %s %s.end()" % (x, k, "==" if o == "== 0" else "!=", x))]


def t_at(s, b, lo, hi):
    """X.at(k) -> X.find(k)->second (maps) """
    for m in re.finditer(r"((?:this->)?(?:cell_process|neighbors_of|neighbors_to|user_hood_of|user_hood_to|pin_requests|cell_weights|cell_data|user_neighbors_of|user_neighbors_to|neighbor_processes))\.at\(([\w.]+)\)", b[lo:hi]):
        x, k = s[lo + m.start(1):lo + m.end(1)], s[lo + m.start(2):lo + m.end(2)]
        yield [(lo + m.start(), lo + m.end(), "%s.find(%s)->second" % (x, k))]


def t_emplace(s, b, lo, hi):
    for m in re.finditer(r"\.(insert|push_back)\((\w[\w.]*)\)", b[lo:hi]):
        yield [(lo + m.start(), lo + m.end(), ".%s(%s)" % ({"insert": "emplace", "push_back": "emplace_back"}[m.group(1)], m.group(2)))]


def t_foreach(s, b, lo, hi):
    for st, p, q, bs, be in heads(b, lo, hi, "for"):
        if ";" in b[p:q] or re.search(r"\breturn\b", b[bs:be]) or own(b, bs + 1, be, "break") or has_pp(s, st, be):
            continue
        m = re.match(r"^(.*?[^:]):([^:].*)$", s[p + 1:q], re.S)
        if not m:
            continue
        decl, c = m.group(1).strip(), m.group(2).strip()
        if "(" in re.sub(r"\.at\(", "", c):
            continue
        body = s[bs + 1:be]
        if re.search(r"\bcontinue\b", b[bs:be]):
            inner = any(True for kw in ("for", "while") for _ in heads(b, bs + 1, be, kw))
            if inner:
                continue
            body = re.sub(r"\bcontinue\b", "return", body)
        decl = re.sub(r"\bauto\b", "typename std::remove_reference<decltype(*(%s).begin())>::type" % c, decl)
        yield [(st, be + 1, "std::for_each(%s.begin(), %s.end(), [&](%s) {%s});" % (c, c, decl, body))]


def t_hoist(s, b, lo, hi):
    """a bound of a counting loop is computed before it"""
    for st, p, q, bs, be in heads(b, lo, hi, "for"):
        parts = b[p + 1:q].split(";")
        if len(parts) != 3:
            continue
        m = re.match(r"^(\s*\w+\s*<=?\s*)(.+)$", s[p + 2 + len(parts[0]):p + 2 + len(parts[0]) + len(parts[1])], re.S)
        if not m or re.match(r"^\s*\d+\s*$", m.group(2)):
            continue
        i = uid()
        a = p + 1 + len(parts[0]) + 1
        yield [(st, q + 1, "const auto rf_n%d = %s;\nfor (%s%srf_n%d;%s)" % (i, m.group(2), s[p + 1:a], m.group(1), i, parts[2]))]


def t_first(s, b, lo, hi):
    """names for the parts of the element of a map"""
    for st, p, q, bs, be in heads(b, lo, hi, "for"):
        m = re.match(r"^\s*const auto& (\w+)\s*:", s[p + 1:q])
        if not m:
            continue
        n = m.group(1)
        us = [x for x in re.finditer(r"\b%s\.first\b" % n, b[bs:be])]
        if not us:
            continue
        i = uid()
        yield [(bs + 1, bs + 1, "\nconst auto rf_key%d = %s.first;\n" % (i, n))] + [(bs + x.start(), bs + x.end(), "rf_key%d" % i) for x in us]


def t_rename(s, b, lo, hi):
    seen = set()
    for m in re.finditer(r"\b(?:auto|uint64_t|int|bool|size_t|unsigned int)\s*&?\s+&?\s*([a-z_]\w*)\s*(?==|;|:|\()", b[lo:hi]):
        n = m.group(1)
        if n in seen or len(n) < 2:
            continue
        seen.add(n)
        us = [x for x in re.finditer(r"(?<![\w.>:])%s\b" % n, b[lo:hi])]
        yield [(lo + x.start(), lo + x.end(), "rf_%s" % n) for x in us]


def t_ctemp(s, b, lo, hi):
    """the first argument of a call statement gets a name"""
    for m in re.finditer(r"(?<=[;{}])\s*(this->[\w.]+(?:\[[\w.]+\])?\.(?:insert|push_back|erase)\()(this->[\w.()]+|\w+\.\w+)\);", b[lo:hi]):
        i = uid()
        yield [(lo + m.start(1), lo + m.end(), "const auto rf_x%d = %s;\n%srf_x%d);" % (i, m.group(2), m.group(1), i))]


def t_dead(s, b, lo, hi):
    yield [(lo + 1, lo + 1, "\n(void) 0;\n")]
    yield [(lo + 1, lo + 1, "\nif (false) { }\n")]


KINDS = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith("t_")}


def overlap(a, b):
    return any(x[0] < y[1] and y[0] < x[1] or x[0] == y[0] for x in a for y in b)


def apply(s, sites):
    eds = sorted((e for st in sites for e in st), key=lambda e: (e[0], e[1]), reverse=True)
    for lo, hi, t in eds:
        s = s[:lo] + t + s[hi:]
    return s


FLAGS = subprocess.run("mpic++ --showme:compile", shell=True, capture_output=True, text=True).stdout.split()


def variants(files, kinds, frx, each):
    for f in files:
        s = open(os.path.join(SRC, f)).read()
        b = blank(s)
        for name, lo, hi in functions(s, b):
            if frx and not frx.search(name):
                continue
            if has_pp(s, lo, hi) and False:
                continue
            for k in kinds:
                sites = list(KINDS[k](s, b, lo, hi))
                if not sites:
                    continue
                if each:
                    groups = [[x] for x in sites]
                else:
                    groups, rest = [], sites
                    while rest:          # as many at once as do not overlap
                        g, left = [], []
                        for x in rest:
                            sp = [(min(e[0] for e in x), max(e[1] for e in x))]
                            if k in ("alias", "rename", "find", "at", "emplace", "first", "cond", "hoist", "dead", "demorgan", "ctemp"):
                                clash = any(overlap(x, y) for y in g)
                            else:
                                clash = any(overlap(sp, [(min(e[0] for e in y), max(e[1] for e in y))]) for y in g)
                            (left if clash else g).append(x)
                        groups.append(g)
                        rest = left
                for n, g in enumerate(groups):
                    yield "%s:%s:%s:%d" % (f.replace("dccrg_", "").replace(".hpp", ""), name, k, n), f, apply(s, g), g, s


def compiles(d, vec=False):
    c = ["/usr/lib/llvm-18/bin/clang++", "-std=c++11", "-fsyntax-only", "-w", "-I" + d, "-isystem", "/usr/include/trilinos"] + FLAGS
    c += ["-DRF_VECTOR(c)=static_assert(rf_isvec<typename std::remove_reference<decltype(c)>::type>::v,\"\");" if vec else "-DRF_VECTOR(c)="]
    if vec:
        c += ["-include", d + "/rf_vec.hpp"]
    c += [os.path.join(VERIF, "witness", "main.cpp")]
    return subprocess.run(c, capture_output=True, text=True)


def one(v, cs, keep):
    vid, f, text, g, orig = v
    d = tempfile.mkdtemp(prefix="dccrg_rf_")
    try:
        for x in os.listdir(SRC):
            if x.endswith(".hpp"):
                shutil.copy(os.path.join(SRC, x), d)
        open(os.path.join(d, "rf_vec.hpp"), "w").write("#include <vector>\n#include <type_traits>\n#include <algorithm>\ntemplate<class T> struct rf_isvec { static const bool v = false; }; template<class T, class A> struct rf_isvec<std::vector<T, A>> { static const bool v = true; }; template<class T, class A> struct rf_isvec<const std::vector<T, A>> { static const bool v = true; };\n")
        open(os.path.join(d, f), "w").write(text)
        vec = "RF_VECTOR" in text
        r = compiles(d, vec)
        if r.returncode:
            return vid, "nocompile", r.stderr[:300]
        if vec:
            open(os.path.join(d, f), "w").write(re.sub(r"RF_VECTOR\([^;]*?\) for ", "for ", text))
        os.remove(os.path.join(d, "rf_vec.hpp"))
        env = dict(os.environ, DCCRG_REPO=d, DCCRG_EVIDENCE=os.path.join(d, "evidence"))
        bad = []
        for c in cs:
            r = subprocess.run([sys.executable, os.path.join(VERIF, "analysis", "check.py"), c], capture_output=True, text=True, env=env)
            if r.returncode:
                bad.append((c, r.returncode, (r.stdout + r.stderr)))
        if bad and keep:
            shutil.rmtree("/tmp/rfkeep/" + vid.replace(":", "_"), ignore_errors=True)
            shutil.copytree(d, "/tmp/rfkeep/" + vid.replace(":", "_"))
        return vid, bad, ""
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]

    def opt(n, dflt=None):
        return a[a.index(n) + 1] if n in a else dflt
    kinds = opt("-k", ",".join(KINDS)).split(",")
    frx = re.compile(opt("-f")) if "-f" in a else None
    cs = opt("--checks", ",".join(checks())).split(",")
    files = opt("--files", "dccrg.hpp,dccrg_mapping.hpp,dccrg_topology.hpp,dccrg_length.hpp,dccrg_no_geometry.hpp,dccrg_cartesian_geometry.hpp,dccrg_stretched_cartesian_geometry.hpp,dccrg_get_cell_datatype.hpp,dccrg_mpi_support.hpp,dccrg_iterator_support.hpp").split(",")
    files = [f for f in files if os.path.exists(os.path.join(SRC, f))]
    vs = list(variants(files, kinds, frx, "--each" in a))
    random.Random(int(opt("--seed", "1"))).shuffle(vs)
    if "-n" in a:
        vs = vs[:int(opt("-n"))]
    if "--list" in a:
        for v in vs:
            print(v[0])
        return
    st = {"ok": 0, "nocompile": 0, "alarm": 0}
    with ThreadPoolExecutor(int(opt("-j", "8"))) as ex:
        for vid, bad, err in ex.map(lambda v: one(v, cs, "--keep" in a), vs):
            if bad == "nocompile":
                st["nocompile"] += 1
                if "-v" in a:
                    print("nocompile", vid, err.split("\n")[0][:200])
                continue
            if not bad:
                st["ok"] += 1
                continue
            st["alarm"] += 1
            print("ALARM", vid, ",".join("%s(%d)" % (c, r) for c, r, _ in bad), flush=True)
            for c, r, o in bad:
                for l in [l for l in o.split("\n") if l and not l.startswith("VIOLATION property")][:3]:
                    print("     %s %s" % (c, l[:300]), flush=True)
    print(st)


if __name__ == "__main__":
    main()
