#!/usr/bin/env python3
"""Try the checks on edited scratch copies of the sources.

bugs.py and same.py list edits: {"id", "edits": [(file, old, new), ...],
"expect": [property ids]}.  A bug must make (at least) the expected checks exit
1; an edit in same.py keeps the behaviour, so every check must exit 0.
usage: run.py [bugs|same|all] [regex of ids] [--checks C01,C02]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def checks():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "analysis", "props")) if re.match(r"c\d+\.py$", f))


def make(m):
    d = tempfile.mkdtemp(prefix="dccrg_self_")
    for f in os.listdir("/repo"):
        if f.endswith(".hpp"):
            shutil.copy(os.path.join("/repo", f), d)
    for f, old, new in m["edits"]:
        p = os.path.join(d, f)
        s = open(p).read()
        k = 1
        if isinstance(old, tuple):
            old, k = old          # occurrence number, 0 for all
        parts = s.split(old)
        if len(parts) < 2 or (k and len(parts) <= k):
            raise SystemExit("%s: text not found in %s: %r" % (m["id"], f, old[:80]))
        s = new.join(parts) if k == 0 else old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, "w").write(s)
    return d


def one(m, cs):
    try:
        d = make(m)
    except SystemExit as e:
        return m, None, str(e)
    env = dict(os.environ, DCCRG_REPO=d, DCCRG_EVIDENCE=os.path.join(d, "evidence"))
    out = {}
    for c in cs:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "analysis", "check.py"), c], capture_output=True, text=True, env=env)
        out[c] = (r.returncode, r.stdout + r.stderr)
    shutil.rmtree(d)
    return m, out, None


def main():
    which = sys.argv[1] if len(sys.argv) > 1 else "all"
    rx = re.compile(sys.argv[2]) if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else None
    sel = None
    if "--checks" in sys.argv:
        sel = sys.argv[sys.argv.index("--checks") + 1].split(",")
    verbose = "-v" in sys.argv
    ms = []
    if which in ("bugs", "all"):
        import bugs
        ms += [dict(m, kind="bug") for m in bugs.BUGS]
    if which in ("same", "all"):
        import same
        ms += [dict(m, kind="same") for m in same.SAME]
    if rx:
        ms = [m for m in ms if rx.search(m["id"])]
    allc = checks()

    def cs(m):
        if sel:
            return sel
        return m["expect"] if m["kind"] == "bug" and "--all-checks" not in sys.argv else allc
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("SELFTEST_JOBS", "8"))) as ex:
        for m, out, err in ex.map(lambda m: one(m, [c for c in cs(m) if c in allc]), ms):
            if err:
                print("ERR ", err)
                bad += 1
                continue
            if m["kind"] == "bug":
                hit = [c for c in out if out[c][0] == 1]
                ok = bool(hit) and all(c in hit for c in m["expect"] if c in out)
                print("%s bug  %-28s caught by %s" % ("ok  " if ok else "MISS", m["id"], ",".join(hit)), [c for c in out if out[c][0] == 2] or "")
                if verbose or not ok:
                    for c in out:
                        print("      ", "\n       ".join(l[:260] for l in out[c][1].split("\n")[:6] if l))
            else:
                al = [c for c in out if out[c][0] != 0]
                ok = not al
                print("%s same %-28s %s" % ("ok  " if ok else "ALARM", m["id"], ",".join("%s(%d)" % (c, out[c][0]) for c in al)))
                if not ok:
                    for c in al:
                        print("      ", "\n       ".join(l[:330] for l in out[c][1].split("\n")[:5] if l))
            bad += not ok
    print("%d edits, %d not as expected" % (len(ms), bad))


if __name__ == "__main__":
    main()
