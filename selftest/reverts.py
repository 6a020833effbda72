#!/usr/bin/env python3
"""Reverting each recorded repair must be reported by the property it is recorded under."""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
work = []
for line in open(os.path.join(VERIF, "known_findings.txt")):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", line)
    if m and rx.search(m.group(1) + " " + m.group(2)):
        work.append(m.groups())


def one(w):
    pid, commit, what = w
    d = tempfile.mkdtemp(prefix="dccrg_self_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        r = subprocess.run(["git", "-C", d + "/repo", "-c", "user.email=x@x", "-c", "user.name=x", "revert", "-n", commit], capture_output=True, text=True)
        if r.returncode:
            return w, "CONFLICT", r.stderr[-200:]
        env = dict(os.environ, DCCRG_REPO=d + "/repo", DCCRG_EVIDENCE=d + "/evidence")
        r = subprocess.run([sys.executable, os.path.join(VERIF, "analysis", "check.py"), pid], capture_output=True, text=True, env=env)
        ok = r.returncode == 1 and "VIOLATION property=%s " % pid in r.stdout
        return w, "ok" if ok else "MISSED rc=%d" % r.returncode, r.stdout[-300:] + r.stderr[-300:] if not ok else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


bad = 0
with ThreadPoolExecutor(4) as ex:
    for (pid, commit, what), res, out in ex.map(one, work):
        print("%-14s %s %s %s" % (res, pid, commit, what[:90]))
        if res != "ok":
            bad += 1
            print(out)
print("%d repairs, %d not as expected" % (len(work), bad))
sys.exit(1 if bad else 0)
