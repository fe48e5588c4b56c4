#!/usr/bin/env python3
# Runs checks on a copy of /repo in which code was rewritten without changing what it does: none may raise an alarm.
#   refactor.py SPECFILE [CHECK ..]
import os, sys, subprocess, shutil, tempfile, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib", "py"))
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = tempfile.mkdtemp(prefix="refactor.", dir="/tmp")
    r = os.path.join(d, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%d occurrences of %r in %s" % (s.count(old), old, f))
            open(p, "w").write(s.replace(old, new))
        for f in sorted({e[0] for e in ns["EDITS"] if e[0].endswith(".cpp")}):
            subprocess.run(["g++", "-std=c++11", "-Wall", "-O1"] + ["-DCOUNT_OPS"] * ("OpCount" in f) + ["-c", os.path.join(r, f), "-o", "/dev/null"], check=True)
        checks = sys.argv[2:] or [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
        env = dict(os.environ, PBT_REPO=r, PBT_OUT=os.path.join(d, "out"), VERIF_TIER="quick")
        bad = 0
        for c in checks:
            t = time.time()
            x = subprocess.run([sys.executable, os.path.join(V, "check.py"), c, "quick"], env=env, capture_output=True, text=True, cwd=V)
            ok = x.returncode == 0
            bad += not ok
            print(c, "quiet" if ok else "ALARM rc=%d" % x.returncode, "%.0f s" % (time.time() - t), flush=True)
            if not ok: print((x.stdout + x.stderr)[-3000:], flush=True)
        sys.exit(bad != 0)
    finally:
        shutil.rmtree(d)
main()
