#!/usr/bin/env python3
"""seedtool.py make SPECFILE [ID...]  writes seeded/<id>/ from specs and confirms each in a scratch copy of /repo
seedtool.py check [ID...]          runs each planted change's own check (quick tier) against it, in a scratch copy of /repo
A spec file is Python setting SEEDS: a list of dicts with id, property, edits [(file, old, new)], lang ('cpp' or 'java'),
demo (source text printing values), flags (list of g++ flags lists, run in turn), needs, breaks."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDED = os.path.join(VERIF, "seeded")

CPP_SH = r'''#!/bin/bash
# Run in /repo after its build: prints values that the change makes wrong, compared with the right ones
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$t" -delete' EXIT
libs=""
for n in Base58Check CurvePoint Ecdsa ExtendedPrivateKey FieldInt Keccak256 Ripemd160 Sha256 Sha256Hash Sha512 Uint256 Utils; do
	libs="$libs cpp/$n.cpp"
done
: > "$t/out"
%s
diff "$t/out" "$here/expected.txt"
'''
CPP_RUN = r'''g++ -std=c++11 -w -pthread -Icpp %s "$here/demo.cpp" $libs %s -o "$t/demo" || exit 2
timeout 250 "$t/demo" >> "$t/out" 2>/dev/null || echo "died" >> "$t/out"
'''
JAVA_SH = r'''#!/bin/bash
# Run in /repo after its build: prints values that the change makes wrong, compared with the right ones
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$t" -delete' EXIT
javac -nowarn -encoding UTF-8 -d "$t" $(ls java/io/nayuki/bitcoin/crypto/*.java | grep -v Test) "$here/Demo.java" || exit 2
timeout 250 java %s -cp "$t" Demo > "$t/out" 2>/dev/null || echo "died" >> "$t/out"
diff "$t/out" "$here/expected.txt"
'''


def sh(cmd, cwd=None, timeout=1200, env=None):
	r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
	return r.returncode, r.stdout.decode(errors="replace")


def make(spec):
	sid = spec["id"]
	d = os.path.join(SEEDED, sid)
	tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
	try:
		wt = os.path.join(tmp, "repo")
		rc, o = sh("git -C %s archive HEAD | (mkdir -p %s && tar x -C %s)" % (REPO, wt, wt))
		sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=wt)
		os.makedirs(d, exist_ok=True)
		if spec["lang"] == "cpp":
			runs = "".join((CPP_RUN % (" ".join(f), "cpp/AsmX8664.s" if "-DUSE_X8664_ASM_IMPL" in f else "")).replace("g++", spec.get("cxx", "g++")) for f in spec.get("flags", [["-O1"]]))
			open(os.path.join(d, "demo.cpp"), "w").write(spec["demo"])
			text = CPP_SH % runs
		elif spec["lang"] == "java":
			open(os.path.join(d, "Demo.java"), "w").write(spec["demo"])
			text = JAVA_SH % spec.get("jvm", "-ea")
		else:
			text = spec["sh"]
		for n, c in spec.get("files", {}).items():
			open(os.path.join(d, n), "w").write(c)
		open(os.path.join(d, "demo.sh"), "w").write(text)
		os.chmod(os.path.join(d, "demo.sh"), 0o755)
		open(os.path.join(d, "expected.txt"), "w").write("")
		# The right output comes from the unchanged tree
		rc, o = sh("bash %s/demo.sh" % d, cwd=wt)
		exp = "".join(l[2:] + "\n" for l in o.split("\n") if l.startswith("< "))
		if spec["lang"] in ("cpp", "java"):
			open(os.path.join(d, "expected.txt"), "w").write(exp)
			if not exp or "died" in exp:
				return "demo prints nothing or dies on the unchanged tree: " + o[-800:]
		else:
			os.unlink(os.path.join(d, "expected.txt"))
		rc, o = sh("bash %s/demo.sh" % d, cwd=wt)
		if rc:
			return "demo fails on the unchanged tree: " + o[-800:]
		for f, old, new in spec["edits"]:
			p = os.path.join(wt, f)
			t = open(p).read()
			if t.count(old) != 1:
				return "%d occurrences of %r in %s" % (t.count(old), old, f)
			open(p, "w").write(t.replace(old, new))
		rc, diff = sh("git diff", cwd=wt)
		open(os.path.join(d, "patch.diff"), "w").write(diff)
		json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
		rc, o = sh("bash %s/demo.sh" % d, cwd=wt)
		if rc == 0:
			return "demo passes with the change"
		if rc != 1:
			return "demo exits %d with the change: %s" % (rc, o[-500:])
		# The existing tests must still pass: run them on the scratch copy in its own mount-free way
		miss = run_tests(wt)
		if miss:
			return "tests fail: %s" % miss
		return None
	finally:
		shutil.rmtree(tmp, ignore_errors=True)


def run_tests(wt):
	"""The same test programs /opt/vp/test.sh runs, in a scratch tree."""
	import glob
	import concurrent.futures
	def cpp(v):
		b = os.path.join(wt, ".tb-" + v)
		shutil.copytree(os.path.join(wt, "cpp"), b)
		rc, o = sh("make -C %s -j4 CXX=g++ AR=ar IMPLEMENTATION=%s all" % (b, v))
		if rc:
			return ["%s: %s" % (v, o[-500:])]
		bad = []
		for t in sorted(glob.glob(b + "/*Test")):
			rc, o = sh("timeout 200 " + t)
			if rc or "runtime error" in o:
				bad.append(v + "/" + os.path.basename(t))
		return bad
	with concurrent.futures.ThreadPoolExecutor(2) as ex:
		bad = sum(ex.map(cpp, ("pure-cpp", "x8664")), [])
	if bad:
		return bad
	jd = os.path.join(wt, ".tj")
	os.makedirs(jd, exist_ok=True)
	cp = ":".join(glob.glob("/usr/share/java/junit4*.jar") + glob.glob("/usr/share/java/hamcrest*.jar") + glob.glob("/opt/vp/**/*.jar", recursive=True))
	rc, o = sh("javac -nowarn -encoding UTF-8 -cp %s -d %s %s/java/io/nayuki/bitcoin/crypto/*.java" % (cp, jd, wt))
	if rc:
		return "javac: " + o[-500:]
	classes = ["io.nayuki.bitcoin.crypto." + n[:-5] for n in os.listdir(os.path.join(wt, "java/io/nayuki/bitcoin/crypto")) if n.endswith("Test.java")]
	rc, o = sh("timeout 300 java -ea -cp %s:%s org.junit.runner.JUnitCore %s" % (cp, jd, " ".join(classes)))
	return ("java tests: " + o[-600:]) if rc else None


def check(ids):
	for sid in ids:
		d = os.path.join(SEEDED, sid)
		meta = json.load(open(os.path.join(d, "meta.json")))
		tmp = tempfile.mkdtemp(prefix="seedcheck.", dir="/tmp")
		try:
			wt = os.path.join(tmp, "repo")
			sh("git -C %s archive HEAD | (mkdir -p %s && tar x -C %s)" % (REPO, wt, wt))
			rc, o = sh("git init -q . && git apply %s/patch.diff" % d, cwd=wt)
			if rc:
				print(sid, "does not apply", o)
				continue
			t = time.time()
			rc, o = sh("python3 %s/check.py %s quick" % (VERIF, meta["property"]), cwd=VERIF, env=dict(os.environ, PBT_REPO=wt, PBT_OUT=os.path.join(tmp, "out")))
			hit = "VIOLATION property=%s" % meta["property"] in o
			print("%-28s %s %s rc=%d %.0f s  %s" % (sid, meta["property"], "CAUGHT" if hit and rc == 1 else "missed", rc, time.time() - t,
				[l for l in o.split("\n") if l.startswith("failure in") or l.startswith("no verdict")][:1]), flush=True)
		finally:
			shutil.rmtree(tmp, ignore_errors=True)


def main():
	if sys.argv[1] == "make":
		ns = {}
		exec(open(sys.argv[2]).read(), ns)
		for s in ns["SEEDS"]:
			if len(sys.argv) > 3 and s["id"] not in sys.argv[3:]:
				continue
			r = make(s)
			print("%-28s %s" % (s["id"], r or "ok"), flush=True)
			if r:
				shutil.rmtree(os.path.join(SEEDED, s["id"]), ignore_errors=True)
	else:
		check(sys.argv[2:] or sorted(os.listdir(SEEDED)))


if __name__ == "__main__":
	main()
