#!/usr/bin/env python3
"""Mutation testing of the checks: small random edits of the library, each run against the properties of its file.

  mutate.py [-n COUNT] [-s SEED] [-j WORKERS] FILE..     FILE: Uint256.cpp, AsmX8664.s, Int256Math.java, ...
Works on copies under /tmp/mut. Prints the edits that no check noticed; these need a look by hand (many change nothing).
A development tool; no check uses it."""
import argparse
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ROOT = "/tmp/mut"

INT = [("uint_arith", 60000), ("uint_misc", 40000), ("uint_reciprocal", 4000)]
FLD = [("field_arith", 20000), ("field_boundary_square", 4000), ("field_construct", 4000)]
PT = [("point_add", 1500), ("point_walk", 500), ("point_misc", 1500), ("point_multiply", 300), ("point_pubkey", 200)]
EC = [("ecdsa_sign", 400), ("ecdsa_refuse", 400), ("ecdsa_refuse_hmac", 300), ("ecdsa_verify", 300), ("ecdsa_hmac", 100)]
STAGE1 = {  # file: (builds, [(property, cases)], properties whose whole quick check is the second stage)
	"Uint256": (["pure"], INT, "C01 C02 C03"),
	"FieldInt": (["pure"], FLD + [("uint_misc", 20000)], "C04 C02"),
	"CurvePoint": (["pure"], PT, "C05 C06 C07"),
	"Ecdsa": (["pure"], EC, "C08 C09 C10 C11"),
	"Sha256Hash": (["pure"], [("hash_value", 20000), ("b58_export", 500)], "C24"),
	"Sha256": (["pure"], [("hash_sha256", 10000), ("hash_compress", 5000), ("hash_hmac", 10000), ("hash_stream256", 5000)], "C12 C16 C17"),
	"Sha512": (["pure"], [("hash_sha512", 10000), ("hash_hmac", 10000), ("hash_stream512", 5000)], "C13 C16 C17"),
	"Ripemd160": (["pure"], [("hash_ripemd", 10000)], "C14"),
	"Keccak256": (["pure"], [("hash_keccak", 10000)], "C15"),
	"Base58Check": (["pure"], [("b58_export", 3000), ("b58_import", 3000), ("b58_substitute", 60)], "C18 C19"),
	"ExtendedPrivateKey": (["pure"], [("bip32_child", 300), ("bip32_inject", 300), ("b58_export", 1000), ("b58_import", 1000)], "C21 C18 C19"),
	"Utils": (["pure"], [("hash_ripemd", 3000), ("hash_hmac", 3000), ("assert_calls", 30000), ("b58_export", 1000), ("bip32_child", 200), ("hash_sha256", 5000), ("b58_import", 1000), ("uint_misc", 10000)], "C02 C19"),
	"AsmX8664": (["asm"], INT + FLD + PT + [("abi_routines", 40000)], "C01 C02 C03 C04 C30"),
}
JINT = [("j_arith", 40000), ("j_misc", 40000), ("j_reciprocal", 4000), ("j_field", 40000)]
STAGE1J = {
	"Int256Math": (JINT, "C01 C02 C03 C04 C31"),
	"CurvePointMath": ([("j_group", 3000), ("j_pointmisc", 4000), ("j_multiply", 300)], "C05 C06 C07 C31"),
	"Ecdsa": ([("j_sign", 300), ("j_refuse", 300), ("j_refusehmac", 200), ("j_verify", 200), ("j_hmacsign", 80)], "C08 C09 C10 C11"),
	"Sha256": ([("j_sha256", 10000), ("j_hmac", 5000)], "C12 C16"),
	"Sha512": ([("j_sha512", 10000), ("j_hmac", 5000)], "C13 C16"),
	"Ripemd160": ([("j_ripemd", 10000)], "C14"),
	"Keccak256": ([("j_keccak", 6000)], "C15"),
	"Sha256Hash": ([("j_hashvalue", 20000)], "C24"),
	"Base58Check": ([("j_base58", 10000)], "C20"),
	"Bech32": ([("j_bech32", 15000), ("j_bech32errors", 4000), ("j_segwit", 15000)], "C22 C23"),
	"SegwitAddress": ([("j_segwit", 15000)], "C23"),
}
SWAP = {"+": ["-", "|"], "-": ["+"], "*": ["+"], "<<": [">>"], ">>": ["<<"], ">>>": [">>", "<<"], "&": ["|", "^"], "|": ["&", "^", "+"], "^": ["|", "&"], "<": ["<=", ">"], "<=": ["<", "=="], ">": [">=", "<"],
	">=": [">", "=="], "==": ["!=", "<=", ">="], "!=": ["==", "<", ">"], "&&": ["||"], "||": ["&&"], "+=": ["-=", "|=", "="], "-=": ["+="], "|=": ["&=", "=", "^="], "&=": ["|=", "="], "^=": ["|=", "="], "<<=": [">>="], ">>=": ["<<="], ">>>=": [">>="], "%": ["/"], "/": ["%"]}
TYPES = {"uint64_t": ["uint32_t", "int64_t"], "uint32_t": ["uint16_t", "int32_t", "uint64_t"], "size_t": ["uint32_t", "uint8_t", "int"], "uint8_t": ["int8_t"], "long": ["int"], "int": ["short"]}
TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|0[xX][0-9A-Fa-f]+[uUlL]*|\d+[uUlL]*|[A-Za-z_]\w*|>>>=|<<=|>>=|>>>|<<|>>|&&|\|\||[-+*/%&|^<>=!]=|\+\+|--|->|::|.', re.S)


def strip_comments(t):
	return re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)


def mutants_src(text, rng):
	"""[(start, end, replacement)] over C++ or Java text."""
	clean = strip_comments(text)
	res = []
	pos = 0
	skip = []
	for m in re.finditer(r"^[ \t]*(#[^\n]*|assert\b[^\n]*|(static_)?assert\s*\([^\n]*|countOps\([^\n]*|import [^\n]*|package [^\n]*|using [^\n]*|throw [^\n]*)", clean, re.M):
		skip.append((m.start(), m.end()))
	bad = lambda a: any(s <= a < e for s, e in skip)
	for m in TOKEN.finditer(clean):
		t, a, b = m.group(0), m.start(), m.end()
		if t.isspace() or bad(a):
			continue
		if t in SWAP:
			if t in ("<", ">", "&", "*", "|", "^", "-", "+") and not (text[a - 1].isspace() and text[b:b + 1].isspace()):
				continue
			for r in SWAP[t]:
				res.append((a, b, r))
		elif re.match(r"0[xX]|\d", t):
			suf = re.search(r"[uUlL]*$", t).group(0) if not t.lower().startswith("0x") else re.search(r"[uUlL]*$", t).group(0)
			v = int(t[:len(t) - len(suf)] or "0", 0) if not re.fullmatch(r"0\d+", t[:len(t) - len(suf)]) else 0
			if v > 4096:
				for _ in range(2):
					w = v ^ (1 << rng.randrange(max(8, v.bit_length())))
					res.append((a, b, hex(w) + suf))
			else:
				for w in {v + 1, v - 1, 0, v * 2} - {v}:
					if w >= 0:
						res.append((a, b, str(w) + suf))
		elif t in TYPES:
			for r in TYPES[t]:
				res.append((a, b, r))
		elif t == "!":
			res.append((a, b, ""))
		elif t.startswith('"') and re.fullmatch(r'"[0-9A-Fa-f]{16,}"', t):
			i = rng.randrange(1, len(t) - 1)
			res.append((a + i, a + i + 1, "%x" % (int(t[i], 16) ^ (1 << rng.randrange(4)))))
		elif t in ("true", "false"):
			res.append((a, b, "false" if t == "true" else "true"))
	for m in re.finditer(r"^[ \t]*([^\n{}]*;)[ \t]*$", clean, re.M):
		st = m.group(1).strip()
		if bad(m.start(1)) or re.match(r"(return|using|break|public|private|static|const|class|struct|namespace|#|case|default|import|package|throw|extern)\b", st) or re.match(r"^[\w:<>]+[ &*]+\w+(\[.*\])?( =.*)?;$", st):
			continue
		res.append((m.start(1), m.end(1), ";"))
	for m in re.finditer(r"\bif \(((?:[^()]|\([^()]*\))*)\)", clean):
		res.append((m.start(1), m.end(1), "false"))
		res.append((m.start(1), m.end(1), "true"))
	for m in re.finditer(r"\breturn\b([^;\n]*);", clean):
		pass
	return res


REG = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
INS = {"addq": ["adcq", "subq"], "adcq": ["addq"], "subq": ["sbbq"], "sbbq": ["subq"], "adcl": ["addl"], "addl": ["adcl"], "andq": ["orq"], "orq": ["andq", "xorq"], "xorq": ["orq"], "cmovc": ["cmovnc", "cmovz"], "cmovae": ["cmovb", "cmova"],
	"setb": ["setae", "setbe"], "setc": ["setnc"], "shlq": ["shrq", "salq"], "shrq": ["shlq", "sarq"], "incq": ["decq"], "negq": ["notq"], "adoxq": ["adcxq"], "mulq": ["imulq"], "rclq": ["shlq"], "rcrq": ["shrq", "rorq"], "shldq": ["shrdq"], "shrdq": ["shldq"], "jmp": [], "jne": ["je"], "je": ["jne"], "cmpq": ["testq"], "movl": ["movq"], "andl": ["orl"]}


def mutants_asm(text, rng):
	res = []
	clean = re.sub(r"/\*.*?\*/|#[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
	for m in re.finditer(r"^[ \t]+(?!\.)([a-z]\w*)([^\n]*)$", clean, re.M):
		ins, ops, a = m.group(1), m.group(2), m.start(1)
		res.append((a, m.end(), ""))
		for r in INS.get(ins, []):
			res.append((a, a + len(ins), r))
		for q in re.finditer(r"%(\w+)", ops):
			if q.group(1) in REG:
				res.append((m.start(2) + q.start(1), m.start(2) + q.end(1), rng.choice([r for r in REG if r != q.group(1)])))
		for q in re.finditer(r"(?<![\w%])(\$?)(-?(?:0x[0-9A-Fa-f]+|\d+))(?![\w])", ops):
			v = int(q.group(2), 0)
			for w in ([v + 8, v - 8] if not q.group(1) and v % 8 == 0 else [v + 1, v - 1, v ^ (1 << rng.randrange(max(1, v.bit_length())))]):
				res.append((m.start(2) + q.start(2), m.start(2) + q.end(2), str(w)))
	return res


class Worker:
	def __init__(self, k):
		self.dir = os.path.join(ROOT, "w%d" % k)
		shutil.rmtree(self.dir, ignore_errors=True)
		os.makedirs(self.dir)
		self.repo = os.path.join(self.dir, "repo")
		self.build = os.path.join(self.dir, "build")
		shutil.copytree(REPO, self.repo, ignore=shutil.ignore_patterns(".git", "*.o", "*.class"))
		self.env = dict(os.environ, PBT_REPO=self.repo, PBT_BUILD=self.build, PBT_OUT=os.path.join(self.dir, "out"))

	def run(self, code, timeout):
		try:
			p = subprocess.run([sys.executable, "-c", code], cwd=VERIF, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
			return p.returncode, p.stdout.decode(errors="replace")
		except subprocess.TimeoutExpired:
			return 124, "timeout"


STAGE = r'''
import sys, subprocess, os, json
sys.path.insert(0, "lib/py")
import build, plan
props = json.loads(%r)
d = os.path.join(os.environ["PBT_REPO"], "..", "d")
open(d, "w").write("\n".join(map(str, build.dictionary())) + "\n")
try:
	plan.prepare(%r)
except build.BuildError as e:
	print("BUILD", str(e)[-300:]); sys.exit(50)
for v in %r:
	kind, tool = plan.tool(v)
	for p, n in props:
		o = d + ".json"
		if os.path.exists(o): os.unlink(o)
		cmd = (tool if kind == "java" else [tool]) + ["--prop", p, "--seed", "1", "--cases", str(n), "--deadline", "60", "--variant", v, "--dict", d, "--out", o, "--replay-out", d + ".r"]
		cmd += ["--shard", "0", "--of", "1"] if kind == "java" else ["--jobs", "1"]
		try:
			r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(build.ENV, **plan.run_env(v)), timeout=150)
			st = json.load(open(o))["status"]
		except (OSError, ValueError): st = "error"
		except subprocess.TimeoutExpired: st = "timeout"
		if st != "ok":
			print("KILL", p, v, st); sys.exit(1)
sys.exit(0)
'''


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument("-n", type=int, default=100)
	ap.add_argument("-s", type=int, default=1)
	ap.add_argument("-j", type=int, default=7)
	ap.add_argument("--no2", action="store_true", help="no second stage")
	ap.add_argument("files", nargs="+")
	a = ap.parse_args()
	shutil.rmtree(ROOT, ignore_errors=True)
	os.makedirs(ROOT)
	work = []
	for f in a.files:
		rng = random.Random("%s %d" % (f, a.s))
		for base, _, names in os.walk(os.path.join(REPO)):
			if f in names and "/.git" not in base and "/_build" not in base:
				path = os.path.join(base, f)
		text = open(path).read()
		ms = sorted(set((mutants_asm if f.endswith(".s") else mutants_src)(text, rng)))
		rng.shuffle(ms)
		ms = ms[:a.n]
		work += [(f, os.path.relpath(path, REPO), text, m) for m in ms]
	print("%d edits" % len(work), flush=True)
	pool = [Worker(k) for k in range(a.j)]
	lock = threading.Lock()
	stat = {}
	survivors = []
	two = threading.Semaphore(1)

	def job(w):
		f, rel, text, (s, e, r) = w
		with lock:
			wk = pool.pop()
		try:
			new = text[:s] + r + text[e:]
			p = os.path.join(wk.repo, rel)
			line = text.count("\n", 0, s) + 1
			ls = text.rfind("\n", 0, s) + 1
			le = text.find("\n", e)
			desc = "%s:%d: %s  ==>  %s" % (f, line, text[ls:le].strip(), (text[ls:s] + r + text[e:le]).strip())
			open(p, "w").write(new)
			stem = f.rsplit(".", 1)[0]
			if f.endswith(".java"):
				props, second = STAGE1J[stem]
				builds = ["java"]
			else:
				builds, props, second = STAGE1[stem]
			rc, out = wk.run(STAGE % (json.dumps(props), builds, builds), 900)
			what = "nocompile" if rc == 50 else "killed" if rc in (1, 124) else "survived" if rc == 0 else "odd %d %s" % (rc, out[-300:])
			killer = out.split()[1] if what == "killed" and out.startswith("KILL") else ""
			if what == "survived" and not a.no2:
				for pid in second.split():
					with two:
						p2 = subprocess.run([sys.executable, "check.py", pid, "quick"], cwd=VERIF, env=wk.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
					if p2.returncode:
						what, killer = "killed2", pid
						break
			with lock:
				stat[what.split()[0] + (" " + killer if killer else "")] = stat.get(what.split()[0] + (" " + killer if killer else ""), 0) + 1
				if what not in ("killed", "nocompile"):
					print(what, killer, desc, flush=True)
				if what == "survived":
					survivors.append(desc)
			open(p, "w").write(text)
			shutil.rmtree(os.path.join(wk.build, "bin"), ignore_errors=True)
			jd = os.path.join(wk.build, "java")
			if os.path.isdir(jd) and len(os.listdir(jd)) > 6:
				shutil.rmtree(jd, ignore_errors=True)
		finally:
			with lock:
				pool.append(wk)
	with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
		list(ex.map(job, work))
	print(json.dumps(stat, indent=1, sort_keys=True))
	print("SURVIVORS %d" % len(survivors))
	for x in survivors:
		print("  " + x)
	shutil.rmtree(ROOT, ignore_errors=True)


main()
