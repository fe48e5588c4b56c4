"""Builds the harness and the code under test from /repo's current working tree.

Every object is cached in /verif/build under a hash of its inputs (source text, all headers it could
include, flags), so nothing stale is ever used and an unchanged file is compiled once."""
import concurrent.futures
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("PBT_REPO", "/repo")
CPP = os.path.join(REPO, "cpp")
JAVA = os.path.join(REPO, "java")
BUILD = os.environ.get("PBT_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "lib", "cpp")
JHARNESS = os.path.join(VERIF, "lib", "java")
WRAP = ["-Wl,--wrap=_ZN6Sha2567getHmacEPKhmS1_m,--wrap=_ZN6Sha5127getHmacEPKhmS1_mPh,--wrap=_ZN10CurvePoint28privateExponentToPublicPointERK7Uint256,--wrap=__assert_fail"]
ENV = {k: v for k, v in os.environ.items() if k not in ("CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CFLAGS", "JAVA_TOOL_OPTIONS", "CLASSPATH", "UBSAN_OPTIONS", "ASAN_OPTIONS")}

UB = ["-fsanitize=undefined", "-fno-sanitize-recover=all"]
ASMDEF = ["-DUSE_X8664_ASM_IMPL"]

KASAN = ["-fsanitize=kernel-address"] + [x for o in ("asan-instrumentation-with-call-threshold=0", "asan-stack=0", "asan-globals=0", "asan-use-stack-safety=0", "asan-opt=0") for x in ("-mllvm", "-" + o)]
GKASAN = ["-fsanitize=kernel-address", "--param", "asan-instrumentation-with-call-threshold=0", "--param", "asan-stack=0", "--param", "asan-globals=0"]
CTWRAP = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=bcmp", "-Wl,-E", "-Wl,-z,now"]

# name: (compiler, flags for the library, link flags, assembly?)
VARIANTS = {
	"pure": ("g++", ["-O1"] + UB, ["-fsanitize=undefined"], False),
	"asm": ("g++", ["-O1"] + UB + ASMDEF, ["-fsanitize=undefined"], True),
	"fast": ("g++", ["-O2"], [], False),
	"fastasm": ("g++", ["-O2"] + ASMDEF, [], True),
	"asan": ("clang++", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], ["-fsanitize=address,undefined"], False),
	"asanasm": ("clang++", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + ASMDEF, ["-fsanitize=address,undefined"], True),
	"gasan": ("g++", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], ["-fsanitize=address,undefined"], False),
	"tsan": ("clang++", ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"], False),
	"tsanasm": ("clang++", ["-O1", "-fsanitize=thread"] + ASMDEF, ["-fsanitize=thread"], True),
	"pattern": ("g++", ["-O1", "-ftrivial-auto-var-init=pattern"], [], False),
	"patternasm": ("g++", ["-O1", "-ftrivial-auto-var-init=pattern"] + ASMDEF, [], True),
	"zeroinit": ("clang++", ["-O1", "-ftrivial-auto-var-init=zero"], [], False),
	# Everything the library computes from uninitialized memory is tracked; OWN_OPS: ops.cpp is compiled like the library
	"msan": ("clang++", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fno-sanitize-recover=all"], ["-fsanitize=memory"], False),
	"debug": ("g++", ["-O0", "-g"], [], False),
	"debugasm": ("g++", ["-O0", "-g"] + ASMDEF, [], True),
	# For execution traces: single-stepped builds, and builds with a call before every load and store (and basic block)
	"ctstep": ("g++", ["-O1"] + UB, ["-fsanitize=undefined"], False),
	"ctstepasm": ("g++", ["-O1"] + UB + ASMDEF, ["-fsanitize=undefined"], True),
	"ctstepfast": ("g++", ["-O2"], [], False),
	"ctstepfastasm": ("g++", ["-O2"] + ASMDEF, [], True),
	"ctclang": ("clang++", ["-O1"] + KASAN + ["-fsanitize-coverage=trace-pc"], [], False),
	"ctclangasm": ("clang++", ["-O1"] + KASAN + ["-fsanitize-coverage=trace-pc"] + ASMDEF, [], True),
	"ctgcc": ("g++", ["-O1"] + GKASAN, [], False),
	# As the Makefile builds EcdsaOpCount, and with assertions; what the library counts is recorded
	"ctcount": ("g++", ["-O1", "-DCOUNT_OPS", "-DNDEBUG"] + UB, ["-fsanitize=undefined"], False),
	"ctcountasm": ("g++", ["-O2", "-DCOUNT_OPS", "-DNDEBUG"] + ASMDEF, [], True),
	"ctcountdbg": ("g++", ["-O1", "-DCOUNT_OPS"], [], False),
	# The operation counting program, as the Makefile builds it and otherwise
	"opcount": ("g++", ["-O1", "-DNDEBUG"] + UB, ["-fsanitize=undefined"], False),
	"opcountasm": ("g++", ["-O2"] + ASMDEF, [], True),
	"opcountclang": ("clang++", ["-O1", "-DNDEBUG"], [], False),
	"fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer-no-link,undefined", "-fno-sanitize-recover=all"], ["-fsanitize=fuzzer,undefined"], False),
}


OWN_OPS = ("msan",)


class BuildError(Exception):
	pass


def sha(*parts):
	h = hashlib.sha256()
	for p in parts:
		b = p if isinstance(p, bytes) else str(p).encode()
		h.update(str(len(b)).encode() + b":" + b)
	return h.hexdigest()[:32]


def read(path):
	with open(path, "rb") as f:
		return f.read()


def run(cmd, **kw):
	r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
	if r.returncode:
		raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
	return r.stdout


def lib_sources():
	"""The library's translation units: everything except test and benchmark programs. Those that others' constants are
	made of come first, so that the harness starts even if the library does not in another link order (that is C33)."""
	r = []
	first = ["Utils.cpp", "Uint256.cpp", "FieldInt.cpp", "CurvePoint.cpp"]
	for n in sorted(os.listdir(CPP), key=lambda n: (first.index(n) if n in first else len(first), n)):
		if not n.endswith(".cpp"):
			continue
		text = read(os.path.join(CPP, n))
		if n.endswith("Test.cpp") or n == "EcdsaOpCount.cpp" or re.search(rb"^int\s+main\s*\(", text, re.M):
			continue
		r.append(os.path.join(CPP, n))
	return r


def headers(d):
	return [os.path.join(d, n) for n in sorted(os.listdir(d)) if n.endswith((".hpp", ".h", ".inc"))]


_hdr = {}


def header_hash(d):
	if d not in _hdr:
		_hdr[d] = sha(*[x for p in headers(d) for x in (os.path.basename(p), read(p))])
	return _hdr[d]


def obj(cc, flags, src, incs, hdr_dirs):
	key = sha(cc, " ".join(flags), os.path.basename(src), read(src), *[header_hash(d) for d in hdr_dirs])
	out = os.path.join(BUILD, "obj", key + ".o")
	if not os.path.exists(out):
		os.makedirs(os.path.dirname(out), exist_ok=True)
		fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.dirname(out))
		os.close(fd)
		try:
			run([cc] + flags + ["-I" + i for i in incs] + ["-c", src, "-o", tmp])
			os.replace(tmp, out)
		finally:
			if os.path.exists(tmp):
				os.unlink(tmp)
	return out


def lib_jobs(variant):
	cc, flags, _, asm = VARIANTS[variant]
	return lib_jobs_flags(cc, flags, asm)


def lib_jobs_flags(cc, flags, asm):
	jobs = [(cc, ["-std=c++11", "-w"] + flags, s, [], [CPP]) for s in lib_sources()]
	if asm:
		for n in sorted(os.listdir(CPP)):
			if n.endswith((".s", ".S")):
				jobs.append(("gcc", [], os.path.join(CPP, n), [], []))
	return jobs


def harness_jobs(names, flags=(), cc="g++"):
	return [(cc, ["-std=c++14", "-O1", "-w", "-pthread"] + list(flags), os.path.join(HARNESS, n), [CPP, HARNESS], [CPP, HARNESS]) if n.endswith(".cpp") else ("gcc", [], os.path.join(HARNESS, n), [], []) for n in names]


def build_objs(jobs):
	with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
		return list(ex.map(lambda j: obj(*j), jobs))


def link(cc, objs, flags, name):
	key = sha(cc, " ".join(flags), *objs)
	out = os.path.join(BUILD, "bin", name + "-" + key)
	if not os.path.exists(out):
		os.makedirs(os.path.dirname(out), exist_ok=True)
		tmp = out + ".tmp%d" % os.getpid()
		run([cc] + objs + ["-o", tmp, "-pthread"] + flags)
		os.replace(tmp, out)
	return out


PROP_FILES = ["ops.cpp", "opgen.cpp", "props_ops.cpp", "props_abi.cpp", "abi_call.S", "props_cfg.cpp", "props_start.cpp", "props_assert.cpp", "props_int.cpp", "props_field.cpp", "props_point.cpp", "props_ecdsa.cpp", "props_alias.cpp", "props_utils.cpp", "props_hash.cpp", "props_b58.cpp"]
BASE_FILES = ["engine.cpp", "main.cpp", "gen.cpp", "guard.cpp", "inject.cpp"]


GREGS = {r: i for i, r in enumerate("r8 r9 r10 r11 r12 r13 r14 r15 rdi rsi rbp rbx rdx rax rcx rsp".split())}


def operand_table(exe):
	"""Writes, for every instruction of a program that accesses memory, how to compute the address."""
	out = exe + ".map"
	if os.path.exists(out):
		return
	rows, lo, hi = [], None, 0
	for line in run(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", exe]).decode(errors="replace").splitlines():
		m = re.match(r"\s+([0-9a-f]+):\s+(.*)$", line)
		if not m:
			continue
		at, ins = int(m.group(1), 16), m.group(2)
		lo = at if lo is None else min(lo, at)
		hi = max(hi, at)
		if re.match(r"(\w+ )*(lea|nop\w*|data16|cs nop\w*|prefetch\w*)\b", ins) or " nop" in ins:
			continue
		for seg, expr in re.findall(r"(?:(\w\w):)?\[([^\]]+)\]", ins.split("#")[0]):
			if seg in ("fs", "gs"):
				continue
			base = index = -1
			scale, disp, ok = 1, 0, True
			for t in re.findall(r"[+-]?[^+-]+", expr):
				sign = -1 if t[0] == "-" else 1
				t = t.lstrip("+-")
				if t in GREGS:
					if base < 0:
						base = GREGS[t]
					else:
						index, scale = GREGS[t], 1
				elif re.fullmatch(r"(\w+)\*([1248])", t) and t.split("*")[0] in GREGS:
					index, scale = GREGS[t.split("*")[0]], int(t.split("*")[1])
				elif re.fullmatch(r"0x[0-9a-f]+|\d+", t):
					disp += sign * int(t, 0)
				else:
					ok = False  # Relative to the instruction, or an unusual form
			if ok:
				if disp >= 1 << 63:
					disp -= 1 << 64
				rows.append((at, base, index, scale, disp))
	tmp = out + ".tmp%d" % os.getpid()
	with open(tmp, "w") as f:
		f.write("%d %d %d\n" % (lo, hi - lo + 1, len(rows)))
		f.writelines("%d %d %d %d %d\n" % r for r in rows)
	os.replace(tmp, out)


def harness_trace(variants):
	"""Builds the execution trace comparison with the library compiled in each of the given ways."""
	res, jobs, spans = {}, [], {}
	base = harness_jobs(["engine.cpp", "main.cpp", "gen.cpp", "props_ct.cpp"]) + harness_jobs(["ref.cpp"], ["-O2"])
	for v in variants:
		j = base + harness_jobs(["ct.cpp"], ["-O2"] + (["-DCT_STEP"] if v.startswith("ctstep") else ["-DCT_COUNT"] if v.startswith("ctcount") else [])) + lib_jobs(v)
		spans[v] = (len(jobs), len(jobs) + len(j))
		jobs += j
	objs = build_objs(jobs)
	for v in variants:
		a, b = spans[v]
		res[v] = link(VARIANTS[v][0], objs[a:b], VARIANTS[v][2] + CTWRAP, "h-" + v)
		if v.startswith("ctstep"):
			operand_table(res[v])
	return res


def renamed_main(o):
	"""The same object with its main program under another name."""
	out = o[:-2] + ".main.o"
	if not os.path.exists(out):
		tmp = out + ".tmp%d" % os.getpid()
		run(["objcopy", "--redefine-sym", "main=opcount_main", o, tmp])
		os.replace(tmp, out)
	return out


def harness_opcount(variants):
	"""Builds the check of the operation counting program: what the library counts goes to the harness, which passes it on."""
	base = harness_jobs(["engine.cpp", "main.cpp", "gen.cpp", "props_opcount.cpp"]) + harness_jobs(["ref.cpp"], ["-O2"])
	jobs, spans = [], {}
	for v in variants:
		cc, flags, _, asm = VARIANTS[v]
		f = flags + ["-DCOUNT_OPS"]
		j = base + lib_jobs_flags(cc, f + ["-DcountOps=pbt_countOps", "-finstrument-functions"], asm) + [(cc, ["-std=c++11", "-w"] + f, os.path.join(CPP, "EcdsaOpCount.cpp"), [], [CPP])]
		spans[v] = (len(jobs), len(jobs) + len(j))
		jobs += j
	objs = build_objs(jobs)
	return {v: link(VARIANTS[v][0], objs[a:b - 1] + [renamed_main(objs[b - 1])], VARIANTS[v][2], "h-" + v) for v, (a, b) in spans.items()}


def harness(variants):
	"""Builds the property runner linked against the library compiled in each of the given ways."""
	h = harness_jobs(BASE_FILES + PROP_FILES) + harness_jobs(["ref.cpp"], ["-O2"])
	alljobs, spans = list(h), {}
	for v in variants:
		j = lib_jobs(v)
		if v in OWN_OPS:
			j = harness_jobs(["ops.cpp"], VARIANTS[v][1], VARIANTS[v][0]) + j
		spans[v] = (len(alljobs), len(alljobs) + len(j))
		alljobs += j
	objs = build_objs(alljobs)
	res = {}
	for v in variants:
		cc, _, lflags, _ = VARIANTS[v]
		a, b = spans[v]
		own = [o for o, j in zip(objs, h) if not (v in OWN_OPS and j[2].endswith("/ops.cpp"))]
		res[v] = link(cc, own + objs[a:b], lflags + WRAP, "h-" + v)
	return res


# Copies of the library for the comparison of build configurations: (compiler, flags, assembly?, objects linked in reverse order?)
CONFIGS = {
	"g++ -O0": ("g++", ["-O0"], False, False),
	"g++ -O0 -DNDEBUG, assembly": ("g++", ["-O0", "-DNDEBUG"] + ASMDEF, True, False),
	"g++ -O1": ("g++", ["-O1"], False, False),
	"g++ -O1 -std=c++20, assembly": ("g++", ["-O1", "-std=c++20"] + ASMDEF, True, False),
	"g++ -O2 -DNDEBUG": ("g++", ["-O2", "-DNDEBUG"], False, False),
	"g++ -O2 -funsigned-char": ("g++", ["-O2", "-funsigned-char"], False, False),
	"g++ -O2, assembly": ("g++", ["-O2"] + ASMDEF, True, False),
	"g++ -O3": ("g++", ["-O3"], False, False),
	"g++ -O3 -DNDEBUG, assembly": ("g++", ["-O3", "-DNDEBUG"] + ASMDEF, True, False),
	"g++ -Os -DNDEBUG": ("g++", ["-Os", "-DNDEBUG"], False, False),
	"g++ -O2 -DCOUNT_OPS -DNDEBUG": ("g++", ["-O2", "-DCOUNT_OPS", "-DNDEBUG"], False, False),
	"clang++ -O0": ("clang++", ["-O0"], False, False),
	"clang++ -O1 -DNDEBUG": ("clang++", ["-O1", "-DNDEBUG"], False, False),
	"clang++ -O1, assembly": ("clang++", ["-O1"] + ASMDEF, True, False),
	"clang++ -O2": ("clang++", ["-O2"], False, False),
	"clang++ -O3 -DNDEBUG": ("clang++", ["-O3", "-DNDEBUG"], False, False),
	"clang++ -O3 -DNDEBUG, assembly": ("clang++", ["-O3", "-DNDEBUG"] + ASMDEF, True, False),
	"clang++ -Os, assembly": ("clang++", ["-Os"] + ASMDEF, True, False),
}


def shared_builds():
	"""Builds the library in each configuration; returns [(name, path)]."""
	jobs, spans = [], {}
	for name, (cc, flags, asm, _) in CONFIGS.items():
		f = ["-fPIC"] + (["-fno-gnu-unique"] if cc == "g++" else []) + flags
		j = lib_jobs_flags(cc, f, asm) + [(cc, ["-std=c++11", "-w"] + f + [] , os.path.join(HARNESS, n), [CPP, HARNESS], [CPP, HARNESS]) for n in ["ops.cpp"] + (["countops.cpp"] if "-DCOUNT_OPS" in flags else [])]
		spans[name] = (len(jobs), len(jobs) + len(j))
		jobs += j
	objs = build_objs(jobs)
	res = []
	for name, (cc, flags, asm, rev) in CONFIGS.items():
		a, b = spans[name]
		o = objs[a:b]
		tag = re.sub(r"[^a-z0-9]+", "-", name.lower())
		res.append((tag, link(cc, o[::-1] if rev else o, ["-shared", "-Wl,-Bsymbolic"], "lib-" + tag)))
	return res


# Copies of the library whose objects are linked in generated orders: (compiler, flags, assembly?)
STARTS = {
	"g++ -O1": ("g++", ["-O1"], False),
	"g++ -O0": ("g++", ["-O0"], False),
	"clang++ -O2": ("clang++", ["-O2"], False),
	"g++ -O2, assembly": ("g++", ["-O2"] + ASMDEF, True),
	"clang++ -O1, assembly": ("clang++", ["-O1"] + ASMDEF, True),
	"g++ -O3 -DNDEBUG": ("g++", ["-O3", "-DNDEBUG"], False),
	"g++ -O1 -fsanitize=undefined": ("g++", ["-O1"] + UB, False),
}


def start_objects():
	"""Compiles the library in each way; returns the lines that props_start.cpp reads."""
	jobs, spans = [], {}
	for name, (cc, flags, asm) in STARTS.items():
		f = ["-fPIC"] + flags
		j = lib_jobs_flags(cc, f, asm) + [(cc, ["-std=c++11", "-w"] + f, os.path.join(HARNESS, n), [CPP, HARNESS], [CPP, HARNESS]) for n in ("ops.cpp", "startprobe.cpp")]
		spans[name] = (len(jobs), len(jobs) + len(j))
		jobs += j
	objs = build_objs(jobs)
	d = os.path.join(BUILD, "start")
	os.makedirs(d, exist_ok=True)
	lines = []
	for name, (cc, flags, asm) in STARTS.items():
		a, b = spans[name]
		named = []
		for o, j in zip(objs[a:b], jobs[a:b]):  # Under names that tell what they are
			n = os.path.join(d, "%s-%s" % (os.path.splitext(os.path.basename(j[2]))[0], os.path.basename(o)))
			if not os.path.exists(n):
				try:
					os.link(o, n)
				except FileExistsError:
					pass
			named.append(n)
		lines.append("%s|%s%s|%s" % (name, cc, " -fsanitize=undefined" if "-fsanitize=undefined" in flags else "", " ".join(named)))
	return "\n".join(lines)


# ---- Java ----

ADDEXP = [x for p in ("", ".tree") for x in ("--add-exports", "java.base/jdk.internal.org.objectweb.asm%s=ALL-UNNAMED" % p)]


def java_sources():
	r = []
	for base, dirs, names in os.walk(JAVA):
		dirs.sort()
		for n in sorted(names):
			if n.endswith(".java") and not n.endswith("Test.java"):
				r.append(os.path.join(base, n))
	return r


def java_classes():
	"""Compiles the library and then the harness; returns (library classes, harness classes)."""
	srcs = java_sources()
	k1 = sha(*[x for p in srcs for x in (os.path.relpath(p, JAVA), read(p))])
	lib = os.path.join(BUILD, "java", "lib-" + k1)
	_javac(lib, srcs, [])
	hs = sorted(os.path.join(JHARNESS, n) for n in os.listdir(JHARNESS) if n.endswith(".java"))
	k2 = sha(k1, *[x for p in hs for x in (os.path.basename(p), read(p))])
	h = os.path.join(BUILD, "java", "h-" + k2)
	_javac(h, hs, ["-cp", lib] + ADDEXP)
	return lib, h


def _javac(out, srcs, flags):
	if os.path.isdir(out):
		return
	tmp = out + ".tmp%d" % os.getpid()
	shutil.rmtree(tmp, ignore_errors=True)
	os.makedirs(tmp)
	run(["javac", "-nowarn", "-Xlint:none", "-g", "-encoding", "UTF-8", "-d", tmp] + flags + srcs)
	try:
		os.rename(tmp, out)
	except OSError:
		shutil.rmtree(tmp, ignore_errors=True)


# ---- Literals ----

def literals():
	"""Numbers appearing in the sources; those that are new against the recorded baseline steer the generators."""
	seen = set()
	files = [os.path.join(CPP, n) for n in os.listdir(CPP) if n.endswith((".cpp", ".hpp", ".s")) and not n.endswith("Test.cpp")] + java_sources()
	for p in files:
		text = read(p).decode("utf-8", "replace")
		text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
		for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", text):
			v = int(m.group(1), 0) if not re.fullmatch(r"0\d+", m.group(1)) else int(m.group(1))
			if v < 1 << 64:
				seen.add(v)
		for m in re.finditer(r"'([^'\\\n])'", text):
			seen.add(ord(m.group(1)) & 0xFF)
		for m in re.finditer(r'"([0-9A-Fa-f]{9,64})"', text):
			h = m.group(1)
			for i in range(0, len(h), 16):
				seen.add(int(h[i:i + 16], 16))
	return seen


BASELINE = os.path.join(VERIF, "lib", "literals.txt")


def dictionary():
	try:
		with open(BASELINE) as f:
			base = set(int(x) for x in f.read().split())
	except OSError:
		base = set()
	return sorted(literals() - base)[:64]
