"""Which jobs decide which property: a job is a generated-input check run against one build of the library."""
import contextlib
import os
import shutil
import subprocess
import tempfile
import build


class Job:
	def __init__(self, recipe, prop, quick, thorough, deadline=240, background=False, maxjobs=None, racy=False):
		self.recipe, self.prop, self.quick, self.thorough = recipe, prop, quick, thorough
		self.deadline, self.background, self.maxjobs, self.racy = deadline, background, maxjobs, racy


def C(props, quick, thorough, recipes=("pure", "asm"), **kw):
	"""The same property function against several builds."""
	return [Job(r, p, quick, thorough, **kw) for p in props.split() for r in recipes]


def only_cpp(jobs):
	return [j for j in jobs if j.recipe not in JVM]


def J(props, quick, thorough, recipes=("java",), **kw):
	return [Job(r, p, quick, thorough, **kw) for p in props.split() for r in recipes]


# How to start the JVM: assertions on (as the repository's tests run) and off (as users run)
JVM = {
	"java": ["-ea", "-Xmx700m"],
	"javada": ["-da", "-Xmx700m"],
	"javaint": ["-ea", "-Xint", "-Xmx700m"],
	"javabig": ["-ea", "-Xmx5g"],
	# Countries whose letters or digits differ in case rules or in formatting, and other default encodings
	"javatr": ["-ea", "-Xmx700m", "-Duser.language=tr", "-Duser.country=TR", "-Dfile.encoding=UTF-16"],
	"javath": ["-ea", "-Xmx700m", "-Duser.language=th", "-Duser.country=TH", "-Duser.variant=TH", "-Dfile.encoding=US-ASCII"],
}
ABROAD = ("javatr", "javath")

_tools = {}

# Suffix of a recipe in whose runs only crashes, assertions and sanitizer reports count, not wrong results
CRASH = ".crash"


def crashes(jobs):
	for j in jobs:
		j.recipe += CRASH
	return jobs


def tool(recipe):
	return _tools[recipe]


def run_env(recipe):
	e = {}
	if "asan" in recipe:
		e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=0:detect_stack_use_after_return=1:strict_string_checks=0"
	if "tsan" in recipe:
		e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:report_bugs=1"
	if recipe.endswith(CRASH):
		e["PBT_CRASHONLY"] = "1"
	if recipe == "cfg":
		e["PBT_BUILDS"] = " ".join("%s=%s" % b for b in build.shared_builds())
	if recipe == "start":
		e["PBT_START"] = build.start_objects()
	if recipe == "jstart":
		e["PBT_JVM"] = "java -XX:+UseSerialGC -Xshare:auto -Xmx300m -cp %s:%s pbt.StartProbe" % build.java_classes()
	if recipe == "msan":
		e["MSAN_OPTIONS"] = "poison_in_malloc=0:poison_in_free=0:poison_stack_with_zeroes=0:halt_on_error=1:abort_on_error=1:handle_segv=0"
	return e


XJAVA = {"xjava": "java", "xjavada": "javada"}  # Comparison of C++ with Java


@contextlib.contextmanager
def running(recipe):
	"""The environment of the runs of a recipe, with whatever must be running meanwhile."""
	env = dict(build.ENV, **run_env(recipe))
	if recipe not in XJAVA:
		yield env
		return
	lib, h = build.java_classes()
	tmp = tempfile.mkdtemp(prefix="pbtsrv.")
	sock = os.path.join(tmp, "s")
	p = subprocess.Popen(["java"] + JVM[XJAVA[recipe]] + ["-cp", lib + ":" + h, "pbt.Server", sock], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=build.ENV)
	try:
		if p.stdout.readline().strip() != b"ready":
			raise build.BuildError("the Java server did not start")
		yield dict(env, PBT_JAVA=sock)
	finally:
		p.kill()
		p.wait()
		shutil.rmtree(tmp, ignore_errors=True)


def prepare(recipes):
	_prepare_all([r[:-len(CRASH)] if r.endswith(CRASH) else r for r in recipes])
	for r in recipes:
		if r.endswith(CRASH):
			_tools[r] = _tools[r[:-len(CRASH)]]


def _prepare_all(recipes):
	want = set(recipes)
	recipes = list(recipes)
	if "cfg" in want:
		build.shared_builds()
	if "start" in want:
		build.start_objects()
	if want & {"cfg", "xjava", "xjavada", "start", "jstart"}:
		recipes.append("fast")
	if want & (set(XJAVA) | {"jstart"}):
		recipes.append("java")
	_prepare(sorted(set(recipes)))
	for r in ("cfg", "xjava", "xjavada", "start", "jstart"):
		if r in want:
			_tools[r] = _tools["fast"]


def _prepare(recipes):
	v = [r for r in recipes if r in build.VARIANTS and r not in _tools]
	for names, make in (([r for r in v if not r.startswith(("ct", "opcount"))], build.harness), ([r for r in v if r.startswith("ct")], build.harness_trace), ([r for r in v if r.startswith("opcount")], build.harness_opcount)):
		if names:
			for name, exe in make(names).items():
				_tools[name] = ("cpp", exe)
	if any(r in JVM and r not in _tools for r in recipes):
		lib, h = build.java_classes()
		for r in recipes:
			if r in JVM:
				_tools[r] = ("java", ["java"] + JVM[r] + ["-XX:+UseSerialGC", "-XX:-OmitStackTraceInFastThrow", "-Xss4m", "-Dpbt.lib=" + lib, "-cp", lib + ":" + h] + build.ADDEXP + ["pbt.Main"])


def selftest():
	import selftest as st
	return st.run(True)


BOTH = ("pure", "asm")
PLAN = {}
NOT_APPLICABLE = {}


def P(pid, rule, jobs, assumptions=(), technique=None, note=None):
	PLAN[pid] = {"rule": rule, "jobs": jobs, "assumptions": list(assumptions), "technique": technique, "note": note}


ALL = ("java", "javada")

# The parts an operation is made of, each driven over its whole domain (a carry that occurs once in 2^32 inputs of a
# routine cannot be met through a scalar multiplication). Only those that the operation really uses.
def part_field(): return C("field_core", 60000, 3000000) + J("j_fieldcore", 200000, 8000000)
def part_inverse_p(): return C("reciprocal_p", 15000, 600000) + J("j_reciprocalp", 8000, 300000)
def part_inverse_n(): return C("reciprocal_n", 15000, 600000) + J("j_reciprocaln", 8000, 300000)
def part_int(): return C("uint_arith uint_core", 200000, 5000000) + J("j_arith j_core", 150000, 5000000)
def part_group(): return C("point_add", 8000, 300000) + J("j_group", 12000, 500000)
def part_times(): return C("point_multiply point_pubkey", 1500, 60000) + J("j_multiply", 1500, 60000)
def part_curve(): return part_int() + part_field() + part_inverse_p() + part_group() + part_times()


# Variables that the library leaves uninitialized hold 0xFE bytes (the other builds: whatever was there, often zero)
def PAT(props, quick, thorough):
	return C(props, quick, thorough, ("pattern",))


# Sequences of 2-4 of a check's cases, made of related values: state that one call leaves behind must not mislead the next
def SEQ(props, quick, thorough, recipes=BOTH):
	return C(" ".join(p + "@" for p in props.split()), quick, thorough, recipes)


def JSEQ(props, quick, thorough):
	return J(" ".join(p + "@" for p in props.split()), quick, thorough)


P("C01", "Sequences of 1-6 add/subtract/shift operations on three related 256-bit numbers; non-trivial if an operation changed a non-zero number.",
	C("uint_arith", 3000000, 20000000) + J("j_arith", 1500000, 20000000)
	+ PAT("uint_arith", 200000, 2000000)
	+ SEQ("uint_arith", 50000, 1000000) + JSEQ("j_arith", 50000, 1000000))
P("C02", "Sequences of comparisons, conditional copies, swaps and conversions on three related 256-bit numbers; non-trivial if the operands differ.",
	C("uint_misc", 1500000, 6000000) + J("j_misc", 1000000, 10000000)
	+ PAT("uint_misc", 150000, 1000000)
	+ J("j_misc", 100000, 2000000, ABROAD)
	+ SEQ("uint_misc", 50000, 1000000) + JSEQ("j_misc", 50000, 1000000))
P("C03", "An odd modulus above 1 and a coprime value below it (or zero); non-trivial if the value is above 1.",
	C("uint_reciprocal", 300000, 3000000) + J("j_reciprocal", 60000, 1500000)
	+ PAT("uint_reciprocal", 30000, 300000)
	+ SEQ("uint_reciprocal", 10000, 300000) + JSEQ("j_reciprocal", 4000, 200000))
P("C04", "Sequences of 1-6 field operations on three related elements, products constructed to lie at the reduction's boundaries, reductions of any 256-bit integer; non-trivial as labelled.",
	C("field_arith field_boundary_square field_construct", 150000, 6000000) + J("j_field", 600000, 15000000)
	+ PAT("field_arith field_construct", 30000, 1000000)
	+ SEQ("field_arith field_construct", 20000, 500000) + JSEQ("j_field", 30000, 1000000))
P("C05", "Pairs of points in random projective representations (including equal, opposite, zero, same y) and random walks; non-trivial if both operands are non-zero and one is not normalized.",
	C("point_add", 30000, 600000) + C("point_walk", 12000, 300000) + J("j_group", 50000, 1500000)
	+ C("point_othercurve", 15000, 400000) + J("j_othercurve", 15000, 500000)
	+ part_field() + part_int()
	+ PAT("point_add", 5000, 100000)
	+ SEQ("point_add", 3000, 100000) + JSEQ("j_group", 5000, 200000))
P("C06", "Scalars (uniform, boundary, windowed patterns, around multiples of the order) times points in random representations; non-trivial as labelled.",
	C("point_multiply", 5000, 150000) + C("point_pubkey", 5000, 150000) + J("j_multiply", 5000, 200000)
	+ part_int() + part_field() + part_inverse_p() + part_group()
	+ PAT("point_multiply point_pubkey", 1000, 30000)
	+ SEQ("point_multiply point_pubkey", 700, 30000) + JSEQ("j_multiply", 800, 30000))
P("C07", "Points in random representations, off-curve and degenerate triples; non-trivial as labelled.",
	C("point_misc", 30000, 600000) + J("j_pointmisc", 60000, 1500000)
	+ part_int() + part_field() + part_inverse_p()
	+ PAT("point_misc", 6000, 100000)
	+ SEQ("point_misc", 2500, 80000) + JSEQ("j_pointmisc", 6000, 200000))
P("C08", "Private key, hash and nonce, partly solved for so that the sum or s lies at a boundary; the nonce's point replaced so that its x coordinate is at or above n; all non-trivial.",
	C("ecdsa_sign", 9000, 200000) + J("j_sign", 5000, 200000) + C("ecdsa_inject_point", 12000, 300000) + J("j_injectpoint", 2500, 100000)
	+ part_curve() + part_inverse_n()
	+ PAT("ecdsa_sign", 1500, 40000)
	+ SEQ("ecdsa_sign", 1000, 40000) + JSEQ("j_sign", 600, 30000))
P("C09", "Nonces of zero, at or above the order, and keys solved for so that s is zero; the derived nonce is replaced at the HMAC boundary, and the nonce's point or the base point so that r is zero; all non-trivial.",
	C("ecdsa_refuse ecdsa_refuse_hmac", 9000, 200000) + J("j_refuse j_refusehmac", 5000, 200000) + C("ecdsa_inject_point", 12000, 300000) + J("j_injectpoint", 2500, 100000)
	+ PAT("ecdsa_refuse ecdsa_refuse_hmac", 1500, 40000)
	+ SEQ("ecdsa_refuse ecdsa_refuse_hmac", 1000, 40000) + JSEQ("j_refuse j_refusehmac", 500, 20000) + SEQ("ecdsa_inject_point", 1500, 50000))
P("C10", "Valid signatures (signed, or recovered from a chosen nonce point), then one mutation of key, hash, r or s; all non-trivial.",
	C("ecdsa_verify", 4000, 150000) + J("j_verify", 3000, 120000)
	+ part_curve() + part_inverse_n()
	+ PAT("ecdsa_verify", 1000, 30000)
	+ SEQ("ecdsa_verify", 1000, 40000) + JSEQ("j_verify", 600, 30000))
P("C11", "Keys and hashes (including leading zeros); all non-trivial.",
	C("ecdsa_hmac", 1500, 60000) + J("j_hmacsign", 1200, 60000)
	+ part_curve() + part_inverse_n() + C("ecdsa_sign", 1500, 60000) + J("j_sign", 1000, 60000) + C("hash_hmac256 hash_compress", 100000, 2000000, ("pure",)) + J("j_hmac256", 60000, 1500000)
	+ PAT("ecdsa_hmac", 500, 15000)
	+ SEQ("ecdsa_hmac", 300, 12000) + JSEQ("j_hmacsign", 200, 10000))
P("C12", "Messages with lengths around block and padding boundaries and up to 4 GiB; arbitrary state and block for the compression function; non-trivial if not empty.",
	C("hash_sha256 hash_compress", 200000, 3000000, ("pure",)) + J("j_sha256", 200000, 3000000)
	+ [Job("fast", "huge29_sha256", 1, 4, background=True), Job("fast", "huge32_sha256", 1, 2, background=True)]
	+ C("large_sha256", 300, 20000, ("fast",)) + J("j_large_sha256", 80, 10000)
	+ [Job("javabig", "j_huge29_sha256", 1, 4, background=True, maxjobs=1), Job("javabig", "j_huge28_sha256", 0, 2, background=True, maxjobs=1), Job("javabig", "j_huge31_sha256", 0, 1, background=True, maxjobs=1)]
	+ PAT("hash_sha256 hash_compress", 50000, 800000)
	+ SEQ("hash_sha256 hash_compress", 30000, 800000, ("pure",)) + JSEQ("j_sha256", 20000, 600000))
P("C13", "Messages with lengths around block and padding boundaries and up to 4 GiB; non-trivial if not empty.",
	C("hash_sha512", 300000, 3000000, ("pure",)) + J("j_sha512", 200000, 3000000)
	+ [Job("fast", "huge29_sha512", 1, 4, background=True), Job("fast", "huge32_sha512", 1, 2, background=True)]
	+ C("large_sha512", 300, 20000, ("fast",)) + J("j_large_sha512", 80, 10000)
	+ [Job("javabig", "j_huge29_sha512", 1, 4, background=True, maxjobs=1), Job("javabig", "j_huge28_sha512", 0, 2, background=True, maxjobs=1), Job("javabig", "j_huge31_sha512", 0, 1, background=True, maxjobs=1)]
	+ PAT("hash_sha512", 60000, 800000)
	+ SEQ("hash_sha512", 20000, 600000, ("pure",)) + JSEQ("j_sha512", 20000, 600000))
P("C14", "Messages with lengths around block and padding boundaries and up to 4 GiB; non-trivial if not empty.",
	C("hash_ripemd", 300000, 3000000, ("pure",)) + J("j_ripemd", 150000, 3000000)
	+ [Job("fast", "huge29_ripemd", 1, 4, background=True), Job("fast", "huge32_ripemd", 1, 2, background=True)]
	+ C("large_ripemd", 300, 20000, ("fast",)) + J("j_large_ripemd", 80, 10000)
	+ [Job("javabig", "j_huge29_ripemd", 1, 4, background=True, maxjobs=1), Job("javabig", "j_huge28_ripemd", 0, 2, background=True, maxjobs=1), Job("javabig", "j_huge31_ripemd", 0, 1, background=True, maxjobs=1)]
	+ PAT("hash_ripemd", 60000, 800000)
	+ SEQ("hash_ripemd", 30000, 600000, ("pure",)) + JSEQ("j_ripemd", 20000, 600000))
P("C15", "Messages with lengths around block and padding boundaries and up to 4 GiB; non-trivial if not empty.",
	C("hash_keccak", 300000, 3000000, ("pure",)) + J("j_keccak", 100000, 2000000)
	+ [Job("fast", "huge29_keccak", 0, 4, background=True), Job("fast", "huge32_keccak", 1, 2, background=True)]
	+ C("large_keccak", 300, 20000, ("fast",)) + J("j_large_keccak", 80, 10000)
	+ [Job("javabig", "j_huge29_keccak", 0, 4, background=True, maxjobs=1), Job("javabig", "j_huge31_keccak", 0, 1, background=True, maxjobs=1)]
	+ PAT("hash_keccak", 60000, 800000)
	+ SEQ("hash_keccak", 20000, 600000, ("pure",)) + JSEQ("j_keccak", 20000, 600000))
P("C16", "Keys around the block length and messages around block boundaries; non-trivial if the message is not empty.",
	C("hash_hmac", 600000, 4000000, ("pure",)) + J("j_hmac", 200000, 3000000)
	+ [Job("javabig", "j_hugehmac", 1, 6, background=True, maxjobs=1)]
	+ C("large_hmac", 300, 15000, ("fast",)) + J("j_large_hmac", 80, 8000)
	+ PAT("hash_hmac", 100000, 1000000)
	+ SEQ("hash_hmac", 50000, 1000000, ("pure",)) + JSEQ("j_hmac", 30000, 800000))
P("C17", "Histories of appends (pieces around block boundaries), copies and finishes over up to three hashers; non-trivial if at least two pieces were fed.",
	C("hash_stream256 hash_stream512", 150000, 2000000, ("pure",)) + [Job("fast", "huge_stream", 2, 8, background=True)]
	+ C("large_stream", 300, 15000, ("fast",))
	+ PAT("hash_stream256 hash_stream512", 40000, 500000)
	+ SEQ("hash_stream256 hash_stream512", 20000, 500000, ("pure",)))
P("C18", "Payloads of the three kinds with leading zeros and boundary versions; all non-trivial.",
	C("b58_export", 24000, 400000)
	+ C("hash_sha256 hash_compress hash_ripemd", 50000, 1000000, ("pure",))
	+ PAT("b58_export", 5000, 100000)
	+ SEQ("b58_export", 2500, 80000))
P("C19", "Texts that are, or nearly are, canonical encodings of the expected kind, and random text; all non-trivial.",
	C("b58_import", 24000, 800000) + C("b58_substitute", 800, 20000, ("pure",))
	+ C("hash_sha256 hash_compress", 50000, 1000000, ("pure",))
	+ PAT("b58_import", 5000, 200000)
	+ SEQ("b58_import", 4000, 200000))
P("C20", "Payloads of 0 to 300 bytes with leading zeros, and texts that are, or nearly are, their encodings; all non-trivial.",
	J("j_base58", 200000, 4000000) + J("j_base58", 40000, 1000000, ABROAD)
	+ JSEQ("j_base58", 30000, 800000))
P("C21", "Parents, derivation paths of 1-3 steps, and injected HMAC values at the range limits; all non-trivial when reached.",
	C("bip32_child bip32_inject", 4000, 120000)
	+ only_cpp(part_curve()) + C("hash_hmac512 hash_sha512 hash_sha256 hash_compress hash_ripemd", 60000, 1500000, ("pure",))
	+ PAT("bip32_child bip32_inject", 1000, 30000)
	+ SEQ("bip32_child bip32_inject", 500, 20000))
P("C22", "Prefixes and 5-bit groups up to the length limit, and texts that are, or nearly are, their encodings; texts with one to four wrong characters; all non-trivial.",
	J("j_bech32", 300000, 6000000) + J("j_bech32errors", 60000, 2000000) + J("j_bech32", 60000, 1500000, ABROAD)
	+ JSEQ("j_bech32", 30000, 1000000))
P("C23", "Versions and programs of legal and near-legal lengths, and texts that are, or nearly are, their addresses; all non-trivial.",
	J("j_segwit", 300000, 6000000) + J("j_segwit", 60000, 1500000, ABROAD)
	+ JSEQ("j_segwit", 30000, 1000000))
P("C24", "Pairs of equal and nearly equal 32-byte values; all non-trivial.",
	C("hash_value", 2000000, 5000000, ("pure",)) + J("j_hashvalue", 300000, 5000000) + J("j_hashvalue", 60000, 1500000, ABROAD)
	+ PAT("hash_value", 200000, 1000000)
	+ SEQ("hash_value", 50000, 1000000, ("pure",)) + JSEQ("j_hashvalue", 30000, 1000000))
P("C31", "Operands laid out in one array with gaps and arbitrary surrounding contents (numbers, field elements, points, scratch space); non-trivial as for each operation.",
	J("j_arith j_misc", 300000, 10000000, ALL) + J("j_reciprocal", 20000, 500000, ALL) + J("j_field", 150000, 6000000, ALL)
	+ J("j_group j_pointmisc", 20000, 500000, ALL) + J("j_multiply", 1000, 50000, ALL))
STEP, INSTR = ("ctstep", "ctstepasm", "ctstepfast", "ctstepfastasm"), ("ctclang", "ctclangasm")
P("C25", "Pairs of runs of one operation on operands (including enable flags) that differ only in secrets; non-trivial if the operands differ.",
	C("ct_small", 1500, 100000, ("ctstep",)) + C("ct_small", 4000, 300000, STEP[1:]) + C("ct_multiply", 120, 10000, ("ctstep", "ctstepfast")) + C("ct_multiply", 1500, 100000, ("ctstepasm", "ctstepfastasm"))
	+ C("ct_point", 100, 3000, ("ctstepasm", "ctstepfastasm")) + C("ct_big", 0, 60, ("ctstepfastasm",))
	+ C("ct_small ct_multiply", 50000, 2000000, INSTR + ("ctgcc",)) + C("ct_point", 20000, 1000000, INSTR + ("ctgcc",)) + C("ct_big", 1500, 100000, INSTR + ("ctgcc",)))
P("C26", "Pairs of runs of one operation on operands (including enable flags) that differ only in secrets, in a copy of the library rewritten to record its branches and array positions; non-trivial if the operands differ.",
	J("j_ctsmall", 200000, 5000000, ("javada",)) + J("j_ctpoint", 40000, 1000000, ("javada",)) + J("j_ctbig", 600, 40000, ("javada",)))
SAN = ("asan", "asanasm", "gasan")
P("C27", "One call of any public C++ operation, its operands each in memory of their own with guarded, poisoned or misaligned surroundings, run repeatedly over differently filled memory; random sequences of value operations under sanitizers; non-trivial if the operands are not all zero.",
	C("mem_ops", 40000, 3000000, SAN + ("pure", "fastasm", "pattern", "patternasm", "zeroinit")) + C("msan_ops", 150000, 5000000, ("msan",))
	+ crashes(C("uint_arith uint_misc", 100000, 3000000, SAN) + C("uint_reciprocal", 10000, 300000, SAN)
	+ C("field_arith field_construct", 30000, 1000000, SAN) + C("point_add point_misc", 2000, 60000, SAN) + C("point_multiply", 400, 15000, SAN)
	+ C("ecdsa_sign ecdsa_verify ecdsa_hmac", 300, 15000, SAN)
	+ C("hash_sha256 hash_sha512 hash_ripemd hash_keccak hash_hmac", 20000, 1000000, ("asan", "gasan")) + C("hash_stream256 hash_stream512", 10000, 500000, ("asan", "gasan"))
	+ C("b58_export b58_import", 2000, 100000, ("asan", "gasan")) + C("bip32_child", 300, 15000, ("asan", "gasan"))))
P("C28", "Calls of any public operation over shared operands, repeated in other orders, after failing calls, in fresh processes, and from several threads; non-trivial as labelled.",
	C("pure_history", 20000, 3000000, ("fast", "fastasm", "asm")) + C("pure_history_slow", 1500, 60000, ("fast", "fastasm"))
	+ C("pure_threads", 3000, 200000, ("tsan", "tsanasm", "fast", "fastasm"), racy=True) + C("pure_threads_slow", 150, 6000, ("tsan", "tsanasm", "fast"), racy=True)
	+ J("j_history", 20000, 1000000) + J("j_history_slow", 2000, 100000) + J("j_threads", 2000, 150000, racy=True) + J("j_threads_slow", 600, 30000, racy=True))
P("C30", "Calls of the assembly routines and of every public operation built on them, with arbitrary caller-saved and callee-saved registers, flags and stack alignment as the calling convention allows; non-trivial as labelled.",
	C("abi_routines", 1000000, 30000000, ("asm", "fastasm", "debugasm")) + C("abi_ops", 30000, 2000000, ("asm", "fastasm", "debugasm")) + C("mem_ops", 60000, 2000000, ("asm", "fastasm", "debugasm")))
P("C29", "One call of any public operation, made in eighteen builds of the C++ library and in Java; all non-trivial.",
	C("cfg_ops", 60000, 4000000, ("cfg",)) + C("cfg_java", 60000, 3000000, ("xjava",)) + C("cfg_java", 20000, 1000000, ("xjavada",)))
P("C33", "A link order of the library's files, packaging and compiler settings, then the first calls that a new program makes; the first calls in a new Java process; non-trivial if the order is not the usual one (Java: all).",
	C("start_cpp", 1500, 40000, ("start",)) + C("start_java", 1200, 30000, ("jstart",)))
P("C32", "Calls of every public Java function with at least one null, wrongly sized or ill-formed argument; all non-trivial.",
	J("j_refusals", 70000, 4000000, ALL) + J("j_refusals", 20000, 1000000, ABROAD))
P("C35", "Pairs of runs of one operation, in a build that counts operations, on operands that differ only in their values, and calls of any public operation in that and in seventeen other builds; non-trivial if the operands differ.",
	C("ct_small ct_multiply ct_point", 60000, 2000000, ("ctcount", "ctcountasm", "ctcountdbg")) + C("ct_big", 4000, 300000, ("ctcount", "ctcountasm", "ctcountdbg")) + C("cfg_ops", 30000, 1000000, ("cfg",)))
P("C36", "Calls in which one object stands for two or more operands, or byte regions overlap; all non-trivial.",
	C("alias_cheap", 150000, 6000000, ("pure", "asm", "fast")) + C("alias_ecdsa", 5000, 300000, ("pure", "asm")) + J("j_alias", 60000, 3000000) + J("j_aliasecdsa", 2000, 100000))
P("C37", "Calls of the helpers; non-trivial if source and destination overlap, the character is a digit, or a number is stored.",
	C("utils", 2000000, 100000000, ("pure", "fast", "asan"))
	+ SEQ("utils", 50000, 2000000, ("pure", "fast")))
P("C38", "Calls of every Java array operation that checks preconditions with assertions, three in four with one broken; non-trivial if one is broken.",
	J("j_assertions", 500000, 20000000) + J("j_assertions", 30000, 1000000, ("javaint",)))
P("C39", "Runs of the operation counting program, once or twice, with what the library counts scaled, shifted and weighted by the functions called; non-trivial if changed in one of these ways.",
	C("opcount_report", 500, 20000, ("opcount", "opcountclang")) + C("opcount_report", 3000, 200000, ("opcountasm",)))
P("C34", "Calls of every C++ function that checks a precondition, mostly with exactly one precondition broken; non-trivial if one is broken. Valid calls of every operation with extreme values (as for the other properties), which must not be stopped.",
	C("assert_calls", 400000, 10000000, ("pure", "asm", "fast", "fastasm", "debug", "debugasm"))
	+ crashes(only_cpp(part_curve() + part_inverse_n()) + C("point_misc", 6000, 200000) + C("ecdsa_sign ecdsa_inject_point", 5000, 150000) + C("ecdsa_verify", 1500, 60000) + C("bip32_child bip32_inject", 800, 30000)
	+ C("b58_export b58_import", 4000, 120000) + C("hash_compress hash_hmac hash_keccak hash_ripemd hash_stream256 hash_stream512 hash_value", 20000, 500000, ("pure",))))
