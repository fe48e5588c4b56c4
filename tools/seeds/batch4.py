exec(open("/verif/tools/seeds/batch3.py").read().split('# --- Java arithmetic and curve ---')[0])
SEEDS = []
AGENT = r'''// Hashes the bytecode positions executed between Demo.trace(true) and Demo.trace(false)
#include <jvmti.h>
#include <string.h>
#include <stdlib.h>
static jvmtiEnv *ti;
static unsigned long long h;
static int on, n;
static jmethodID seen[4096];
static void JNICALL step(jvmtiEnv *e, JNIEnv *j, jthread t, jmethodID m, jlocation l) {
	if (!on) return;
	int i = 0;
	while (i < n && seen[i] != m) i++;
	if (i == n && n < 4096) seen[n++] = m;
	h = (h ^ ((unsigned long long)i << 32 ^ (unsigned long long)l)) * 0x100000001B3ULL;
	h ^= h >> 29;
}
JNIEXPORT void JNICALL Java_Demo_begin(JNIEnv *j, jclass c) {
	jthread t;
	(*ti)->GetCurrentThread(ti, &t);
	h = 0xCBF29CE484222325ULL;
	n = 0;
	on = 1;
	(*ti)->SetEventNotificationMode(ti, JVMTI_ENABLE, JVMTI_EVENT_SINGLE_STEP, t);
}
JNIEXPORT jlong JNICALL Java_Demo_end(JNIEnv *j, jclass c) {
	jthread t;
	on = 0;
	(*ti)->GetCurrentThread(ti, &t);
	(*ti)->SetEventNotificationMode(ti, JVMTI_DISABLE, JVMTI_EVENT_SINGLE_STEP, t);
	return (jlong)h;
}
JNIEXPORT jint JNICALL Agent_OnLoad(JavaVM *vm, char *o, void *r) {
	if ((*vm)->GetEnv(vm, (void **)&ti, JVMTI_VERSION_1_2) != JNI_OK) return 1;
	jvmtiCapabilities c;
	memset(&c, 0, sizeof(c));
	c.can_generate_single_step_events = 1;
	(*ti)->AddCapabilities(ti, &c);
	jvmtiEventCallbacks cb;
	memset(&cb, 0, sizeof(cb));
	cb.SingleStep = step;
	(*ti)->SetEventCallbacks(ti, &cb, sizeof(cb));
	return 0;
}
'''
JCT_SH = r'''#!/bin/bash
# Run in /repo after its build: the bytecode executed must not depend on the secret
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$t" -delete' EXIT
jh=$(dirname "$(dirname "$(readlink -f "$(command -v javac)")")")
gcc -shared -fPIC -O2 -I"$jh/include" -I"$jh/include/linux" "$here/agent.c" -o "$t/libagent.so" || exit 2
javac -nowarn -encoding UTF-8 -d "$t" $(ls java/io/nayuki/bitcoin/crypto/*.java | grep -v Test) "$here/Demo.java" || exit 2
timeout 280 java -Xint -da -agentpath:"$t/libagent.so" -cp "$t" Demo "$t/libagent.so"
r=$?
[ $r -gt 1 ] && exit 3
exit $r
'''
JCT_DEMO = r'''import io.nayuki.bitcoin.crypto.*;
public class Demo {
	static native void begin();
	static native long end();
	static int[] num(String... t) { int[] r = new int[8 * t.length]; for (int i = 0; i < t.length; i++) Int256Math.hexToUint(t[i], r, 8 * i); return r; }
	static final Sha256Hash HASH = new Sha256Hash(new byte[]{1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0});
	// Secrets in the first words of an array with room
	static long run(int e, String... secret) {
		int[] v = new int[1000];
		int[] k = num(secret);
		System.arraycopy(k, 0, v, 0, k.length);
		int[] r = new int[8], s = new int[8];
		begin();
		@C
		return end();
	}
	public static void main(String[] a) {
		System.load(a[0]);
		run(@EA@A); run(@EB@B);  // Load classes
		long x = run(@EA@A), y = run(@EB@B), z = run(@EA@A);
		System.out.println(x == z ? x == y ? "same" : "different" : "unstable");
		System.exit(x != z ? 2 : x == y ? 0 : 1);
	}
}
'''
def JCT(id, edits, needs, breaks, secrets, body, en=(1, 1)):
	q = ["".join(', "%s"' % H(x) for x in s) for s in secrets]
	SEEDS.append(dict(id=id, property="C26", lang="sh", edits=[(JD + f + ".java", o, n) for f, o, n in edits], needs=needs, breaks=breaks, sh=JCT_SH,
		files={"agent.c": AGENT, "Demo.java": JCT_DEMO.replace("@A", q[0]).replace("@B", q[1]).replace("@EA", str(en[0])).replace("@EB", str(en[1])).replace("@C", body)}))
MULP = "System.arraycopy(CurvePointMath.getBasePoint(), 0, v, 8, 24); CurvePointMath.multiply(v, 8, 0, 40);"
SIGN = "Ecdsa.sign(java.util.Arrays.copyOfRange(k, 0, 8), HASH, java.util.Arrays.copyOfRange(k, 8, 16), r, s);"
BIGA, BIGB = 0x1234567890ABCDEF << 150 | 5, 0xFEDCBA9876543210 << 160 | 3
JCT("c26-less-early", [(I, "\t\tint result = 0;  // Always 0 or 1\n\t\tfor (int i = 0; i < NUM_WORDS; i++) {\n\t\t\tint a = val[xOff + i];\n\t\t\tint b = val[yOff + i];\n\t\t\tint neq = a ^ b;\n\t\t\tneq = (neq | -neq) >>> 31;  // 0 or 1\n\t\t\tint lt = ((~a & b) | ((~a ^ b) & (a - b))) >>> 31;  // 0 or 1\n\t\t\tresult = (~neq & result) | (neq & lt);\n\t\t}\n\t\treturn result;",
	"\t\tfor (int i = NUM_WORDS - 1; i >= 0; i--) {\n\t\t\tif (val[xOff + i] != val[yOff + i])\n\t\t\t\treturn Integer.compareUnsigned(val[xOff + i], val[yOff + i]) < 0 ? 1 : 0;\n\t\t}\n\t\treturn 0;")],
	"numbers that differ first in different words", "the comparison stops at the first differing word", [[1, 2], [1 << 200, 2]], "Int256Math.lessThan(v, 0, 8);")
JCT("c26-replace-branch", [(I, "\t\tint mask = -enable;\n\t\tfor (int i = 0; i < NUM_WORDS; i++)\n\t\t\tval[xOff + i] = (val[yOff + i] & mask) | (val[xOff + i] & ~mask);", "\t\tif (enable == 1)\n\t\t\tcopy(val, yOff, val, xOff);")],
	"a copy that is enabled and one that is not", "the flag decides a branch", [[1, 2], [1, 2]], "Int256Math.replace(v, 0, 8, e);", en=(0, 1))
JCT("c26-swap-skip", [(I, "\t\tint mask = -enable;\n\t\tfor (int i = 0; i < NUM_WORDS; i++) {\n\t\t\tint a = val[xOff + i];\n", "\t\tint mask = -enable;\n\t\tfor (int i = 0; i < NUM_WORDS && mask != 0; i++) {\n\t\t\tint a = val[xOff + i];\n")],
	"values whose reciprocal takes different swaps", "a swap that is not enabled is skipped", [[BIGA], [BIGB]], 'Int256Math.hexToUint("%s", v, 8); Int256Math.reciprocal(v, 0, 8, 16, 24);' % H(N))
JCT("c26-zero-word", [(I, "\t\t\tint carry = 0;\n\t\t\tfor (int j = 0; j < NUM_WORDS; j++) {\n\t\t\t\tlong sum = (val[xOff + i]", "\t\t\tif (val[xOff + i] == 0)\n\t\t\t\tcontinue;\n\t\t\tint carry = 0;\n\t\t\tfor (int j = 0; j < NUM_WORDS; j++) {\n\t\t\t\tlong sum = (val[xOff + i]")],
	"a factor with a zero word", "the row of the product is skipped", [[2**256 - 2**40, 77], [2**255 + (2**96 - 1), 77]], "Int256Math.fieldMultiply(v, 0, 8, 16, 24);")
JCT("c26-reciprocal-stop", [(I, "\t\t\tassert (val[aOff] & 1) == 1;\n", "\t\t\tif (i >= NUM_WORDS * 32 && isZero(val, bOff) == 1)\n\t\t\t\tbreak;\n\t\t\tassert (val[aOff] & 1) == 1;\n")],
	"values whose reciprocal converges after different numbers of steps", "the loop ends when it has converged", [[BIGA], [3]], 'Int256Math.hexToUint("%s", v, 8); Int256Math.reciprocal(v, 0, 8, 16, 24);' % H(N))
JCT("c26-skip-digit", [(C, "\t\t\tCurvePointMath.add(val, pOff, qOff, newTempOff);\n\t\t\tif (i != 0) {", "\t\t\tif (inc != 0)\n\t\t\t\tCurvePointMath.add(val, pOff, qOff, newTempOff);\n\t\t\tif (i != 0) {")],
	"scalars with different numbers of zero digits", "the addition is skipped for zero digits", [[0x11], [0x10]], MULP)
JCT("c26-leading-zeros", [(C, "\t\t\tif (i != 0) {\n\t\t\t\tfor (int j = 0; j < tableBits; j++)", "\t\t\tif (i != 0 && isZero(val, pOff) == 0) {\n\t\t\t\tfor (int j = 0; j < tableBits; j++)")],
	"scalars of different lengths", "the doublings of the leading zeros are skipped", [[0x5], [0x500]], MULP)
JCT("c26-normalize-zero", [(C, "\t\tint nonzero = Int256Math.isZero(val, pOff + ZCOORD) ^ 1;\n", "\t\tint nonzero = Int256Math.isZero(val, pOff + ZCOORD) ^ 1;\n\t\tif (nonzero == 1 && val[pOff + ZCOORD] == 1 && Int256Math.equalTo(val, pOff + ZCOORD, pOff + ZCOORD) == 1) {\n\t\t\tint high = 0;\n\t\t\tfor (int i = 1; i < NUM_WORDS; i++)\n\t\t\t\thigh |= val[pOff + ZCOORD + i];\n\t\t\tif (high == 0)\n\t\t\t\treturn;\n\t\t}\n")],
	"a point that is already normalized and one that is not", "normalizing returns early", [[G[0], G[1], 1], [G[0] * 2 % P, G[1] * 2 % P, 2]], "CurvePointMath.normalize(v, 0, 24);")
JCT("c26-order-bit", [(E, "\t\t\tint enable = (y[yOff + (i >>> 5)] >>> (i & 31)) & 1;\n\t\t\tc = Int256Math.uintAdd(x, zOff, xOff, enable, zOff);\n", "\t\t\tint enable = (y[yOff + (i >>> 5)] >>> (i & 31)) & 1;\n\t\t\tif (enable == 0)\n\t\t\t\tcontinue;\n\t\t\tc = Int256Math.uintAdd(x, zOff, xOff, enable, zOff);\n")],
	"private keys with different numbers of one bits", "the conditional addition is skipped", [[3, 0x77], [7, 0x77]], SIGN)
z = 1 << 248
r77 = mul(0x77, G)[0] % N
lo = next(d for d in range(2, 99) if (z + r77 * d) * inv(0x77, N) % N <= N // 2)
hi = next(d for d in range(2, 99) if (z + r77 * d) * inv(0x77, N) % N > N // 2)
JCT("c26-low-s", [(E, "\t\tInt256Math.replace(val, sOff, negSOff, Int256Math.lessThan(val, negSOff, sOff));", "\t\tif (Int256Math.lessThan(val, negSOff, sOff) == 1)\n\t\t\tInt256Math.copy(val, negSOff, val, sOff);")],
	"signatures whose raw s lies on either side of half the order", "the negation is a branch", [[lo, 0x77], [hi, 0x77]], SIGN)
JCT("c26-field-final", [(I, "\t\tuintSubtract(val, zOff, tempOff + 2 * NUM_WORDS, enable, zOff);\n", "\t\tif (enable == 1)\n\t\t\tuintSubtract(val, zOff, tempOff + 2 * NUM_WORDS, enable, zOff);\n")],
	"a product that needs the final subtraction (rare) and one that does not", "the subtraction is a branch", [[P - 1, P - 1], [3, 5]], "Int256Math.fieldMultiply(v, 0, 8, 16, 24);")

# --- Bad arguments ---
TRYX = "try { System.out.println(%s); } catch (Throwable e) { System.out.println(e.getClass().getName()); }\n"
SG2 = 'int[] k = num("%s"), n = num("%s"); int[] r = new int[8], s = new int[8]; Sha256Hash h = new Sha256Hash(new byte[32]);\n' % (H(77), H(99))
J("c32-verify-r-length", "C32", [(E, "if (publicKey.length != CurvePointMath.POINT_WORDS || r.length != NUM_WORDS || s.length != NUM_WORDS)", "if (publicKey.length != CurvePointMath.POINT_WORDS || r.length < NUM_WORDS || s.length < NUM_WORDS)")],
	"a signature number in an array longer than eight words", "it is not refused", 'int[] p = CurvePointMath.getBasePoint(); Sha256Hash h = new Sha256Hash(new byte[32]);\n' + TRYX % "Ecdsa.verify(p, h, new int[9], new int[8])" + TRYX % "Ecdsa.verify(p, h, new int[8], new int[24])")
J("c32-verify-key-order", "C32", [(E, "\t\tObjects.requireNonNull(publicKey);\n\t\tObjects.requireNonNull(msgHash);\n\t\tObjects.requireNonNull(r);\n\t\tObjects.requireNonNull(s);\n\t\tif (publicKey.length", "\t\tObjects.requireNonNull(publicKey);\n\t\tObjects.requireNonNull(r);\n\t\tObjects.requireNonNull(s);\n\t\tif (publicKey.length")],
	"a null hash together with a signature number out of range", "verify answers false instead of refusing the null", 'int[] p = CurvePointMath.getBasePoint();\n' + TRYX % "Ecdsa.verify(p, null, new int[8], new int[8])")
J("c32-sign-out-s", "C32", [(E, "nonce.length != NUM_WORDS || outR.length != NUM_WORDS || outS.length != NUM_WORDS)", "nonce.length != NUM_WORDS || outR.length != NUM_WORDS)")],
	"an array for s that is too short", "r has been stored when copying s fails", SG2 + TRYX % "Ecdsa.sign(k, h, n, r, new int[7])" + "System.out.println(java.util.Arrays.toString(r));")
J("c32-sign-hmac-null", "C32", [(E, "\t\tObjects.requireNonNull(outR);\n\t\tObjects.requireNonNull(outS);\n\t\tif (privateKey.length != NUM_WORDS || outR.length != NUM_WORDS || outS.length != NUM_WORDS)\n\t\t\tthrow new IllegalArgumentException();\n\t\t\n\t\tbyte[] privkeyBytes", "\t\tif (privateKey.length != NUM_WORDS || outR == null || outR.length != NUM_WORDS || outS == null || outS.length != NUM_WORDS)\n\t\t\tthrow new IllegalArgumentException();\n\t\t\n\t\tbyte[] privkeyBytes")],
	"a null output array", "it is reported as an illegal argument instead of a null one", SG2 + TRYX % "Ecdsa.signWithHmacNonce(k, h, null, s)" + TRYX % "Ecdsa.signWithHmacNonce(k, h, r, null)")
J("c32-hex-unicode", "C32", [(I, 'if (!hex.matches("[0-9a-fA-F]{64}"))\n\t\t\tthrow new IllegalArgumentException();\n', 'if (hex.length() != 64)\n\t\t\tthrow new IllegalArgumentException();\n\t\tfor (char c : hex.toCharArray()) {\n\t\t\tif (Character.digit(c, 16) == -1)\n\t\t\t\tthrow new IllegalArgumentException();\n\t\t}\n')],
	"a hexadecimal text with digits of another script", "it is accepted", 'int[] v = new int[8];\n' + TRYX % 'f("\\u0661\\uff12" + new String(new char[62]).replace((char)0, (char)48), v)', extra="\tstatic String f(String t, int[] v) { Int256Math.hexToUint(t, v, 0); return Int256Math.uintToHex(v, 0); }\n")
J("c32-bytes-long", "C32", [(I, "if (b.length != NUM_WORDS * 4)", "if (b.length > NUM_WORDS * 4)")], "fewer than 32 bytes", "they are accepted as a number", 'int[] v = new int[8];\n' + TRYX % 'f(new byte[31], v)', extra="\tstatic String f(byte[] t, int[] v) { Int256Math.bytesToUint(t, v, 0); return Int256Math.uintToHex(v, 0); }\n")
J("c32-reciprocal-even", "C32", [(I, "\t\tif ((val[yOff] & 1) == 0)\n\t\t\tthrow new IllegalArgumentException(\"Modulus must be odd\");\n", "\t\tassert (val[yOff] & 1) == 1 : \"Modulus must be odd\";\n")], "an even modulus, with assertions on or off", "an assertion fails, or a wrong number comes out", 'int[] v = new int[100]; v[0] = 3; v[8] = 10;\n' + TRYX % 'f(v)', extra="\tstatic String f(int[] v) { Int256Math.reciprocal(v, 0, 8, 16, 24); return Int256Math.uintToHex(v, 16); }\n")
J("c32-hash-hmac-key", "C32", [("Sha512", "\t\tObjects.requireNonNull(key);\n\t\tObjects.requireNonNull(msg);\n", "\t\tif (key == null)\n\t\t\tkey = new byte[0];\n\t\tObjects.requireNonNull(msg);\n")], "a null HMAC key", "it counts as an empty key", TRYX % "hex(Sha512.getHmac(null, new byte[3]))")
