package pbt;

import static pbt.Fail.require;
import io.nayuki.bitcoin.crypto.CurvePointMath;
import io.nayuki.bitcoin.crypto.Int256Math;
import java.math.BigInteger;
import java.util.Arrays;

/** C38: with assertions enabled, calls that break a checked precondition are stopped, and others run. */
final class PropsAssert {
	private interface Call { void run(int[] v, int[] a); }
	private static final class Op {
		final String name, kinds;  // u: integer, f: field element, p: point, e: enable flag, t: scratch space
		final int temp, weight;
		final Call call;
		Op(int weight, String name, String kinds, int temp, Call call) { this.weight = weight; this.name = name; this.kinds = kinds; this.temp = temp; this.call = call; }
	}
	private static final byte[] SOME = Ref.be(Ref.G.x, 32);
	private static final Op[] OPS = {
		new Op(40, "uintAdd", "uueu", 0, (v, a) -> Int256Math.uintAdd(v, a[0], a[1], a[2], a[3])),
		new Op(40, "uintSubtract", "uueu", 0, (v, a) -> Int256Math.uintSubtract(v, a[0], a[1], a[2], a[3])),
		new Op(30, "uintShiftLeft1", "uu", 0, (v, a) -> Int256Math.uintShiftLeft1(v, a[0], a[1])),
		new Op(30, "uintShiftRight1", "ueu", 0, (v, a) -> Int256Math.uintShiftRight1(v, a[0], a[1], a[2])),
		new Op(40, "replace", "uue", 0, (v, a) -> Int256Math.replace(v, a[0], a[1], a[2])),
		new Op(40, "swap", "uue", 0, (v, a) -> Int256Math.swap(v, a[0], a[1], a[2])),
		new Op(30, "equalTo", "uu", 0, (v, a) -> Int256Math.equalTo(v, a[0], a[1])),
		new Op(30, "lessThan", "uu", 0, (v, a) -> Int256Math.lessThan(v, a[0], a[1])),
		new Op(20, "uintToBytes", "u", 0, (v, a) -> Int256Math.uintToBytes(v, a[0])),
		new Op(20, "bytesToUint", "u", 0, (v, a) -> Int256Math.bytesToUint(SOME.clone(), v, a[0])),
		new Op(20, "hexToUint", "u", 0, (v, a) -> Int256Math.hexToUint(Ref.hex(SOME), v, a[0])),
		new Op(15, "reciprocal", "uuut", Int256Math.RECIPROCAL_TEMP_WORDS, (v, a) -> Int256Math.reciprocal(v, a[0], a[1], a[2], a[3])),
		new Op(40, "fieldAdd", "ffut", Int256Math.FIELD_ADD_TEMP_WORDS, (v, a) -> Int256Math.fieldAdd(v, a[0], a[1], a[2], a[3])),
		new Op(40, "fieldSubtract", "ffut", Int256Math.FIELD_SUBTRACT_TEMP_WORDS, (v, a) -> Int256Math.fieldSubtract(v, a[0], a[1], a[2], a[3])),
		new Op(40, "fieldMultiply2", "fut", Int256Math.FIELD_MULTIPLY2_TEMP_WORDS, (v, a) -> Int256Math.fieldMultiply2(v, a[0], a[1], a[2])),
		new Op(40, "fieldSquare", "fut", Int256Math.FIELD_SQUARE_TEMP_WORDS, (v, a) -> Int256Math.fieldSquare(v, a[0], a[1], a[2])),
		new Op(40, "fieldMultiply", "ffut", Int256Math.FIELD_MULTIPLY_TEMP_WORDS, (v, a) -> Int256Math.fieldMultiply(v, a[0], a[1], a[2], a[3])),
		new Op(30, "twice", "pt", CurvePointMath.TWICE_TEMP_WORDS, (v, a) -> CurvePointMath.twice(v, a[0], a[1])),
		new Op(30, "add", "ppt", CurvePointMath.ADD_TEMP_WORDS, (v, a) -> CurvePointMath.add(v, a[0], a[1], a[2])),
		new Op(4, "multiply", "put", CurvePointMath.MULTIPLY_TEMP_WORDS, (v, a) -> CurvePointMath.multiply(v, a[0], a[1], a[2])),
		new Op(15, "normalize", "pt", CurvePointMath.NORMALIZE_TEMP_WORDS, (v, a) -> CurvePointMath.normalize(v, a[0], a[1])),
		new Op(40, "point replace", "ppe", 0, (v, a) -> CurvePointMath.replace(v, a[0], a[1], a[2])),
		new Op(40, "isOnCurve", "pt", CurvePointMath.ISONCURVE_TEMP_WORDS, (v, a) -> CurvePointMath.isOnCurve(v, a[0], a[1])),
		new Op(40, "isZero", "p", 0, (v, a) -> CurvePointMath.isZero(v, a[0])),
	};
	private static final int[] WEIGHTS = Arrays.stream(OPS).mapToInt(o -> o.weight).toArray();

	private static boolean room(int[] v, long off, int n) { return off >= 0 && off % 8 == 0 && off + n <= v.length; }
	private static boolean field(int[] v, long off) { return room(v, off, 8) && Gen.get(v, (int)off).compareTo(Ref.P) < 0; }
	/** Whether the argument breaks a precondition. */
	private static boolean broken(char kind, int[] v, int a, int temp) {
		switch (kind) {
			case 'u': return !room(v, a, 8);
			case 'f': return !field(v, a);
			case 'p': return !(field(v, a) && field(v, a + 8L) && field(v, a + 16L));
			case 'e': return a != 0 && a != 1;
			default: return !room(v, a, Math.max(temp, 8));
		}
	}
	private static int size(char kind, int temp) { return kind == 'e' ? 0 : kind == 'p' ? 24 : kind == 't' ? Math.max(temp, 8) : 8; }

	static void assertions(Src s) {
		Op o = OPS[s.weighted(WEIGHTS)];
		boolean slow = o.name.equals("multiply");
		int n = o.kinds.length(), sizes = 0;
		int[] size = new int[n], a = new int[n], at = new int[n];
		for (int i = 0; i < n; i++) if ((size[i] = size(o.kinds.charAt(i), o.temp)) > 0) sizes++;
		int[] regions = new int[sizes];
		for (int i = 0, j = 0; i < n; i++) if (size[i] > 0) { at[i] = j; regions[j++] = size[i]; }
		Arr arr = new Arr(s, regions);
		int[] v = arr.v;
		for (int i = 0; i < n; i++) {
			char k = o.kinds.charAt(i);
			if (k == 'e') { a[i] = s.lt(2); continue; }
			a[i] = arr.off[at[i]];
			for (int j = 0; k != 't' && j < size[i]; j += 8) Gen.put(v, a[i] + j, k == 'u' ? Gen.u256(s) : Gen.field(s));
		}
		int b = slow && !s.chance(1, 40) || !s.chance(1, 4) ? s.lt(n) : -1;
		String what = "a valid call";
		if (b >= 0) {
			char k = o.kinds.charAt(b);
			if (k == 'e') {
				what = "enable flag";
				a[b] = s.flag() ? (int)s.u64() : s.flag() ? 2 + s.lt(4) : s.flag() ? -1 - s.lt(4) : Integer.MIN_VALUE >>> s.lt(31);
			} else if ((k == 'f' || k == 'p') && s.chance(2, 5)) {
				what = "field element not reduced";
				BigInteger x = s.flag() ? Ref.P.add(Ref.bi(s.below(20))) : Ref.P.add(Gen.u256(s).mod(Ref.T256.subtract(Ref.P)));
				Gen.put(v, a[b] + (k == 'p' ? 8 * s.lt(3) : 0), x);
			} else {
				int last = v.length - size[b];
				switch (s.lt(4)) {
					case 0: what = "negative offset"; a[b] = s.flag() ? -8 * (1 + s.lt(3)) : s.flag() ? -1 - s.lt(100) : Integer.MIN_VALUE + s.lt(40); break;
					case 1: what = "offset not a multiple of 8"; a[b] += a[b] > 0 && s.flag() ? -1 - s.lt(7) : 1 + s.lt(7); break;
					case 2: what = "offset too near the end"; a[b] = (last & ~7) + 8 + (s.flag() ? 0 : 8 * s.lt(size[b] / 8 + 2)); break;
					default: what = "offset far past the end"; a[b] = s.flag() ? Integer.MAX_VALUE - s.lt(40) : (int)(s.u64() >>> 33);
				}
			}
		}
		boolean bad = false;
		for (int i = 0; i < n; i++) bad |= broken(o.kinds.charAt(i), v, a[i], o.temp);
		if (b >= 0 && !bad) return;  // Not broken after all: the operands may overlap in ways not allowed
		s.note("%s%s of %d words: %s%s", o.name, Arrays.toString(a), v.length, what, b >= 0 ? " (argument " + (b + 1) + ")" : "");
		s.label(what);
		if (bad) s.nontrivial();
		String got = null;
		try {
			o.call.run(v, a);
		} catch (AssertionError e) {
			got = "failed an assertion";
			require(bad, "%s failed an assertion for a valid call: %s", o.name, at(e));
		} catch (IllegalArgumentException e) {
			got = "threw " + e;
			require(o.name.equals("reciprocal") && !bad, "%s threw %s", o.name, e);
		} catch (RuntimeException e) {
			got = "threw " + e;
			require(bad, "%s threw %s for a valid call: %s", o.name, e, at(e));
		}
		if (bad) require("failed an assertion".equals(got), "%s, called with a broken precondition (%s), %s instead of failing an assertion", o.name, what, got == null ? "returned" : got);
	}
	private static String at(Throwable e) {
		StackTraceElement[] t = e.getStackTrace();
		return t.length == 0 ? "?" : t[0].toString();
	}
	private PropsAssert() {}
}
