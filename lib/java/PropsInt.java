package pbt;

import static pbt.Fail.require;
import io.nayuki.bitcoin.crypto.Int256Math;
import java.math.BigInteger;
import java.util.Arrays;

/** C01-C04 and C31 for Int256Math. */
final class PropsInt {
	private static String h(BigInteger x) { return x.toString(16); }
	private static int b(boolean x) { return x ? 1 : 0; }

	/** Which regions the operands x, y, z share: g[i] is the region of operand i. */
	private static int[] alias3(Src s) {
		int y = s.chance(1, 5) ? 0 : 1, n = y + 1;
		int z = s.weighted(4, 3, 2) == 0 ? n : s.lt(n);
		return new int[]{0, y, z, Math.max(n, z + 1)};
	}
	private static int[] alias2(Src s) { int z = s.flag() ? 1 : 0; return new int[]{0, z, z + 1}; }
	private static int[] sizes(int n, int temp) {
		int[] r = new int[n + (temp > 0 ? 1 : 0)];
		Arrays.fill(r, 8);
		if (temp > 0) r[n] = temp;
		return r;
	}

	static void arith(Src s) {
		int op = s.lt(4);
		boolean en = !s.chance(1, 4);
		int[] g = op < 2 ? alias3(s) : alias2(s);
		int z = op < 2 ? g[2] : g[1], n = g[g.length - 1];
		BigInteger x = Gen.u256(s), y = op < 2 && g[1] != 0 ? Gen.related(s, x) : x;
		Arr a = new Arr(s, sizes(n, 0));
		a.put(0, x);
		if (op < 2) a.put(g[1], y);
		a.ready();
		int xo = a.off[0], zo = a.off[z];
		BigInteger exp;
		int ret = 0, expRet = 0;
		String name;
		switch (op) {
			case 0: name = "uintAdd"; ret = Int256Math.uintAdd(a.v, xo, a.off[g[1]], b(en), zo); exp = en ? x.add(y) : x; expRet = b(exp.bitLength() > 256); break;
			case 1: name = "uintSubtract"; ret = Int256Math.uintSubtract(a.v, xo, a.off[g[1]], b(en), zo); exp = en ? x.subtract(y) : x; expRet = b(exp.signum() < 0); break;
			case 2: name = "uintShiftLeft1"; ret = Int256Math.uintShiftLeft1(a.v, xo, zo); exp = x.shiftLeft(1); expRet = b(x.testBit(255)); break;
			default: name = "uintShiftRight1"; Int256Math.uintShiftRight1(a.v, xo, b(en), zo); exp = en ? x.shiftRight(1) : x;
		}
		exp = exp.mod(Ref.T256);
		s.note("%s x=%s y=%s enable=%b regions=%s", name, h(x), h(y), en, Arrays.toString(g));
		s.label(name + (expRet == 1 ? " carry" : ""));
		if (!exp.equals(x)) s.nontrivial();
		require(ret == expRet, "%s returned %d, expected %d", name, ret, expRet);
		require(a.get(z).equals(exp), "%s gave %s, expected %s", name, h(a.get(z)), h(exp));
		a.check(name, z, 8);
	}

	static void misc(Src s) { misc(s, 6); }
	static void core(Src s) { misc(s, 3); }
	private static void misc(Src s, int ops) {
		BigInteger x = Gen.u256(s), y = Gen.related(s, x);
		boolean en = s.flag(), same = s.chance(1, 8);
		if (same) y = x;
		int yi = same ? 0 : 1;
		int op = s.lt(ops);
		s.note("op %d x=%s y=%s enable=%b", op, h(x), h(y), en);
		if (!x.equals(y)) s.nontrivial();
		Arr a = new Arr(s, 8, 8);
		a.put(0, x);
		a.put(yi, y);
		a.ready();
		int xo = a.off[0], yo = a.off[yi];
		switch (op) {
			case 0:
				Int256Math.replace(a.v, xo, yo, b(en));
				require(a.get(0).equals(en ? y : x), "replace(%d) gave %s", b(en), h(a.get(0)));
				a.check("replace", 0, 8);
				break;
			case 1:
				Int256Math.swap(a.v, xo, yo, b(en));
				require(a.get(0).equals(en ? y : x) && a.get(yi).equals(en ? x : y), "swap(%d) gave %s %s", b(en), h(a.get(0)), h(a.get(yi)));
				a.check("swap", 0, 8, yi, 8);
				break;
			case 2: {
				int e = Int256Math.equalTo(a.v, xo, yo), l = Int256Math.lessThan(a.v, xo, yo), m = Int256Math.lessThan(a.v, yo, xo), r = Int256Math.equalTo(a.v, xo, xo), q = Int256Math.lessThan(a.v, xo, xo);
				require(e == b(x.equals(y)), "equalTo gave %d", e);
				require(l == b(x.compareTo(y) < 0) && m == b(y.compareTo(x) < 0), "lessThan gave %d, reversed %d", l, m);
				require(r == 1 && q == 0, "comparison with itself gave %d %d", r, q);
				a.check("comparisons");
				break;
			}
			case 3: {
				byte[] bytes = Int256Math.uintToBytes(a.v, xo);
				require(Arrays.equals(bytes, Ref.be(x, 32)), "uintToBytes gave %s", Ref.hex(bytes));
				require(Int256Math.uintToHex(a.v, xo).equals(Ref.hex(Ref.be(x, 32))), "uintToHex gave %s", Int256Math.uintToHex(a.v, xo));
				a.check("conversions");
				byte[] keep = bytes.clone();
				Int256Math.bytesToUint(bytes, a.v, yo);
				require(Arrays.equals(bytes, keep), "bytesToUint modified its argument");
				require(a.get(yi).equals(x), "bytesToUint gave %s", h(a.get(yi)));
				a.check("bytesToUint", yi, 8);
				break;
			}
			case 4: {
				char[] t = Ref.hex(Ref.be(x, 32)).toCharArray();
				int mode = s.lt(3);
				for (int i = 0; i < t.length; i++) if (mode == 1 || mode == 2 && s.flag()) t[i] = Character.toUpperCase(t[i]);
				Int256Math.hexToUint(new String(t), a.v, yo);
				require(a.get(yi).equals(x), "hexToUint(%s) gave %s", new String(t), h(a.get(yi)));
				a.check("hexToUint", yi, 8);
				break;
			}
			default: {  // Copy between arrays, and rejected text and lengths
				int[] dst = new int[8 + s.lt(20)], keep = dst.clone();
				int d = s.lt(dst.length - 7);
				Int256Math.copy(a.v, xo, dst, d);
				require(Gen.get(dst, d).equals(x), "copy gave %s", h(Gen.get(dst, d)));
				for (int i = 0; i < dst.length; i++) require(i >= d && i < d + 8 || dst[i] == keep[i], "copy wrote word %d", i);
				a.check("copy");
				String t = Ref.hex(Ref.be(x, 32));
				switch (s.lt(5)) {
					case 0: t = t.substring(1); break;
					case 1: t += "0"; break;
					case 2: { int i = s.lt(64); t = t.substring(0, i) + "gG/:@`xX -+\n\0".charAt(s.lt(13)) + t.substring(i + 1); break; }
					case 3: t += "\n"; break;
					default: t = t.substring(0, s.lt(64));
				}
				try {
					Int256Math.hexToUint(t, a.v, yo);
					throw new Fail("hexToUint accepted \"" + t + "\"");
				} catch (IllegalArgumentException e) { a.check("rejected hexToUint"); }
				int len = s.flag() ? 31 + 2 * s.lt(2) : s.lt(32);
				try {
					Int256Math.bytesToUint(new byte[len], a.v, yo);
					throw new Fail("bytesToUint accepted " + len + " bytes");
				} catch (IllegalArgumentException e) { a.check("rejected bytesToUint"); }
			}
		}
	}

	// Only the two moduli that the curve operations and signatures use, and valid values
	static void reciprocalN(Src s) { reciprocal(s, Ref.N); }
	static void reciprocalP(Src s) { reciprocal(s, Ref.P); }

	static void reciprocal(Src s) {
		BigInteger m;
		switch (s.weighted(3, 1, 1, 2, 1, 1)) {
			case 0: m = Gen.u256(s).setBit(0); break;
			case 5: m = Ref.ONE.shiftLeft(2 + s.lt(254)).add(Ref.bi(1 + 2 * s.below(20))); break;
			case 1: m = Ref.N; break;
			case 2: m = Ref.P; break;
			case 3: m = Ref.T256.subtract(Ref.bi(1 + 2 * s.below(40))); break;
			default: m = Ref.bi(3 + 2 * s.below(300));
		}
		reciprocal(s, m.bitLength() < 2 ? Ref.bi(3) : m);
	}

	private static void reciprocal(Src s, BigInteger m) {
		BigInteger x;
		boolean fixed = m == Ref.N || m == Ref.P;
		BigInteger[] prev = fixed ? null : (BigInteger[])s.recall("reciprocal", 1, 2);
		if (prev != null) {
			m = Gen.vary(s, prev[0]).setBit(0);
			if (m.bitLength() < 2) m = Ref.bi(3);
			x = Gen.vary(s, prev[1]).mod(m);
		} else switch (s.weighted(5, 1, 1, 1, 1, 1, 1)) {
			case 0: x = Gen.below(s, m); break;
			case 6: {  // A small odd number, shifted: takes nearly the greatest number of steps
				x = Ref.bi(1 + 2 * s.below(20));
				int most = Math.max(m.bitLength() - x.bitLength(), 0);
				x = x.shiftLeft(s.flag() ? most : s.lt(most + 1));
				if (x.compareTo(m) >= 0) x = x.shiftRight(1).mod(m);
				break;
			}
			case 1: x = m.shiftRight(1).add(Ref.bi(s.below(3))).mod(m); break;
			case 2: x = Ref.ONE.shiftLeft(s.lt(256)).mod(m); break;
			case 3: x = Ref.ZERO; break;
			case 4: x = Gen.u256(s).mod(m); if (x.gcd(m).equals(Ref.ONE)) x = x.modInverse(m); break;
			default: x = m.subtract(Ref.bi(1 + s.below(50))).mod(m);
		}
		boolean reject = !fixed && s.chance(1, 4);
		String why = null;
		if (reject) {
			switch (s.lt(4)) {
				case 0: m = m.clearBit(0); if (s.flag()) m = Gen.u256(s).clearBit(0); why = "even modulus"; break;
				case 1: m = Ref.ONE; x = s.flag() ? Ref.ZERO : Gen.u256(s); why = "modulus 1"; break;
				case 2: x = s.flag() ? m : m.add(Gen.below(s, Ref.T256.subtract(m))); why = "value not below modulus"; break;
				default: {  // A common factor
					BigInteger f = Ref.bi(3 + 2 * s.below(40)), k = Gen.u256(s).divide(f).setBit(0);
					if (k.multiply(f).bitLength() > 256) k = Ref.ONE;
					m = k.multiply(f);
					if (m.equals(f)) m = f.multiply(Ref.bi(7));
					x = f.multiply(Gen.below(s, m.divide(f).subtract(Ref.ONE)).add(Ref.ONE));
					why = "common factor";
					if (x.signum() == 0 || x.compareTo(m) >= 0 || x.gcd(m).equals(Ref.ONE)) { x = f; }
				}
			}
		} else
			for (int i = 0; x.signum() != 0 && !x.gcd(m).equals(Ref.ONE); i++) x = i > 60 ? Ref.ONE : x.add(Ref.ONE).mod(m);
		boolean alias = s.chance(1, 4);
		s.keep("reciprocal", new BigInteger[]{m, x});
		s.note("x=%s m=%s %s", h(x), h(m), reject ? why : "");
		s.label(reject ? "rejected: " + why : x.signum() == 0 ? "zero" : m.bitLength() == 256 ? "full-length modulus" : "shorter modulus");
		if (x.bitLength() > 1) s.nontrivial();
		Arr a = new Arr(s, 8, 8, 8, Int256Math.RECIPROCAL_TEMP_WORDS);
		a.put(0, x);
		a.put(1, m);
		a.ready();
		int z = alias ? 0 : 2;
		if (reject) {
			try {
				Int256Math.reciprocal(a.v, a.off[0], a.off[1], a.off[z], a.off[3]);
				throw new Fail("reciprocal accepted " + why);
			} catch (IllegalArgumentException e) {}
			return;
		}
		Int256Math.reciprocal(a.v, a.off[0], a.off[1], a.off[z], a.off[3]);
		BigInteger exp = x.signum() == 0 ? x : x.modInverse(m);
		require(a.get(z).equals(exp), "reciprocal of %s mod %s gave %s, expected %s", h(x), h(m), h(a.get(z)), h(exp));
		a.check("reciprocal", z, 8, 3, Int256Math.RECIPROCAL_TEMP_WORDS);
	}

	static void field(Src s) { field(s, true); }
	static void fieldCore(Src s) { field(s, false); }  // Without reciprocals (the group law uses none)

	private static void field(Src s, boolean withReciprocal) {
		int op = s.weighted(2, 2, 2, 4, 6, withReciprocal ? 1 : 0);
		boolean binary = op == 0 || op == 1 || op == 4;
		int[] g = binary ? alias3(s) : alias2(s);
		int z = binary ? g[2] : g[1], n = g[g.length - 1];
		BigInteger x, y;
		if (binary && g[1] != 0 && op == 4 && s.chance(1, 3)) { BigInteger[] p = Gen.boundaryPair(s); x = p[0]; y = p[1]; s.label("boundary product"); }
		else if (op == 3 && s.chance(1, 4)) {
			BigInteger t = s.flag() ? Gen.u(s.u64()).shiftRight(s.lt(63)) : Ref.T256.subtract(Ref.P).add(Ref.bi(s.below(4000) - 2000));
			x = t.modPow(Ref.P.add(Ref.ONE).shiftRight(2), Ref.P);
			y = x;
		} else {
			x = Gen.field(s);
			y = s.chance(1, 4) ? Gen.related(s, x).mod(Ref.P) : s.chance(1, 8) ? Ref.P.subtract(x).mod(Ref.P) : Gen.field(s);
		}
		if (binary && g[1] == 0) y = x;
		int[] temps = {Int256Math.FIELD_ADD_TEMP_WORDS, Int256Math.FIELD_SUBTRACT_TEMP_WORDS, Int256Math.FIELD_MULTIPLY2_TEMP_WORDS, Int256Math.FIELD_SQUARE_TEMP_WORDS, Int256Math.FIELD_MULTIPLY_TEMP_WORDS, 0};
		if (op == 5) {  // The inverse of a field element
			Arr a = new Arr(s, 8, 8, 8, Int256Math.RECIPROCAL_TEMP_WORDS);
			a.put(0, x);
			a.put(1, Ref.P);
			a.ready();
			s.note("inverse of %s", h(x));
			Int256Math.reciprocal(a.v, a.off[0], a.off[1], a.off[2], a.off[3]);
			require(a.get(2).equals(x.signum() == 0 ? x : x.modInverse(Ref.P)), "inverse of %s gave %s", h(x), h(a.get(2)));
			a.check("reciprocal", 2, 8, 3, Int256Math.RECIPROCAL_TEMP_WORDS);
			if (x.bitLength() > 1) s.nontrivial();
			return;
		}
		Arr a = new Arr(s, sizes(n, temps[op]));
		a.put(0, x);
		if (binary) a.put(g[1], y);
		a.ready();
		int xo = a.off[0], zo = a.off[z], to = a.off[n];
		BigInteger exp;
		String name;
		switch (op) {
			case 0: name = "fieldAdd"; Int256Math.fieldAdd(a.v, xo, a.off[g[1]], zo, to); exp = x.add(y); break;
			case 1: name = "fieldSubtract"; Int256Math.fieldSubtract(a.v, xo, a.off[g[1]], zo, to); exp = x.subtract(y); break;
			case 2: name = "fieldMultiply2"; Int256Math.fieldMultiply2(a.v, xo, zo, to); exp = x.shiftLeft(1); break;
			case 3: name = "fieldSquare"; Int256Math.fieldSquare(a.v, xo, zo, to); exp = x.multiply(x); break;
			default: name = "fieldMultiply"; Int256Math.fieldMultiply(a.v, xo, a.off[g[1]], zo, to); exp = x.multiply(y); break;
		}
		exp = exp.mod(Ref.P);
		s.note("%s x=%s y=%s regions=%s", name, h(x), h(y), Arrays.toString(g));
		s.label(name);
		if (x.bitLength() > 1 && !exp.equals(x)) s.nontrivial();
		require(a.get(z).equals(exp), "%s gave %s, expected %s", name, h(a.get(z)), h(exp));
		a.check(name, z, 8, n, temps[op]);
	}
	private PropsInt() {}
}
