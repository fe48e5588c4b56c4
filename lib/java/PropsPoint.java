package pbt;

import static pbt.Fail.require;
import io.nayuki.bitcoin.crypto.CurvePointMath;
import java.math.BigInteger;
import java.util.Arrays;

/** C05-C07 and C31 for CurvePointMath. */
final class PropsPoint {
	private static String str(BigInteger[] p) { return "(" + p[0].toString(16) + ", " + p[1].toString(16) + ", " + p[2].toString(16) + ")"; }

	static void twice(Src s) {
		Ref.Pt p = Gen.point(s, true);
		BigInteger[] c = Gen.proj(p, s.chance(1, 3) ? Gen.scaleForTwice(s, p) : Gen.scale(s));
		s.note("twice %s", str(c));
		if (!p.inf() && !c[2].equals(Ref.ONE)) s.nontrivial();
		Arr a = new Arr(s, 24, CurvePointMath.TWICE_TEMP_WORDS);
		a.put(0, c);
		a.ready();
		CurvePointMath.twice(a.v, a.off[0], a.off[1]);
		Ref.Pt got = Gen.toPt(a.v, a.off[0], "twice"), exp = Ref.add(p, p);
		require(got.same(exp), "twice gave %s, expected %s", got, exp);
		a.check("twice", 0, 24, 1, CurvePointMath.TWICE_TEMP_WORDS);
	}
	static void add(Src s) {
		Ref.Pt p = Gen.point(s, true), q;
		switch (s.weighted(5, 3, 3, 1, 1, 1)) {
			case 0: q = Gen.point(s, true); break;
			case 1: q = p; s.label("P + P"); break;
			case 2: q = Ref.neg(p); s.label("P + (-P)"); break;
			case 3: q = Ref.INF; break;
			case 4: q = Ref.add(p, p); break;
			default: q = p.inf() ? p : new Ref.Pt(p.x.multiply(Ref.BETA).mod(Ref.P), p.y); s.label("same y");
		}
		BigInteger k = Gen.scale(s);
		boolean solved = s.chance(1, 3);
		if (solved) s.label("an intermediate value is structured");
		BigInteger[] cp = Gen.proj(p, k), cq = Gen.proj(q, solved ? Gen.scaleForAdd(s, p, q, k) : s.chance(1, 4) ? k : Gen.scale(s));
		s.note("p=%s q=%s", str(cp), str(cq));
		if (!p.inf() && !q.inf() && !(cp[2].equals(Ref.ONE) && cq[2].equals(Ref.ONE))) s.nontrivial();
		Arr a = new Arr(s, 24, 24, CurvePointMath.ADD_TEMP_WORDS);
		a.put(0, cp);
		a.put(1, cq);
		a.ready();
		CurvePointMath.add(a.v, a.off[0], a.off[1], a.off[2]);
		Ref.Pt got = Gen.toPt(a.v, a.off[0], "add"), exp = Ref.add(p, q);
		require(got.same(exp), "add gave %s, expected %s", got, exp);
		a.check("add", 0, 24, 2, CurvePointMath.ADD_TEMP_WORDS);
		// Once more with the result, which is in no particular representation
		a.ready();
		CurvePointMath.add(a.v, a.off[0], a.off[1], a.off[2]);
		got = Gen.toPt(a.v, a.off[0], "second add");
		exp = Ref.add(exp, q);
		require(got.same(exp), "second add gave %s, expected %s", got, exp);
		a.check("second add", 0, 24, 2, CurvePointMath.ADD_TEMP_WORDS);
	}
	/** Other curves y^2 = x^3 + b: the documented algorithms do not use b, and untrusted keys lie on any of them. */
	static void otherCurve(Src s) {
		Ref.Pt p = new Ref.Pt(Gen.field(s), s.chance(1, 5) ? Ref.ZERO : Gen.field(s)), p2 = Ref.add(p, p), q;
		switch (s.lt(6)) {
			case 0: q = p; s.label("P + P"); break;
			case 1: q = Ref.neg(p); s.label("P + (-P)"); break;
			case 2: q = Ref.INF; break;
			case 3: q = p2; break;
			case 4: q = Ref.add(p2, p); break;
			default: q = new Ref.Pt(p.x.multiply(Ref.BETA).mod(Ref.P), p.y);
		}
		BigInteger[] cp = Gen.proj(p, Gen.scale(s)), cq = Gen.proj(q, Gen.scale(s));
		s.note("other curve: p=%s q=%s", str(cp), str(cq));
		if (p.y.signum() == 0) s.label("y = 0");
		s.nontrivial();
		Arr a = new Arr(s, 24, 24, CurvePointMath.ADD_TEMP_WORDS);
		a.put(0, cp);
		a.put(1, cq);
		a.ready();
		CurvePointMath.add(a.v, a.off[0], a.off[1], a.off[2]);
		Ref.Pt got = Gen.affine(a.v, a.off[0], "add"), exp = Ref.add(p, q);
		require(got.same(exp), "add gave %s, expected %s", got, exp);
		CurvePointMath.twice(a.v, a.off[0], a.off[2]);
		exp = Ref.add(exp, exp);
		got = Gen.affine(a.v, a.off[0], "twice");
		require(got.same(exp), "twice gave %s, expected %s", got, exp);
		CurvePointMath.add(a.v, a.off[0], a.off[1], a.off[2]);
		exp = Ref.add(exp, q);
		got = Gen.affine(a.v, a.off[0], "second add");
		require(got.same(exp), "second add gave %s, expected %s", got, exp);
		a.put(0, cp);
		CurvePointMath.twice(a.v, a.off[0], a.off[2]);
		got = Gen.affine(a.v, a.off[0], "twice");
		require(got.same(p2), "twice gave %s, expected %s", got, p2);
	}
	static void group(Src s) { if (s.chance(1, 3)) twice(s); else add(s); }

	static void multiply(Src s) {
		Ref.Pt p = Gen.point(s, true);
		boolean base = s.chance(1, 4);
		if (base) p = Ref.G;
		BigInteger k = Gen.anyScalar(s);
		BigInteger[] c = Gen.proj(p, base ? Ref.ONE : Gen.scale(s));
		s.note("%s times %s", str(c), k.toString(16));
		if (!p.inf() && k.bitLength() > 4) s.nontrivial();
		if (k.compareTo(Ref.N) >= 0) s.label("scalar at or above n");
		Arr a = new Arr(s, 24, 8, CurvePointMath.MULTIPLY_TEMP_WORDS);
		a.put(0, c);
		a.put(1, k);
		a.ready();
		CurvePointMath.multiply(a.v, a.off[0], a.off[1], a.off[2]);
		Ref.Pt got = Gen.toPt(a.v, a.off[0], "multiply"), exp = p.same(Ref.G) ? Ref.mulG(k.mod(Ref.N)) : Ref.mul(p, k.mod(Ref.N));
		require(got.same(exp), "multiply gave %s, expected %s", got, exp);
		a.check("multiply", 0, 24, 2, CurvePointMath.MULTIPLY_TEMP_WORDS);
	}

	static void normalize(Src s) {
		Ref.Pt p = Gen.point(s, true);
		BigInteger[] c = Gen.proj(p, Gen.scale(s));
		boolean any = s.chance(1, 3);
		if (any) {  // Any coordinates
			c = new BigInteger[3];
			for (int i = 0; i < 3; i++) c[i] = s.chance(1, 4) ? Ref.ZERO : s.chance(1, 3) ? Gen.sparse(s) : Gen.field(s);
			s.label("arbitrary coordinates");
		}
		s.note("normalize %s", str(c));
		if (c[2].bitLength() > 1) s.nontrivial();
		Arr a = new Arr(s, 24, CurvePointMath.NORMALIZE_TEMP_WORDS);
		a.put(0, c);
		a.ready();
		boolean zero = c[0].signum() == 0 && c[1].signum() != 0 && c[2].signum() == 0;
		int z = CurvePointMath.isZero(a.v, a.off[0]);
		require(z == (zero ? 1 : 0), "isZero(%s) is %d", str(c), z);
		a.check("isZero");
		CurvePointMath.normalize(a.v, a.off[0], a.off[1]);
		a.check("normalize", 0, 24, 1, CurvePointMath.NORMALIZE_TEMP_WORDS);
		BigInteger x = Gen.get(a.v, a.off[0]), y = Gen.get(a.v, a.off[0] + 8), w = Gen.get(a.v, a.off[0] + 16);
		if (c[2].signum() != 0) {
			BigInteger i = c[2].modInverse(Ref.P);
			require(w.equals(Ref.ONE) && x.equals(c[0].multiply(i).mod(Ref.P)) && y.equals(c[1].multiply(i).mod(Ref.P)), "normalize gave (%s, %s, %s)", x.toString(16), y.toString(16), w.toString(16));
		} else if (zero)
			require(x.signum() == 0 && y.equals(Ref.ONE) && w.signum() == 0, "zero normalized to (%s, %s, %s)", x.toString(16), y.toString(16), w.toString(16));
		z = CurvePointMath.isZero(a.v, a.off[0]);
		require(z == (zero ? 1 : 0), "isZero after normalizing is %d", z);
		int[] once = Arrays.copyOfRange(a.v, a.off[0], a.off[0] + 24);
		CurvePointMath.normalize(a.v, a.off[0], a.off[1]);
		require(Arrays.equals(once, Arrays.copyOfRange(a.v, a.off[0], a.off[0] + 24)), "normalize is not idempotent");
	}

	static void onCurve(Src s) {
		BigInteger x, y;
		Ref.Pt p = Gen.point(s, false);
		switch (s.weighted(3, 1, 2, 2, 1, 1)) {
			case 0: x = p.x; y = p.y; break;
			case 1: x = Gen.field(s); y = Gen.field(s); break;
			case 2: x = p.x; y = Gen.related(s, p.y).mod(Ref.P); break;
			case 3: x = Gen.related(s, p.x).mod(Ref.P); y = p.y; break;
			case 4: x = Ref.bi(s.below(3)); y = Ref.bi(s.below(3)); break;
			default: x = p.y; y = p.x;
		}
		boolean zero = s.chance(1, 12);
		BigInteger[] c = {x, y, Ref.ONE};
		if (zero) c = new BigInteger[]{Ref.ZERO, Ref.ONE, Ref.ZERO};
		s.note("%s on curve?", str(c));
		Arr a = new Arr(s, 24, CurvePointMath.ISONCURVE_TEMP_WORDS);
		a.put(0, c);
		a.ready();
		int r = CurvePointMath.isOnCurve(a.v, a.off[0], a.off[1]);
		boolean exp = !zero && Ref.onCurve(x, y);
		if (!zero) s.nontrivial();
		s.label(exp ? "on curve" : "off curve");
		require(r == (exp ? 1 : 0), "isOnCurve is %d", r);
		a.check("isOnCurve", 1, CurvePointMath.ISONCURVE_TEMP_WORDS);
		r = CurvePointMath.isZero(a.v, a.off[0]);
		require(r == (zero ? 1 : 0), "isZero is %d", r);
	}

	static void replaceCopy(Src s) {
		BigInteger[] p = Gen.proj(Gen.point(s, true), Gen.scale(s)), q = Gen.proj(Gen.point(s, true), Gen.scale(s));
		boolean en = s.flag(), same = s.chance(1, 8);
		int qi = same ? 0 : 1;
		if (same) q = p;
		s.note("replace %s %s %b", str(p), str(q), en);
		s.nontrivial();
		Arr a = new Arr(s, 24, 24);
		a.put(0, p);
		a.put(qi, q);
		a.ready();
		CurvePointMath.replace(a.v, a.off[0], a.off[qi], en ? 1 : 0);
		for (int k = 0; k < 3; k++) require(Gen.get(a.v, a.off[0] + 8 * k).equals((en ? q : p)[k]), "replace(%b) is wrong", en);
		a.check("replace", 0, 24);
		int[] dst = new int[24 + s.lt(9)];
		int d = s.lt(dst.length - 23);
		CurvePointMath.copy(a.v, a.off[0], dst, d);
		for (int i = 0; i < dst.length; i++) require(dst[i] == (i >= d && i < d + 24 ? a.v[a.off[0] + i - d] : 0), "copy is wrong at word %d", i);
		int[] g = CurvePointMath.getBasePoint(), e = new int[24];
		Gen.put(e, 0, Ref.G.x);
		Gen.put(e, 8, Ref.G.y);
		Gen.put(e, 16, Ref.ONE);
		require(Arrays.equals(g, e), "getBasePoint is wrong");
		Arrays.fill(g, s.u32());  // Must not reach the library's copy
		require(Arrays.equals(CurvePointMath.getBasePoint(), e), "getBasePoint hands out the library's own array");
	}
	static void misc(Src s) {
		switch (s.weighted(4, 3, 2)) {
			case 0: normalize(s); break;
			case 1: onCurve(s); break;
			default: replaceCopy(s);
		}
	}
	private PropsPoint() {}
}
