package pbt;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;

/** Generators, mirroring lib/cpp/gen.cpp. */
final class Gen {
	private static final int[] WORDS = {0, 1, -1, 0x80000000, 0x7FFFFFFF, -2, 2, 977, 0xFFFFFC2F, 0xFFFFFC2E, 0x10000, 0xFFFF, 0x80000001, 0xFFFF0000};
	private static final BigInteger[] SPECIALS;
	static {
		BigInteger P = Ref.P, N = Ref.N, T = Ref.T256, one = BigInteger.ONE, all = T.subtract(one);
		SPECIALS = new BigInteger[]{BigInteger.ZERO, P, N, T.subtract(P), T.subtract(N), P.shiftRight(1), N.shiftRight(1), P.subtract(N), all,
			one.shiftLeft(255), one.shiftLeft(128), one.shiftLeft(64), one.shiftLeft(32), one.shiftLeft(128).subtract(one), Ref.G.x, Ref.G.y,
			new BigInteger("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72", 16), Ref.BETA, P.subtract(Ref.bi(7)),
			all.divide(Ref.bi(3)), all.divide(Ref.bi(5)), T.subtract(P).pow(2), N.add(one).divide(Ref.bi(3)), P.add(one).shiftRight(2)};
	}
	static int word(Src s) {
		switch (s.weighted(6, 3, 1)) {
			case 0: return WORDS[s.lt(WORDS.length)];
			case 1: return s.u32();
			default: return Src.dict.length == 0 ? s.u32() : (int)Src.dict[s.lt(Src.dict.length)];
		}
	}
	static BigInteger uniform(Src s) {
		BigInteger r = BigInteger.ZERO;
		for (int i = 0; i < 4; i++) r = r.shiftLeft(64).or(u(s.u64()));
		return r;
	}
	static BigInteger u(long x) { return new BigInteger(Long.toUnsignedString(x)); }
	static BigInteger wrap(BigInteger x) { return x.mod(Ref.T256); }
	private static BigInteger delta(Src s, BigInteger b, int n) {
		int d = s.lt(n);
		return wrap(d % 2 != 0 ? b.add(Ref.bi((d + 1) / 2)) : b.subtract(Ref.bi(d / 2)));
	}
	/** An earlier number of a sequence of cases, or one that shares part of it; or null. */
	static BigInteger recallNum(Src s) {
		BigInteger x = (BigInteger)s.recall("number");
		return x == null ? null : vary(s, x);
	}
	/** The same number, usually, or one that shares part of it. */
	static BigInteger vary(Src s, BigInteger x) {
		BigInteger m = BigInteger.ONE.shiftLeft(32 * s.range(1, 7)).subtract(BigInteger.ONE);
		switch (s.weighted(8, 1, 1, 1, 1, 1, 1, 1, 1)) {
			case 0: return x;
			case 8: {  // The same Arrays.hashCode() of its words
				int[] w = new int[8];
				put(w, 0, x);
				int i = s.lt(7), d = s.flag() ? 1 : -1;
				w[i] += d;
				w[i + 1] -= 31 * d;
				return get(w, 0);
			}
			case 1: return x.flipBit(s.lt(256));
			case 2: return wrap(x.add(Ref.bi(1 + s.lt(3))));
			case 3: return x.and(m).or(uniform(s).andNot(m));
			case 4: return uniform(s).and(m).or(x.andNot(m));
			case 5: return x.xor(Ref.bi(1 + s.below(0xFFFFFFFFL)).shiftLeft(32 * s.lt(8)));
			case 6: return wrap(Ref.N.subtract(x));
			default: {
				int i = 32 * s.lt(8), j = 32 * s.lt(8);
				BigInteger w = Ref.bi(0xFFFFFFFFL), d = x.shiftRight(i).xor(x.shiftRight(j)).and(w);
				return i == j ? x : x.xor(d.shiftLeft(i)).xor(d.shiftLeft(j));
			}
		}
	}
	private static BigInteger keep(Src s, BigInteger x) { return s.keep("number", x); }

	static BigInteger u256(Src s) {
		BigInteger r = recallNum(s);
		return r != null ? r : keep(s, u256Fresh(s));
	}
	private static BigInteger u256Fresh(Src s) {
		switch (s.weighted(10, 10, 22, 10, 18, 14, 6, 14, 4, 5)) {
			case 0: return Ref.bi(s.below(20));
			case 1: return Ref.T256.subtract(Ref.bi(1 + s.below(20)));
			case 2: return delta(s, SPECIALS[s.lt(SPECIALS.length)], 41);
			case 3: return delta(s, BigInteger.ONE.shiftLeft(s.lt(256)), 7);
			case 4: {
				BigInteger r = BigInteger.ZERO;
				for (int i = 0; i < 8; i++) r = r.shiftLeft(32).or(Ref.bi(word(s) & 0xFFFFFFFFL));
				return r;
			}
			case 5: return uniform(s);
			case 6: {
				int a = s.lt(257), b = s.lt(257);
				BigInteger r = BigInteger.ONE.shiftLeft(Math.max(a, b)).subtract(BigInteger.ONE.shiftLeft(Math.min(a, b)));
				return s.flag() ? Ref.T256.subtract(BigInteger.ONE).subtract(r) : r;
			}
			case 7: {
				BigInteger r = BigInteger.ZERO;
				for (int i = 0; i < 4; i++) {
					long q;
					switch (s.lt(7)) {
						case 0: q = 0; break;
						case 1: q = -1; break;
						case 2: q = Long.MIN_VALUE; break;
						case 3: q = 0xFFFFFFFFL; break;
						case 4: q = 0xFFFFFFFF00000000L; break;
						default: q = s.u64();
					}
					r = r.shiftLeft(64).or(u(q));
				}
				return r;
			}
			case 8: {
				BigInteger r = BigInteger.ZERO;
				for (int k = s.range(1, 6); k > 0; k--) r = r.setBit(s.lt(256));
				return r;
			}
			default: return uniform(s).mod(BigInteger.ONE.shiftLeft(32 * s.range(1, 8)));
		}
	}
	static BigInteger related(Src s, BigInteger a) {
		switch (s.weighted(6, 2, 2, 1, 2, 2, 1, 1, 1)) {
			case 0: return u256(s);
			case 1: return a;
			case 2: return delta(s, a, 9);
			case 3: return Ref.T256.subtract(BigInteger.ONE).subtract(a);
			case 4: {
				int i = 32 * s.lt(8);
				BigInteger m = Ref.bi(0xFFFFFFFFL).shiftLeft(i);
				return a.andNot(m).or(Ref.bi(word(s) & 0xFFFFFFFFL).shiftLeft(i));
			}
			case 5: return a.flipBit(s.lt(256));
			case 6: return wrap(SPECIALS[s.lt(SPECIALS.length)].subtract(a));
			case 7: return wrap(a.negate());
			default: {
				BigInteger m = BigInteger.ONE.shiftLeft(s.lt(256)).subtract(BigInteger.ONE);
				return a.andNot(m).or(u256(s).and(m));
			}
		}
	}
	static BigInteger below(Src s, BigInteger m) {
		BigInteger r = recallNum(s);
		if (r != null) return r.mod(m);
		switch (s.weighted(3, 1, 6)) {
			case 0: return Ref.bi(s.below(20)).mod(m);
			case 1: return m.subtract(BigInteger.ONE).subtract(Ref.bi(s.below(20)).mod(m));
			default: return u256(s).mod(m);
		}
	}
	static BigInteger field(Src s) { return below(s, Ref.P); }
	static BigInteger scalar(Src s) {
		BigInteger r = recallNum(s);
		return r != null ? r.mod(Ref.N).max(BigInteger.ONE) : keep(s, below(s, Ref.N.subtract(BigInteger.ONE)).add(BigInteger.ONE));
	}
	/** Non-zero number with a single bit or word set, or near zero or p. */
	static BigInteger sparse(Src s) {
		switch (s.weighted(4, 3, 2, 2)) {
			case 0: return BigInteger.ONE.shiftLeft(s.lt(256));
			case 1: {
				BigInteger r = Ref.bi(word(s) & 0xFFFFFFFFL).shiftLeft(32 * s.lt(8));
				return r.signum() == 0 || r.compareTo(Ref.P) >= 0 ? BigInteger.ONE : r;
			}
			case 2: return Ref.P.subtract(BigInteger.ONE.shiftLeft(s.lt(255)));
			default: return Ref.bi(1 + s.lt(1000));
		}
	}
	/** A root of degree 1, 2, 3, 4 or 6 modulo p (which is 3 modulo 4 and 7 modulo 9), or null. */
	static BigInteger root(BigInteger a, int k) {
		BigInteger p = Ref.P;
		if (k % 2 == 0) {
			BigInteger r = a.modPow(p.add(BigInteger.ONE).shiftRight(2), p);
			if (!r.multiply(r).mod(p).equals(a)) return null;
			if (k == 4 && !r.modPow(p.shiftRight(1), p).equals(BigInteger.ONE)) r = p.subtract(r);
			return k == 2 ? r : root(r, k / 2);
		}
		if (k == 3) {
			BigInteger r = a.modPow(p.add(BigInteger.TWO).divide(Ref.bi(9)), p);
			return r.pow(3).mod(p).equals(a) ? r : null;
		}
		return a;
	}
	/** Some intermediate value of a formula is c * scale^degree. Returns a scale that makes one of them a chosen number. */
	private static BigInteger solveScale(Src s, Object... terms) {
		int i = s.lt(terms.length / 2);
		BigInteger c = ((BigInteger) terms[2 * i]).mod(Ref.P);
		if (c.signum() == 0) return BigInteger.ONE;
		c = c.modInverse(Ref.P);
		for (int t = 0; t < 5; t++) {
			BigInteger want = s.flag() ? sparse(s) : below(s, Ref.P.subtract(BigInteger.ONE)).add(BigInteger.ONE), r = root(want.multiply(c).mod(Ref.P), (Integer) terms[2 * i + 1]);
			if (r != null) return r;
		}
		return BigInteger.ONE;
	}
	private static BigInteger mm(BigInteger a, BigInteger b) { return a.multiply(b).mod(Ref.P); }
	private static BigInteger sm(BigInteger a, BigInteger b) { return a.subtract(b).mod(Ref.P); }
	static BigInteger scaleForTwice(Src s, Ref.Pt a) {
		if (a.inf()) return BigInteger.ONE;
		BigInteger two = BigInteger.TWO, x2 = mm(a.x, a.x), t = mm(Ref.bi(3), x2), u = mm(two, a.y), xy = mm(a.x, a.y), v = mm(mm(two, u), xy), t2 = mm(t, t), w = sm(t2, mm(two, v));
		BigInteger vw = sm(v, w), uy = mm(u, a.y), tvw = mm(t, vw), uy2 = mm(uy, uy);
		return solveScale(s, a.x, 1, a.y, 1, x2, 2, mm(two, x2), 2, t, 2, a.y, 2, u, 2, mm(two, u), 2, xy, 2, v, 4, mm(two, v), 4, t2, 4, w, 4, mm(u, w), 6, vw, 4, tvw, 6, uy, 3, uy2, 6, mm(two, uy2), 6,
			sm(tvw, mm(two, uy2)), 6, mm(u, u), 4, mm(mm(u, u), u), 6);
	}
	/** Scale of b, given that of a. */
	static BigInteger scaleForAdd(Src s, Ref.Pt a, Ref.Pt b, BigInteger sa) {
		if (a.inf() || b.inf()) return BigInteger.ONE;
		BigInteger u = sm(a.x, b.x), t = sm(a.y, b.y), u2 = mm(u, u), t2 = mm(t, t), sum = a.x.add(b.x), w = sm(t2, mm(u2, sum)), u3 = mm(u2, u), xu2 = mm(a.x, u2), tw = mm(t, sm(xu2, w)), yu3 = mm(a.y, u3);
		return mm(sa.modInverse(Ref.P), solveScale(s, u, 1, t, 1, u, 1, t, 1, a.x, 1, a.y, 1, b.x, 1, b.y, 1, BigInteger.ONE, 1, sum, 1, u2, 2, t2, 2, t2, 3, mm(u2, sum), 3, w, 3, mm(u, w), 4, u3, 3, xu2, 3, sm(xu2, w), 3, tw, 4, yu3, 4,
			sm(tw, yu3), 4, u3, 4));
	}
	static BigInteger scale(Src s) {
		switch (s.weighted(3, 4, 2, 1, 1)) {
			case 4: return sparse(s);
			case 0: return BigInteger.ONE;
			case 1: return uniform(s).mod(Ref.P.subtract(BigInteger.ONE)).add(BigInteger.ONE);
			case 2: return below(s, Ref.P.subtract(BigInteger.ONE)).add(BigInteger.ONE);
			default: return Ref.P.subtract(BigInteger.ONE);
		}
	}
	/** Two numbers below p whose product has a chosen small residue. */
	static BigInteger[] boundaryPair(Src s) {
		BigInteger t, x;
		switch (s.weighted(4, 2, 2, 1)) {
			case 0: t = u(s.u64()).shiftRight(s.lt(40)); break;
			case 1: t = Ref.T256.subtract(Ref.P).add(Ref.bi(s.below(2000) - 1000)); break;
			case 2: t = Ref.P.subtract(BigInteger.ONE).subtract(u(s.u64()).shiftRight(s.lt(64))); break;
			default: t = Ref.bi(s.below(40));
		}
		t = t.mod(Ref.P);
		x = s.flag() ? Ref.P.subtract(BigInteger.ONE).subtract(uniform(s).shiftRight(s.range(1, 255))) : uniform(s).mod(Ref.P);
		if (x.signum() == 0) x = BigInteger.ONE;
		return new BigInteger[]{x, t.multiply(x.modInverse(Ref.P)).mod(Ref.P)};
	}
	private static final List<byte[]> busy = new ArrayList<>();  // The arrays of the current case of a sequence
	private static byte[] busy(Src s, byte[] x) {
		if (s.memory != null) busy.add(x);
		return x;
	}
	static byte[] bytes(Src s, int n) {
		byte[] x = n == 0 ? null : (byte[])s.recall("bytes");
		if (x == null) return busy(s, s.keep("bytes", bytesFresh(s, n)));
		// The earlier array itself, if it is not in use, or a copy
		if (x.length != n || !s.flag() || busy.contains(x)) x = java.util.Arrays.copyOf(x, n);
		busy(s, x);
		switch (s.weighted(4, 2, 1, 1, 1)) {
			case 0: break;
			case 4:
				if (n > 1) {  // Keeps Arrays.hashCode()
					int i = s.lt(n - 1), d = s.flag() ? 1 : -1;
					if (Math.abs(x[i] + d) < 128 && Math.abs(x[i + 1] - 31 * d) < 128) {
						x[i] += d;
						x[i + 1] -= 31 * d;
					}
				}
				break;
			case 1: x[s.lt(n)] ^= 1 + s.lt(255); break;
			case 2: for (int i = s.lt(n); i < n; i++) x[i] = (byte)s.u8(); break;
			default: for (int i = s.lt(n) - 1; i >= 0; i--) x[i] = (byte)s.u8();
		}
		return x;
	}
	private static byte[] bytesFresh(Src s, int n) {
		byte[] r = new byte[n];
		if (n == 0) return r;
		switch (s.weighted(2, 1, 1, 5, n <= 80 ? 3 : 0, 1, 1)) {
			case 0: break;
			case 1: java.util.Arrays.fill(r, (byte)-1); break;
			case 2: { int k = s.u8(); for (int i = 0; i < n; i++) r[i] = (byte)(i + k); break; }
			case 3: {
				long x = s.u64();
				for (int i = 0; i < n; i++) {
					x += 0x9E3779B97F4A7C15L;
					long z = x;
					z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
					r[i] = (byte)(z >>> 40);
				}
				break;
			}
			case 4: for (int i = 0; i < n; i++) r[i] = (byte)s.u8(); break;
			case 5: java.util.Arrays.fill(r, (byte)s.u8()); break;
			default: for (int k = s.range(1, 4); k > 0; k--) r[s.lt(n)] = (byte)s.u8();
		}
		return r;
	}
	static int msgLen(Src s, int block) {
		Integer n = (Integer)s.recall("length", 1, 2);
		return n != null ? n : s.keep("length", msgLenFresh(s, block));
	}
	private static int msgLenFresh(Src s, int block) {
		switch (s.weighted(5, 6, 3, 2)) {
			case 0: return s.lt(2 * block + 20);
			case 1: {
				int b = s.lt(9) * block;
				return s.flag() ? b + s.lt(6) : b + block - s.lt(24);
			}
			case 2: return s.lt(1500);
			default: return Src.dict.length > 0 && s.flag() ? (int)Long.remainderUnsigned(Src.dict[s.lt(Src.dict.length)], 5000) : s.lt(6000);
		}
	}
	private static List<Ref.Pt> pool;
	static Ref.Pt point(Src s, boolean zero) {
		Ref.Pt p = (Ref.Pt)s.recall("point");
		if (p == null || p.inf() && !zero) return s.keep("point", pointFresh(s, zero));
		switch (p.inf() ? 0 : s.weighted(4, 2, 1)) {
			case 0: return p;
			case 1: return Ref.neg(p);
			default: return new Ref.Pt(p.x.multiply(Ref.BETA).mod(Ref.P), p.y);
		}
	}
	private static Ref.Pt pointFresh(Src s, boolean zero) {
		if (pool == null) {
			List<Ref.Pt> v = new ArrayList<>();
			for (int k : new int[]{1, 2, 3, 4, 5, 7, 15, 16, 17}) v.add(Ref.mul(Ref.G, Ref.bi(k)));
			v.add(Ref.neg(Ref.G));
			v.add(Ref.mulG(Ref.N.shiftRight(1)));
			v.add(Ref.mulG(BigInteger.ONE.shiftLeft(128)));
			for (int i = 0, n = v.size(); i < n; i += 3) v.add(new Ref.Pt(v.get(i).x.multiply(Ref.BETA).mod(Ref.P), v.get(i).y));
			for (int i = 0; i < 12; i++) {
				Ref.Pt q = Ref.lift(Ref.bi(i), false);
				if (q != null) v.add(q);
				q = Ref.lift(Ref.P.subtract(Ref.bi(1 + i)), true);
				if (q != null) v.add(q);
			}
			pool = v;
		}
		Ref.Pt r;
		switch (s.weighted(4, 5, 1, zero ? 1 : 0, 1)) {
			case 4:  // With a chosen y
				for (int i = 0; i < 6; i++) {
					BigInteger y = s.flag() ? sparse(s) : field(s), x = root(y.multiply(y).subtract(Ref.bi(7)).mod(Ref.P), 3);
					if (x != null) return new Ref.Pt(x, y);
				}
				return Ref.G;
			case 0: r = pool.get(s.lt(pool.size())); break;
			case 1: return lift(s.chance(1, 3) ? field(s) : uniform(s).mod(Ref.P), s.flag());
			case 2: return Ref.mulG(scalar(s));
			default: return Ref.INF;
		}
		return s.flag() ? Ref.neg(r) : r;
	}
	static Ref.Pt lift(BigInteger x, boolean odd) {
		for (;;) {
			Ref.Pt r = Ref.lift(x, odd);
			if (r != null) return r;
			x = x.add(BigInteger.ONE).mod(Ref.P);
		}
	}
	static BigInteger anyHash(Src s) {
		BigInteger r = recallNum(s);
		if (r != null) return r;
		switch (s.weighted(5, 2, 1)) {
			case 0: return u256(s);
			case 1: return keep(s, Ref.N.add(u256(s).mod(Ref.T256.subtract(Ref.N))));
			default: return Ref.bi(s.below(3));
		}
	}
	static BigInteger anyScalar(Src s) {
		BigInteger r = recallNum(s);
		return r != null ? r : keep(s, anyScalarFresh(s));
	}
	private static BigInteger anyScalarFresh(Src s) {
		switch (s.weighted(5, 3, 2, 2, 2)) {
			case 0: return u256(s);
			case 1: {
				BigInteger r = BigInteger.ZERO;
				int[] t = {0, 1, 15, 8, 7, 2, 14};
				for (int i = 0; i < 64; i++) r = r.shiftLeft(4).or(Ref.bi(s.chance(1, 8) ? s.lt(16) : t[s.lt(7)]));
				return r;
			}
			case 2: return Ref.N.add(Ref.bi((s.chance(1, 5) ? 50 : s.below(80)) - 20));  // n + 30: the last step of a 4-bit window adds equal points
			case 3: return Ref.bi(s.below(40));
			default: {
				BigInteger t = Ref.N.add(Ref.bi(s.below(16)));
				int sh = 4 * s.lt(3);
				return wrap(t.shiftRight(sh).shiftLeft(sh).add(Ref.bi(s.below(16))));
			}
		}
	}

	/*---- Arrays of words ----*/
	/** 0: remember the arrays that ints() makes; 1: use those of the previous case again; 2: make others; -1: the end. */
	static void reuse(int how) {
		busy.clear();
		arraysUsed = 0;
		arraysHow = how;
		if (how == 0) arrays.clear();
	}
	private static int arraysHow = -1, arraysUsed;
	private static final List<int[]> arrays = new ArrayList<>();

	static int[] words(int n) {
		int[] r = arraysHow == 1 && arraysUsed < arrays.size() ? arrays.get(arraysUsed++) : null;
		if (r == null || r.length != n) r = new int[n];
		if (arraysHow == 0) arrays.add(r);
		return r;
	}
	static int[] ints(BigInteger x) {
		int[] r = words(8);
		put(r, 0, x);
		return r;
	}
	static void put(int[] a, int off, BigInteger x) { for (int i = 0; i < 8; i++) a[off + i] = x.shiftRight(32 * i).intValue(); }
	static BigInteger get(int[] a, int off) {
		BigInteger r = BigInteger.ZERO;
		for (int i = 7; i >= 0; i--) r = r.shiftLeft(32).or(Ref.bi(a[off + i] & 0xFFFFFFFFL));
		return r;
	}
	/** {x, y, z} of a projective representation. */
	static BigInteger[] proj(Ref.Pt p, BigInteger k) {
		if (p.inf()) return new BigInteger[]{BigInteger.ZERO, k, BigInteger.ZERO};
		return new BigInteger[]{p.x.multiply(k).mod(Ref.P), p.y.multiply(k).mod(Ref.P), k};
	}
	static Ref.Pt toPt(int[] a, int off, String what) {
		Ref.Pt r = affine(a, off, what);
		Fail.require(r.inf() || Ref.onCurve(r.x, r.y), "%s: not on the curve: %s", what, r);
		return r;
	}
	static Ref.Pt affine(int[] a, int off, String what) {
		BigInteger x = get(a, off), y = get(a, off + 8), z = get(a, off + 16);
		String t = "(" + x.toString(16) + ", " + y.toString(16) + ", " + z.toString(16) + ")";
		Fail.require(x.compareTo(Ref.P) < 0 && y.compareTo(Ref.P) < 0 && z.compareTo(Ref.P) < 0, "%s: coordinate not below p: %s", what, t);
		if (z.signum() == 0) {
			Fail.require(x.signum() == 0 && y.signum() != 0, "%s: not a valid point: %s", what, t);
			return Ref.INF;
		}
		BigInteger i = z.modInverse(Ref.P);
		return new Ref.Pt(x.multiply(i).mod(Ref.P), y.multiply(i).mod(Ref.P));
	}
	private Gen() {}
}
