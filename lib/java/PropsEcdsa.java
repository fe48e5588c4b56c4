package pbt;

import static pbt.Fail.require;
import io.nayuki.bitcoin.crypto.Ecdsa;
import io.nayuki.bitcoin.crypto.Sha256Hash;
import java.math.BigInteger;
import java.util.Arrays;

/** C08-C11 in Java. */
final class PropsEcdsa {
	static Sha256Hash hash(BigInteger z) { return new Sha256Hash(Ref.be(z, 32)); }
	private static String h(BigInteger x) { return x.toString(16); }
	private static BigInteger inv(BigInteger x) { return x.modInverse(Ref.N); }

	interface Signer { boolean sign(int[] d, Sha256Hash z, int[] r, int[] s); }

	private static void check(Src s, BigInteger d, BigInteger z, BigInteger k, int[] nonce, Signer f) {
		int[] kd = Gen.ints(d), r = Gen.ints(Gen.u256(s)), t = Gen.ints(Gen.u256(s)), r0 = r.clone(), t0 = t.clone();
		Sha256Hash hz = hash(z);
		BigInteger[] e = Ref.sign(d, z, k);
		boolean ok = f.sign(kd, hz, r, t);
		require(ok == (e != null), "sign returned %b", ok);
		if (e != null) require(Gen.get(r, 0).equals(e[0]) && Gen.get(t, 0).equals(e[1]), "sign gave r=%s s=%s, expected r=%s s=%s", h(Gen.get(r, 0)), h(Gen.get(t, 0)), h(e[0]), h(e[1]));
		else {
			s.label("refused");
			require(Arrays.equals(r, r0) && Arrays.equals(t, t0), "failed signing changed an output");
		}
		require(Gen.get(kd, 0).equals(d) && (nonce == null || Gen.get(nonce, 0).equals(k)) && Arrays.equals(hz.toBytes(), Ref.be(z, 32)), "signing modified an input");
	}
	private static void check(Src s, BigInteger d, BigInteger z, BigInteger k) {
		s.note("key=%s hash=%s nonce=%s", h(d), h(z), h(k));
		int[] n = Gen.ints(k);
		check(s, d, z, k, n, (a, b, r, t) -> Ecdsa.sign(a, b, n, r, t));
	}

	/** Key, hash and nonce. */
	static BigInteger[] signInputs(Src s) {
		BigInteger k = Gen.scalar(s), z = Gen.anyHash(s), d, t;
		if (z.compareTo(Ref.N) >= 0) s.label("hash at or above n");
		int how = s.weighted(3, 4, 2);
		BigInteger r = Ref.mulG(k).x.mod(Ref.N);
		if (how == 0) d = Gen.scalar(s);
		else {
			if (how == 1) {
				BigInteger base;
				int off = s.lt(21) - 10;
				switch (s.lt(5)) {
					case 0: base = Ref.N.subtract(Ref.ONE); break;
					case 1: base = Ref.ZERO; break;
					case 2: base = Ref.T256.subtract(z.mod(Ref.N)); break;
					case 3: base = Ref.T256.subtract(z); break;
					default: base = z.negate();
				}
				t = base.add(Ref.bi(off));
				s.label("constructed sum");
			} else {
				BigInteger target;
				switch (s.lt(3)) {
					case 0: target = Ref.N.shiftRight(1).add(Ref.bi(s.lt(5) - 2)); break;
					case 1: target = Ref.bi(1 + s.lt(5)); break;
					default: target = Ref.N.subtract(Ref.bi(1 + s.lt(5)));
				}
				t = target.multiply(k).subtract(z);
				s.label("constructed s");
			}
			d = t.multiply(inv(r)).mod(Ref.N);
			if (d.signum() == 0) d = Ref.ONE;
		}
		return new BigInteger[]{d, z, k};
	}

	static void sign(Src s) {
		BigInteger[] v = signInputs(s);
		s.nontrivial();
		check(s, v[0], v[1], v[2]);
	}

	private static BigInteger[] refusal(Src s) {  // {d, z, k}
		BigInteger d = Gen.scalar(s), z = Gen.anyHash(s), k;
		switch (s.weighted(2, 4, 4, 2)) {
			case 0: k = Ref.ZERO; break;
			case 1: k = s.flag() ? Ref.N.add(Ref.bi(s.lt(10))) : Ref.N.add(Gen.u256(s).mod(Ref.T256.subtract(Ref.N))); break;
			case 2: {
				k = Gen.scalar(s);
				BigInteger r = Ref.mulG(k).x.mod(Ref.N);
				if (z.mod(Ref.N).signum() == 0) z = Ref.bi(1 + s.lt(5));
				d = z.negate().multiply(inv(r)).mod(Ref.N);
				break;
			}
			default: k = s.flag() ? Ref.N.subtract(Ref.bi(1 + s.lt(3))) : Ref.bi(1 + s.lt(3));
		}
		return new BigInteger[]{d, z, k};
	}
	static void refuse(Src s) {
		BigInteger[] v = refusal(s);
		s.nontrivial();
		check(s, v[0], v[1], v[2]);
	}

	private static HookedSigner hooked;
	/** Deterministic signing with the derived nonce replaced. */
	static void refuseHmac(Src s) {
		if (hooked == null) hooked = (HookedSigner)new Rewriter(false, "pbt.HmacHook").make("pbt.HmacHook");
		BigInteger[] v = refusal(s);
		s.nontrivial();
		s.note("key=%s hash=%s injected nonce=%s", h(v[0]), h(v[1]), h(v[2]));
		check(s, v[0], v[1], v[2], null, (d, z, r, t) -> {
			int[] r2 = r.clone(), t2 = t.clone();
			int x = hooked.sign(d, z.toBytes(), Ref.be(v[2], 32), r2, t2);
			if ((x & 2) == 0) {  // Could not be injected: nothing to check
				s.label("injection not reached");
				int[] k = Gen.ints(v[2]);
				return Ecdsa.sign(d, z, k, r, t);
			}
			System.arraycopy(r2, 0, r, 0, 8);
			System.arraycopy(t2, 0, t, 0, 8);
			return (x & 1) != 0;
		});
	}

	/**
	 * The base point is replaced by one (of an isomorphic curve) whose multiple by the nonce has a chosen x coordinate: zero
	 * modulo n, or at or above n. Nobody knows a nonce with such a point for the real base point.
	 */
	static void injectPoint(Src s) {
		if (hooked == null) hooked = (HookedSigner)new Rewriter(false, "pbt.HmacHook").make("pbt.HmacHook");
		BigInteger d = Gen.scalar(s), z = Gen.anyHash(s), k = Gen.scalar(s), x, n = Ref.N, p = Ref.P;
		switch (s.lt(6)) {
			case 0: case 1: x = n; break;
			case 2: x = Ref.bi(1 + s.lt(3)); break;
			case 3: x = n.add(Ref.bi(1 + s.lt(5))); break;
			case 4: x = p.subtract(Ref.bi(1 + s.lt(5))); break;
			default: x = n.add(Gen.u256(s).mod(p.subtract(n)));
		}
		BigInteger u = Gen.scale(s), y = null;
		for (int i = 0; i < 100 && y == null; i++, u = u.add(Ref.ONE).mod(p)) {
			if (u.signum() == 0) continue;
			BigInteger q = x.pow(3).add(u.modPow(Ref.bi(6), p).multiply(Ref.bi(7))).mod(p), w = q.modPow(p.add(Ref.ONE).shiftRight(2), p);
			if (q.signum() != 0 && w.multiply(w).mod(p).equals(q)) { y = w; break; }
		}
		if (y == null) return;
		BigInteger v = u.modInverse(p), r = x.mod(n);
		Ref.Pt g = iso(Ref.mul(iso(new Ref.Pt(x, y), v), k.modInverse(n)), u);
		if (r.signum() != 0 && s.flag()) {
			BigInteger t = s.flag() ? n.add(Ref.bi(s.lt(3) - 1)) : (s.flag() ? n.shiftRight(1).add(Ref.bi(s.lt(4) - 1)) : Ref.bi(1 + s.lt(3))).multiply(k);
			d = t.subtract(z).multiply(inv(r)).mod(n);
			if (d.signum() == 0) d = Ref.ONE;
		}
		s.note("key=%s hash=%s nonce=%s, base point made (%s, %s), so that the nonce's point has x=%s", h(d), h(z), h(k), h(g.x), h(g.y), h(x));
		int[] base = new int[24], r1 = Gen.ints(Gen.u256(s)), s1 = Gen.ints(Gen.u256(s)), r0 = r1.clone(), s0 = s1.clone();
		System.arraycopy(Gen.ints(g.x), 0, base, 0, 8);
		System.arraycopy(Gen.ints(g.y), 0, base, 8, 8);
		base[16] = 1;
		int got = hooked.signFrom(base, Gen.ints(d), Ref.be(z, 32), Gen.ints(k), r1, s1);
		BigInteger[] plain = Ref.sign(d, z, k);
		if (got < 0 || got == 1 && plain != null && Gen.get(r1, 0).equals(plain[0]) && Gen.get(s1, 0).equals(plain[1])) {
			s.label("injection not reached");
			return;
		}
		s.nontrivial();
		BigInteger t = inv(k).multiply(z.add(r.multiply(d))).mod(n);
		boolean exp = r.signum() != 0 && t.signum() != 0;
		t = t.min(n.subtract(t));
		s.label(exp ? "signed" : r.signum() == 0 ? "r is zero" : "s is zero");
		require((got == 1) == exp, "sign returned %d, expected %b", got, exp);
		if (exp) require(Gen.get(r1, 0).equals(r) && Gen.get(s1, 0).equals(t), "sign gave r=%s s=%s, expected r=%s s=%s", h(Gen.get(r1, 0)), h(Gen.get(s1, 0)), h(r), h(t));
		else require(Arrays.equals(r1, r0) && Arrays.equals(s1, s0), "failed signing changed an output");
	}

	private static Ref.Pt iso(Ref.Pt q, BigInteger u) {
		return q.inf() ? q : new Ref.Pt(q.x.multiply(u).multiply(u).mod(Ref.P), q.y.multiply(u.pow(3)).mod(Ref.P));
	}

	/**
	 * A key (triple) that is not on the curve, and r, s and hash that would be a signature if nothing checked the key: the
	 * group law never uses the curve's constant. Keys on an isomorphic curve are also annihilated by the group order.
	 */
	private static BigInteger[] foreignKey(Src s) {
		BigInteger p = Ref.P, sc = Ref.ONE, u;
		Ref.Pt a = Gen.point(s, false);
		switch (s.lt(4)) {
			case 0: u = Gen.scale(s); break;
			case 1: {
				u = Ref.ZERO;
				for (int i = 0; i < 60 && u.signum() == 0; i++) {
					sc = i < 30 ? Ref.bi(2 + s.below(1000)) : Gen.field(s);
					if (sc.bitLength() < 2) continue;
					BigInteger m = sc.multiply(sc).multiply(a.y.multiply(a.y).subtract(sc.multiply(a.x.pow(3)))).mod(p);
					if (m.signum() == 0) continue;
					BigInteger w = Ref.bi(7).multiply(m.modInverse(p)).mod(p);
					if (!w.modPow(p.subtract(Ref.ONE).divide(Ref.bi(6)), p).equals(Ref.ONE)) continue;
					u = w.modPow(p.add(Ref.ONE).shiftRight(2), p).modPow(p.add(Ref.bi(2)).divide(Ref.bi(9)), p);
				}
				if (u.signum() == 0) { u = Ref.bi(2); sc = Ref.ONE; }
				break;
			}
			case 2: u = Gen.scale(s); sc = Gen.scale(s); break;
			default: u = Ref.ONE; a = new Ref.Pt(s.flag() ? a.x : Gen.field(s), Gen.field(s));
		}
		Ref.Pt q = iso(a, u);
		BigInteger u2 = Gen.scalar(s), u1 = s.flag() ? Ref.ZERO : Gen.scalar(s);
		Ref.Pt R;
		try { R = Ref.add(Ref.mulG(u1), Ref.mul(q, u2)); }
		catch (ArithmeticException e) { R = Ref.G; }
		BigInteger r = R.inf() ? Ref.ONE : R.x.mod(Ref.N).max(Ref.ONE), t = r.multiply(inv(u2)).mod(Ref.N);
		return new BigInteger[]{q.x.multiply(sc).mod(p), q.y.multiply(sc).mod(p), sc, u1.multiply(t).mod(Ref.N), r, t};
	}

	static void verify(Src s) {
		BigInteger d = Gen.scalar(s), z = Gen.anyHash(s), r, t;
		Ref.Pt q;
		String what;
		s.nontrivial();
		switch (s.weighted(5, 5, 2, 2)) {
			case 0: {
				what = "signed";
				q = Ref.mulG(d);
				BigInteger[] e = Ref.sign(d, z, Gen.scalar(s));
				r = e == null ? Ref.ONE : e[0];
				t = e == null ? Ref.ONE : e[1];
				break;
			}
			case 1: {
				BigInteger x;
				switch (s.lt(3)) {
					case 0: what = "recovered, x at or above n"; x = Ref.N.add(Ref.bi(s.below(1000000))); break;
					case 1: what = "recovered, small x"; x = Ref.bi(1 + s.below(1000000)); break;
					default: what = "recovered"; x = Gen.field(s);
				}
				Ref.Pt R = Gen.lift(x, s.flag());
				r = R.x.mod(Ref.N);
				if (r.signum() == 0) r = Ref.ONE;
				t = Gen.scalar(s);
				q = Ref.add(Ref.mul(R, t.multiply(inv(r)).mod(Ref.N)), Ref.neg(Ref.mulG(z.multiply(inv(r)).mod(Ref.N))));
				break;
			}
			case 2: {
				what = "zero sum";
				q = Ref.mulG(d);
				r = s.flag() ? Gen.scalar(s) : Ref.mulG(Gen.scalar(s)).x.mod(Ref.N);
				t = Gen.scalar(s);
				z = r.multiply(d).negate().mod(Ref.N);
				break;
			}
			default: {
				what = "equal halves";
				q = Ref.mulG(d);
				BigInteger k = Gen.scalar(s);
				r = Ref.mulG(k).x.mod(Ref.N);
				z = r.multiply(d).mod(Ref.N);
				t = z.shiftLeft(1).multiply(inv(k)).mod(Ref.N);
			}
		}
		if (q.inf()) q = Ref.G;
		Object[] prev = (Object[])s.recall("signature", 1, 2);
		if (prev != null) {
			what = "an earlier signature";
			if (!s.chance(1, 6)) q = (Ref.Pt)prev[0];
			if (!s.chance(1, 6)) z = (BigInteger)prev[1];
			if (!s.chance(1, 6)) r = (BigInteger)prev[2];
			if (!s.chance(1, 6)) t = (BigInteger)prev[3];
		} else {
			s.keep("signature", new Object[]{q, z, r, t});
			s.keep("point", q);
		}
		BigInteger[] c = {q.x, q.y, Ref.ONE};
		boolean valid = true;
		switch (s.weighted(6, 3, 1, 1, 1, 1, 2, 2, 3, 1, 2)) {  // One change
			case 0: break;
			case 1: t = Ref.N.subtract(t).mod(Ref.N); what += ", other s"; break;
			case 2: z = s.flag() ? Gen.related(s, z) : z.flipBit(s.lt(256)); what += ", hash changed"; break;
			case 3: r = s.flag() ? r.flipBit(s.lt(256)) : Gen.related(s, r); what += ", r changed"; break;
			case 4: t = s.flag() ? t.flipBit(s.lt(256)) : Gen.related(s, t); what += ", s changed"; break;
			case 5: r = Ref.N.add(r); if (r.bitLength() > 256) r = Ref.N; what += ", r plus n"; break;
			case 6: {
				BigInteger bad;
				switch (s.lt(3)) { case 0: bad = Ref.ZERO; break; case 1: bad = Ref.N.add(Ref.bi(s.lt(3))); break; default: bad = t.add(Ref.N); }
				if (bad.bitLength() > 256) bad = Ref.T256.subtract(Ref.ONE);
				if (s.flag()) r = bad; else t = bad;
				what += ", out of range";
				break;
			}
			case 7: q = s.flag() ? Ref.neg(q) : Gen.point(s, false); c = new BigInteger[]{q.x, q.y, Ref.ONE}; what += ", other key"; break;
			case 8: {  // A key that is not a normalized non-zero point on the curve
				switch (s.lt(4)) {
					case 0: c = Gen.proj(q, Gen.scale(s)); valid = c[2].equals(Ref.ONE); break;
					case 1: {
						c = new BigInteger[]{Ref.ZERO, s.flag() ? Ref.ONE : Gen.scale(s), Ref.ZERO};
						valid = false;
						BigInteger u1 = Gen.scalar(s);  // A signature by the sum without the key's part
						r = Ref.mulG(u1).x.mod(Ref.N).max(Ref.ONE);
						z = u1.multiply(t).mod(Ref.N);
						break;
					}
					case 2: c = new BigInteger[]{c[0], Gen.related(s, c[1]).mod(Ref.P), Ref.ONE}; q = new Ref.Pt(c[0], c[1]); valid = Ref.onCurve(c[0], c[1]); break;
					default: c = new BigInteger[]{Gen.field(s), Gen.field(s), s.flag() ? Ref.ONE : Gen.field(s)}; q = new Ref.Pt(c[0], c[1]); valid = c[2].equals(Ref.ONE) && Ref.onCurve(c[0], c[1]);
				}
				what += ", bad key";
				break;
			}
			case 9: { BigInteger x = r; r = t; t = x; what += ", r and s exchanged"; break; }
			default: {
				BigInteger[] f = foreignKey(s);
				c = new BigInteger[]{f[0], f[1], f[2]};
				z = f[3];
				r = f[4];
				t = f[5];
				q = new Ref.Pt(c[0], c[1]);
				valid = c[2].equals(Ref.ONE) && Ref.onCurve(c[0], c[1]);
				what = "key on another curve or not normalized";
			}
		}
		int[] key = Gen.words(24);
		for (int i = 0; i < 3; i++) Gen.put(key, 8 * i, c[i]);
		int[] k0 = key.clone(), ir = Gen.ints(r), it = Gen.ints(t);
		Sha256Hash hz = hash(z);
		s.note("%s: Q=(%s, %s, %s) hash=%s r=%s s=%s", what, h(c[0]), h(c[1]), h(c[2]), h(z), h(r), h(t));
		boolean exp = valid && Ref.verify(q, z, r, t);
		boolean got = Ecdsa.verify(key, hz, ir, it);
		s.label(exp ? "accepted" : "rejected");
		require(got == exp, "verify (%s) returned %b, expected %b", what, got, exp);
		require(Arrays.equals(key, k0) && Gen.get(ir, 0).equals(r) && Gen.get(it, 0).equals(t) && Arrays.equals(hz.toBytes(), Ref.be(z, 32)), "verify modified an argument");
	}

	static void hmacSign(Src s) {
		BigInteger d = Gen.scalar(s), z = Gen.anyHash(s);
		if (s.chance(1, 3)) d = d.shiftRight(s.lt(250)).max(Ref.ONE);
		s.note("key=%s hash=%s", h(d), h(z));
		s.nontrivial();
		BigInteger k = Ref.fromBe(Ref.hmac("SHA-256", 64, Ref.be(d, 32), Ref.be(z, 32)));
		check(s, d, z, k, null, Ecdsa::signWithHmacNonce);
		int[] r = new int[8], t = new int[8], r2 = new int[8], t2 = new int[8];
		require(Ecdsa.signWithHmacNonce(Gen.ints(d), hash(z), r, t), "signWithHmacNonce failed");
		require(Ecdsa.sign(Gen.ints(d), hash(z), Gen.ints(k), r2, t2) && Arrays.equals(r, r2) && Arrays.equals(t, t2), "signWithHmacNonce differs from sign with the HMAC nonce");
		Ref.Pt q = Ref.mulG(d);
		int[] key = new int[24];
		Gen.put(key, 0, q.x);
		Gen.put(key, 8, q.y);
		Gen.put(key, 16, Ref.ONE);
		require(Ecdsa.verify(key, hash(z), r, t), "the signature does not verify");
		BigInteger z2 = s.flag() ? z.flipBit(s.lt(256)) : Gen.related(s, z);
		if (!z2.mod(Ref.N).equals(z.mod(Ref.N))) require(Ecdsa.verify(key, hash(z2), r, t) == Ref.verify(q, z2, Gen.get(r, 0), Gen.get(t, 0)), "verification against another hash is wrong");
	}
	private PropsEcdsa() {}
}
