package pbt;

import static pbt.Fail.require;
import io.nayuki.bitcoin.crypto.CurvePointMath;
import io.nayuki.bitcoin.crypto.Ecdsa;
import io.nayuki.bitcoin.crypto.Int256Math;
import io.nayuki.bitcoin.crypto.Sha256;
import io.nayuki.bitcoin.crypto.Sha256Hash;
import io.nayuki.bitcoin.crypto.Sha512;
import java.math.BigInteger;
import java.util.Arrays;

/** C36 in Java: one place for two operands gives what two places with equal values give. */
final class PropsAlias {
	private static String h(BigInteger x) { return x.toString(16); }
	private interface Op { int run(int[] v, int x, int y, int z, int t, int en); }
	private static final String[] NAMES = {"uintAdd", "uintSubtract", "uintShiftLeft1", "uintShiftRight1", "reciprocal", "fieldAdd", "fieldSubtract", "fieldMultiply2", "fieldSquare", "fieldMultiply", "replace", "swap", "equalTo", "lessThan"};
	private static final Op[] OPS = {
		(v, x, y, z, t, en) -> Int256Math.uintAdd(v, x, y, en, z),
		(v, x, y, z, t, en) -> Int256Math.uintSubtract(v, x, y, en, z),
		(v, x, y, z, t, en) -> Int256Math.uintShiftLeft1(v, x, z),
		(v, x, y, z, t, en) -> { Int256Math.uintShiftRight1(v, x, en, z); return 0; },
		(v, x, y, z, t, en) -> { Int256Math.reciprocal(v, x, y, z, t); return 0; },
		(v, x, y, z, t, en) -> { Int256Math.fieldAdd(v, x, y, z, t); return 0; },
		(v, x, y, z, t, en) -> { Int256Math.fieldSubtract(v, x, y, z, t); return 0; },
		(v, x, y, z, t, en) -> { Int256Math.fieldMultiply2(v, x, z, t); return 0; },
		(v, x, y, z, t, en) -> { Int256Math.fieldSquare(v, x, z, t); return 0; },
		(v, x, y, z, t, en) -> { Int256Math.fieldMultiply(v, x, y, z, t); return 0; },
		(v, x, y, z, t, en) -> { Int256Math.replace(v, x, y, en); return 0; },
		(v, x, y, z, t, en) -> { Int256Math.swap(v, x, y, en); return 0; },
		(v, x, y, z, t, en) -> Int256Math.equalTo(v, x, y),
		(v, x, y, z, t, en) -> Int256Math.lessThan(v, x, y),
	};

	/** Operands at one place in one run, at separate places in another. */
	private static void ints(Src s) {
		int op = s.lt(OPS.length), en = s.lt(2);
		boolean field = op >= 5 && op <= 9, three = op <= 9, unary = op == 2 || op == 3 || op == 7 || op == 8;
		BigInteger x, y;
		int how = s.lt(4);  // 0: x = y, 1: z = x, 2: z = y, 3: all
		if (!three) how = 0;
		else if (unary) how = 1;
		if (op == 4) {
			if (how == 0 || how == 3) how = 1 + s.lt(2);
			y = s.flag() ? Ref.N : Ref.P;
			x = Gen.below(s, y);
		} else if (field) {
			if (s.chance(1, 3)) { BigInteger[] p = Gen.boundaryPair(s); x = p[0].mod(Ref.P); y = p[1].mod(Ref.P); }
			else { x = Gen.field(s); y = Gen.related(s, x).mod(Ref.P); }
		} else {
			x = Gen.u256(s);
			y = Gen.related(s, x);
		}
		if (how == 0 || how == 3) y = x;
		s.note("%s of %s and %s, enable %d, %s", NAMES[op], h(x), h(y), en, new String[]{"both at one place", "result in place of the first", "result in place of the second", "all at one place"}[how]);
		s.label(NAMES[op]);
		int[] v = new int[24 + 64], w = new int[24 + 64];
		for (int[] a : new int[][]{v, w}) {
			Gen.put(a, 0, x);
			Gen.put(a, 8, y);
		}
		int a = 0, b = how == 0 || how == 3 ? 0 : 8, c = how == 0 ? 16 : how == 2 ? 8 : 0;
		int r = OPS[op].run(v, a, b, c, 24, en), e = OPS[op].run(w, 0, 8, 16, 24, en);
		int at = three ? c : 0, from = three ? 16 : 0;
		require(r == e && Gen.get(v, at).equals(Gen.get(w, from)), "%s gives %s and %d, with separate operands %s and %d", NAMES[op], h(Gen.get(v, at)), r, h(Gen.get(w, from)), e);
		if (at != 0) require(Gen.get(v, 0).equals(x), "%s changed its first operand", NAMES[op]);
		if (three && at != 8) require(Gen.get(v, 8).equals(y), "%s changed its second operand", NAMES[op]);
	}

	private static void points(Src s) {
		Ref.Pt p = Gen.point(s, true);
		BigInteger[] c = Gen.proj(p, s.flag() ? Gen.scale(s) : Gen.scaleForTwice(s, p));
		s.note("point %s %s %s", h(c[0]), h(c[1]), h(c[2]));
		s.label(p.inf() ? "zero point" : "point");
		Arr a = new Arr(s, 24, CurvePointMath.ADD_TEMP_WORDS);
		a.put(0, c);
		a.ready();
		if (s.chance(1, 4)) {
			CurvePointMath.replace(a.v, a.off[0], a.off[0], s.lt(2));
			a.check("replace by itself");
			return;
		}
		CurvePointMath.add(a.v, a.off[0], a.off[0], a.off[1]);
		Ref.Pt got = Gen.toPt(a.v, a.off[0], "add"), exp = Ref.add(p, p);
		require(got.same(exp), "adding a point to itself gave %s, expected %s", got, exp);
		a.check("add to itself", 0, 24, 1, CurvePointMath.ADD_TEMP_WORDS);
	}

	private static void signing(Src s) {
		BigInteger[] v = PropsEcdsa.signInputs(s);
		BigInteger d = v[0], z = v[1], k = v[2];
		boolean hmac = s.chance(1, 3);
		if (!hmac) switch (s.lt(6)) {
			case 0: k = s.flag() ? Ref.ZERO : Ref.N.add(Ref.bi(s.lt(5))); break;
			case 1: {
				BigInteger r = Ref.mulG(k).x.mod(Ref.N);
				d = z.negate().multiply(r.modInverse(Ref.N)).mod(Ref.N);
				if (d.signum() == 0) d = Ref.ONE;
				break;
			}
			case 2: k = d; break;
		}
		if (hmac) k = new BigInteger(1, Ref.hmac("SHA-256", 64, Ref.be(d, 32), Ref.be(z, 32)));
		int[] key = Gen.ints(d), nonce = Gen.ints(k), or = Gen.ints(Gen.u256(s)), os = Gen.ints(Gen.u256(s)), r0 = or.clone(), s0 = os.clone();
		if (!hmac && k.equals(d) && s.flag()) { nonce = key; s.label("key and nonce are one array"); }
		int ar = s.lt(hmac ? 2 : 3), as = s.lt(hmac ? 2 : 3);
		if (ar == 0 && as == 0) ar = 1;
		int[] r = ar == 0 ? or : ar == 1 ? key : nonce, t = as == 0 ? os : as == 1 ? key : nonce;
		if (r == t) { t = os; as = 0; }
		s.note("key=%s hash=%s nonce=%s; r is put in array %d, s in array %d (1: key, 2: nonce)", h(d), h(z), h(k), ar, as);
		s.label(hmac ? "signWithHmacNonce" : "sign");
		BigInteger[] e = Ref.sign(d, z, k);
		Sha256Hash hz = PropsEcdsa.hash(z);
		boolean ok = hmac ? Ecdsa.signWithHmacNonce(key, hz, r, t) : Ecdsa.sign(key, hz, nonce, r, t);
		require(ok == (e != null), "signing returned %b", ok);
		if (ok) require(Gen.get(r, 0).equals(e[0]) && Gen.get(t, 0).equals(e[1]), "signing gave r=%s s=%s, expected r=%s s=%s", h(Gen.get(r, 0)), h(Gen.get(t, 0)), h(e[0]), h(e[1]));
		if (!ok || (r != key && t != key)) require(Gen.get(key, 0).equals(d), "signing changed the key");
		if (nonce != key && (!ok || (r != nonce && t != nonce))) require(Gen.get(nonce, 0).equals(k), "signing changed the nonce");
		if (!ok || r != or) require(Arrays.equals(or, r0), "signing changed another array");
		if (!ok || t != os) require(Arrays.equals(os, s0), "signing changed another array");
	}

	private static void verifying(Src s) {
		BigInteger k = Gen.scalar(s), z = Gen.anyHash(s), r = Ref.mulG(k).x.mod(Ref.N).max(Ref.ONE);
		BigInteger d = k.multiply(r).subtract(z).multiply(r.modInverse(Ref.N)).mod(Ref.N).max(Ref.ONE);
		if (s.chance(1, 4)) r = s.flag() ? Ref.ZERO : Gen.u256(s);
		if (s.chance(1, 8)) z = Gen.anyHash(s);
		Ref.Pt q = Ref.mulG(d);
		s.note("key %s, hash %s, r = s = %s", q, h(z), h(r));
		int[] key = new int[24], a = Gen.ints(r);
		Gen.put(key, 0, q.x);
		Gen.put(key, 8, q.y);
		Gen.put(key, 16, Ref.ONE);
		boolean exp = Ref.verify(q, z, r, r), got = Ecdsa.verify(key, PropsEcdsa.hash(z), a, a);
		s.label(exp ? "verify: accepted" : "verify: rejected");
		require(got == exp, "verify with r and s in one array gives %b, expected %b", got, exp);
		require(Gen.get(a, 0).equals(r), "verify changed r");
	}

	private static void hmac(Src s) {
		boolean big = s.flag();
		byte[] m = Gen.bytes(s, Gen.msgLen(s, big ? 128 : 64)), keep = m.clone();
		s.note("%s of %s with itself", big ? "HMAC-SHA-512" : "HMAC-SHA-256", Ref.hex(m));
		s.label(big ? "HMAC-SHA-512" : "HMAC-SHA-256");
		byte[] got = big ? Sha512.getHmac(m, m) : Sha256.getHmac(m, m).toBytes(), exp = Ref.hmac(big ? "SHA-512" : "SHA-256", big ? 128 : 64, keep, keep);
		require(Arrays.equals(got, exp), "the HMAC is %s, expected %s", Ref.hex(got), Ref.hex(exp));
		require(Arrays.equals(m, keep), "HMAC modified its input");
	}

	static void cheap(Src s) {
		s.nontrivial();
		switch (s.weighted(5, 3, 2)) {
			case 0: ints(s); break;
			case 1: points(s); break;
			default: hmac(s);
		}
	}
	static void ecdsa(Src s) {
		s.nontrivial();
		if (s.chance(1, 3)) verifying(s); else signing(s);
	}
	private PropsAlias() {}
}
