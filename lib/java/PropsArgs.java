package pbt;

import static pbt.Fail.require;
import io.nayuki.bitcoin.crypto.Base58Check;
import io.nayuki.bitcoin.crypto.Bech32;
import io.nayuki.bitcoin.crypto.Ecdsa;
import io.nayuki.bitcoin.crypto.Int256Math;
import io.nayuki.bitcoin.crypto.Keccak256;
import io.nayuki.bitcoin.crypto.Ripemd160;
import io.nayuki.bitcoin.crypto.Sha256;
import io.nayuki.bitcoin.crypto.Sha256Hash;
import io.nayuki.bitcoin.crypto.Sha512;
import java.math.BigInteger;
import java.util.Arrays;

/** C32: arguments outside the documented domain are refused, without any effect. */
final class PropsArgs {
	private interface Call { Object run() throws Exception; }

	/** Requires the exception for null (if any argument is) or for another bad argument, or either if both kinds are present. */
	private static void refused(Src s, String what, boolean nulls, boolean others, Call c) {
		Object r;
		s.label((nulls ? others ? "null and bad: " : "null: " : "bad: ") + what);
		try {
			r = c.run();
		} catch (NullPointerException e) {
			require(nulls, "%s reported a null argument, but had another fault: %s", what, e);
			return;
		} catch (IllegalArgumentException e) {
			require(others, "%s reported an illegal argument, but had a null one: %s", what, e);
			return;
		} catch (Throwable e) {
			throw new Fail(String.format(java.util.Locale.ROOT, "%s threw %s instead of reporting a bad argument", what, e));
		}
		throw new Fail(String.format(java.util.Locale.ROOT, "%s returned %s for a bad argument", what, r instanceof byte[] ? Ref.hex((byte[])r) : r));
	}
	private static int otherLength(Src s, int n) {
		int r;
		switch (s.lt(4)) {
			case 0: r = n + 1 + s.lt(4); break;
			case 1: r = n - 1 - s.lt(Math.min(n, 4)); break;
			case 2: r = n == 8 ? 24 : n == 24 ? 8 : n == 32 ? 33 : 2 * n; break;
			default: r = s.lt(4 * n); 
		}
		return r == n ? n + 1 : r;
	}
	private static int[] words(Src s, int n) {
		int[] r = new int[n];
		for (int i = 0; i < n; i += 8) {
			int[] w = Gen.ints(Gen.u256(s));
			System.arraycopy(w, 0, r, i, Math.min(8, n - i));
		}
		return r;
	}

	/** Arrays of ints of which at least one is null or has a wrong length. */
	private static final class Ints {
		int[][] v, keep;
		boolean nulls, others;
		Ints(Src s, boolean mustSpoil, int[]... good) {
			v = good;
			int must = mustSpoil ? s.lt(v.length) : -1;
			for (int i = 0; i < v.length; i++) {
				if (i != must && !s.chance(1, 8)) continue;
				if (i != must && !mustSpoil) continue;
				if (s.chance(1, 4)) { v[i] = null; nulls = true; }
				else {
					int n = v[i].length, m = otherLength(s, n);
					int[] w = Arrays.copyOf(v[i], m);  // Begins with the good value
					if (m > n && s.flag()) System.arraycopy(words(s, m - n), 0, w, n, m - n);
					v[i] = w;
					others = true;
				}
			}
			keep = new int[v.length][];
			for (int i = 0; i < v.length; i++) keep[i] = v[i] == null ? null : v[i].clone();
		}
		String text() {
			StringBuilder r = new StringBuilder();
			for (int[] x : v) r.append(' ').append(x == null ? "null" : x.length + " words");
			return r.toString();
		}
		void unchanged(String what) { for (int i = 0; i < v.length; i++) require(Arrays.equals(v[i], keep[i]), "%s changed array %d before refusing", what, i); }
	}

	private static void ecdsa(Src s) {
		BigInteger[] t = PropsEcdsa.signInputs(s);  // Key, hash, nonce
		boolean noHash = s.chance(1, 6);
		Sha256Hash h = noHash ? null : new Sha256Hash(Ref.be(t[1], 32));
		int op = s.lt(3);
		int[] key = Gen.ints(t[0]), nonce = Gen.ints(t[2]), a = words(s, 8), b = words(s, 8);
		Ints x;
		String what;
		Call c;
		boolean spoil = !noHash || s.flag();
		if (s.chance(1, 5)) (s.flag() ? key : op == 0 ? nonce : a)[s.lt(8)] = Gen.word(s);
		switch (op) {
			case 0: x = new Ints(s, spoil, key, nonce, a, b); what = "sign"; c = () -> Ecdsa.sign(x.v[0], h, x.v[1], x.v[2], x.v[3]); break;
			case 1: x = new Ints(s, spoil, key, a, b); what = "signWithHmacNonce"; c = () -> Ecdsa.signWithHmacNonce(x.v[0], h, x.v[1], x.v[2]); break;
			default: {
				Ref.Pt q = Ref.mul(Ref.G, Ref.bi(1 + s.lt(30)));
				BigInteger[] p = Gen.proj(q, Ref.ONE);
				int[] k = new int[24];
				for (int i = 0; i < 3; i++) Gen.put(k, 8 * i, p[i]);
				if (s.flag()) { Gen.put(a, 0, Gen.scalar(s)); Gen.put(b, 0, Gen.scalar(s)); }  // Else often refused for their values
				if (s.chance(1, 6)) Gen.put(a, 0, Ref.ZERO);
				x = new Ints(s, spoil, k, a, b);
				what = "verify";
				c = () -> Ecdsa.verify(x.v[0], h, x.v[1], x.v[2]);
			}
		}
		s.note("%s%s hash %s", what, x.text(), h);
		refused(s, what, x.nulls || noHash, x.others, c);
		x.unchanged(what);
		require(h == null || Arrays.equals(h.toBytes(), Ref.be(t[1], 32)), "%s changed the hash", what);
	}

	private static String badHex(Src s, int n) {
		StringBuilder b = new StringBuilder(Ref.hex(Ref.be(Gen.u256(s), 32)));
		switch (s.weighted(2, 5, 1, 1, 1)) {
			case 0: b.setLength(s.flag() ? n - 1 : s.lt(n)); break;
			case 1: {
				int i = s.lt(n);
				char c;
				switch (s.lt(6)) {
					case 0: c = "gG/:@`+- _xX.\n\0#".charAt(s.lt(16)); break;
					case 1: c = (char)(0x660 + s.lt(10)); break;  // Digits of other scripts
					case 2: c = (char)(0xFF10 + s.lt(10)); break;
					case 3: c = (char)((s.flag() ? 0xFF21 : 0xFF41) + s.lt(6)); break;
					case 4: c = (char)(b.charAt(i) + 256 * (1 + s.lt(255))); break;
					default: c = (char)s.lt(65536); if (Character.digit(c, 16) >= 0 && c < 128) c = 'g';
				}
				b.setCharAt(i, c);
				break;
			}
			case 2: b.append(s.flag() ? '\n' : '0'); break;
			case 3: b.insert(0, s.flag() ? "0x" : "0"); if (s.flag()) { b.setLength(n); if (b.charAt(1) != 'x') b.setCharAt(0, '+'); } break;
			default: b.append(b);
		}
		return b.toString();
	}

	private static void numbers(Src s) {
		int[] v = words(s, 8 * (1 + s.lt(3))), keep = v.clone();
		int off = 8 * s.lt(v.length / 8);
		if (s.chance(1, 10)) {
			boolean hex = s.flag();
			s.note("%s(null)", hex ? "hexToUint" : "bytesToUint");
			refused(s, "conversion", true, false, () -> { if (hex) Int256Math.hexToUint(null, v, off); else Int256Math.bytesToUint(null, v, off); return null; });
		} else if (s.flag()) {
			String t = badHex(s, 64);
			s.note("hexToUint(\"%s\")", Main.js(t));
			refused(s, "hexToUint", false, true, () -> { Int256Math.hexToUint(t, v, off); return null; });
		} else {
			byte[] b = Gen.bytes(s, otherLength(s, 32)), kb = b.clone();
			s.note("bytesToUint of %d bytes", b.length);
			refused(s, "bytesToUint", false, true, () -> { Int256Math.bytesToUint(b, v, off); return null; });
			require(Arrays.equals(b, kb), "bytesToUint changed its input");
		}
		require(Arrays.equals(v, keep), "a refused conversion changed the array");
	}

	private static void reciprocal(Src s) {
		BigInteger m, x;
		String why;
		switch (s.lt(4)) {
			case 0: m = Gen.u256(s).clearBit(0); x = s.flag() && m.signum() > 0 ? Gen.below(s, m) : Gen.u256(s); why = "even modulus"; break;
			case 1: m = Ref.ONE; x = s.flag() ? Ref.ZERO : Gen.u256(s); why = "modulus 1"; break;
			case 2: m = Gen.u256(s).setBit(0); x = s.flag() ? m : m.add(Gen.below(s, Ref.T256.subtract(m))); why = "value not below modulus"; break;
			default: {
				BigInteger f = Gen.u256(s).shiftRight(s.range(1, 253)).setBit(0), k = Gen.u256(s).shiftRight(s.range(1, 254)).setBit(0);
				if (f.equals(Ref.ONE)) f = Ref.bi(3);
				if (k.equals(Ref.ONE)) k = Ref.bi(7);
				while (f.multiply(k).bitLength() > 256) { if (f.bitLength() > 2) f = f.shiftRight(1).setBit(0); if (k.bitLength() > 2) k = k.shiftRight(1).setBit(0); }
				m = f.multiply(k);
				x = f.multiply(Gen.below(s, k.subtract(Ref.ONE)).add(Ref.ONE));
				why = "common factor";
			}
		}
		s.note("reciprocal of %s modulo %s (%s)", x.toString(16), m.toString(16), why);
		Arr a = new Arr(s, 8, 8, 8, Int256Math.RECIPROCAL_TEMP_WORDS);
		a.put(0, x);
		a.put(1, m);
		a.ready();
		refused(s, "reciprocal, " + why, false, true, () -> { Int256Math.reciprocal(a.v, a.off[0], a.off[1], a.off[2], a.off[3]); return null; });
		a.check("a refused reciprocal", 2, 8, 3, Int256Math.RECIPROCAL_TEMP_WORDS);
	}

	private static void hashes(Src s) {
		byte[] some = Gen.bytes(s, s.lt(200));
		int op = s.lt(14);
		s.note("hash case %d", op);
		Sha256Hash h = new Sha256Hash(Ref.be(Gen.u256(s), 32));
		switch (op) {
			case 0: refused(s, "Sha256.getHash", true, false, () -> Sha256.getHash(null)); break;
			case 1: refused(s, "Sha256.getDoubleHash", true, false, () -> Sha256.getDoubleHash(null)); break;
			case 2: refused(s, "Sha256.getHmac", true, false, () -> Sha256.getHmac(null, some)); break;
			case 3: refused(s, "Sha256.getHmac", true, false, () -> Sha256.getHmac(some, null)); break;
			case 4: refused(s, "Sha512.getHash", true, false, () -> Sha512.getHash(null)); break;
			case 5: refused(s, "Sha512.getHmac", true, false, () -> Sha512.getHmac(null, some)); break;
			case 6: refused(s, "Sha512.getHmac", true, false, () -> Sha512.getHmac(some, null)); break;
			case 7: refused(s, "Ripemd160.getHash", true, false, () -> Ripemd160.getHash(null)); break;
			case 8: refused(s, "Keccak256.getHash", true, false, () -> Keccak256.getHash(null)); break;
			case 9: refused(s, "Sha256Hash of bytes", true, false, () -> new Sha256Hash((byte[])null)); break;
			case 10: refused(s, "Sha256Hash of text", true, false, () -> new Sha256Hash((String)null)); break;
			case 11: refused(s, "compareTo", true, false, () -> h.compareTo(null)); break;
			case 12: {
				byte[] b = Gen.bytes(s, otherLength(s, 32));
				s.note("of %d bytes", b.length);
				refused(s, "Sha256Hash of bytes", false, true, () -> new Sha256Hash(b));
				break;
			}
			default: {
				String t = badHex(s, 64);
				s.note("of \"%s\"", Main.js(t));
				refused(s, "Sha256Hash of text", false, true, () -> new Sha256Hash(t));
			}
		}
	}

	private static void texts(Src s) {
		String h = PropsText.human(s, 20);
		byte[] p = Gen.bytes(s, s.range(2, 40));
		int op = s.lt(10), v = s.lt(17);
		s.note("text case %d", op);
		switch (op) {
			case 0: refused(s, "Base58Check.bytesToBase58", true, true, () -> Base58Check.bytesToBase58(null)); break;
			case 1: refused(s, "Base58Check.base58ToBytes", true, true, () -> Base58Check.base58ToBytes(null)); break;
			case 2: refused(s, "segwitToBech32", true, false, () -> Bech32.segwitToBech32(null, v, p)); break;
			case 3: refused(s, "segwitToBech32", true, false, () -> Bech32.segwitToBech32(h, v, null)); break;
			case 4: refused(s, "bech32ToSegwit", true, false, () -> Bech32.bech32ToSegwit(null)); break;
			case 5: refused(s, "bitGroupsToBech32", true, false, () -> Bech32.bitGroupsToBech32(null, new byte[0])); break;
			case 6: refused(s, "bitGroupsToBech32", true, false, () -> Bech32.bitGroupsToBech32(h, null)); break;
			case 7: refused(s, "bech32ToBitGroups", true, false, () -> Bech32.bech32ToBitGroups(null)); break;
			case 8: {  // Any combination of faults
				boolean nh = s.chance(1, 4), np = s.chance(1, 4);
				int bv = s.flag() ? v : s.flag() ? 17 + s.lt(300) : -1 - s.lt(300);
				byte[] bp = s.flag() ? p : Gen.bytes(s, s.flag() ? s.lt(2) : 41 + s.lt(300));
				String bh = s.flag() ? h : "";
				boolean other = bv != v || bp != p || bh != h;
				if (!nh && !np && !other) { nh = true; }
				boolean nulls = nh || np;
				String ah = nh ? null : bh;
				byte[] ap = np ? null : bp;
				s.note("hrp %s version %d program %s", ah, bv, ap == null ? "null" : ap.length + " bytes");
				refused(s, "segwitToBech32", nulls, other && (bv != v || !nh && bh != h || !np && bp != p), () -> Bech32.segwitToBech32(ah, bv, ap));
				break;
			}
			default: {
				byte[] g = PropsText.b5(PropsText.groups(s, s.lt(60)));
				byte[] gk;
				String bh = h;
				switch (s.lt(3)) {
					case 0: g = Arrays.copyOf(g, g.length + 1); g[s.lt(g.length)] = (byte)(32 + s.lt(224)); break;
					case 1: bh = ""; break;
					default: g = Arrays.copyOf(g, 84 - h.length() + s.lt(2000));
				}
				gk = g.clone();
				byte[] ag = g;
				String ah = bh;
				s.note("hrp %s groups %s", ah, Ref.hex(ag));
				refused(s, "bitGroupsToBech32", false, true, () -> Bech32.bitGroupsToBech32(ah, ag));
				require(Arrays.equals(ag, gk), "bitGroupsToBech32 changed its input");
			}
		}
	}

	static void refusals(Src s) {
		s.nontrivial();
		switch (s.weighted(8, 4, 3, 3, 3)) {
			case 0: ecdsa(s); break;
			case 1: numbers(s); break;
			case 2: reciprocal(s); break;
			case 3: hashes(s); break;
			default: texts(s);
		}
	}
	private PropsArgs() {}
}
