package pbt;

import static pbt.Fail.require;
import io.nayuki.bitcoin.crypto.Keccak256;
import io.nayuki.bitcoin.crypto.Ripemd160;
import io.nayuki.bitcoin.crypto.Sha256;
import io.nayuki.bitcoin.crypto.Sha256Hash;
import io.nayuki.bitcoin.crypto.Sha512;
import java.math.BigInteger;
import java.util.Arrays;

/** C12-C16 and C24 in Java. */
final class PropsHash {
	private static String brief(byte[] b) { return b.length <= 48 ? Ref.hex(b) : Ref.hex(Arrays.copyOf(b, 16)) + ".." + Ref.hex(Arrays.copyOfRange(b, b.length - 8, b.length)); }
	private static void eq(String what, byte[] got, byte[] exp, byte[] m) {
		require(Arrays.equals(got, exp), "%s of %d bytes [%s] is %s, expected %s", what, m.length, brief(m), Ref.hex(got), Ref.hex(exp));
	}
	private static byte[] message(Src s, int block) {
		byte[] b = Gen.bytes(s, Gen.msgLen(s, block));
		s.note("len=%d [%s]", b.length, brief(b));
		int pad = block == 128 ? 17 : block == 64 ? 9 : 1, r = b.length % block;
		s.label(b.length == 0 ? "empty" : r == 0 ? "whole blocks" : r + pad > block ? "padding needs an extra block" : r + pad == block ? "padding just fits" : "other");
		if (b.length > 0) s.nontrivial();
		return b;
	}
	private static void nulls(Runnable... f) {
		for (Runnable r : f)
			try {
				r.run();
				throw new Fail("null was accepted");
			} catch (NullPointerException e) {}
	}

	static void sha256(Src s) {
		byte[] m = message(s, 64), keep = m.clone(), e = Ref.digest("SHA-256", m);
		for (int i = 0, first = s.lt(2); i < 2; i++)
			if (i == first) eq("SHA-256", Sha256.getHash(m).toBytes(), e, m);
			else eq("double SHA-256", Sha256.getDoubleHash(m).toBytes(), Ref.digest("SHA-256", e), m);
		require(Arrays.equals(m, keep), "hashing modified its input");
	}
	static void sha512(Src s) {
		byte[] m = message(s, 128), keep = m.clone();
		byte[] r = Sha512.getHash(m);
		eq("SHA-512", r, Ref.digest("SHA-512", m), m);
		Arrays.fill(r, (byte)1);  // The result belongs to the caller
		eq("SHA-512", Sha512.getHash(m), Ref.digest("SHA-512", m), m);
		require(Arrays.equals(m, keep), "hashing modified its input");
	}
	static void ripemd(Src s) {
		byte[] m = message(s, 64), keep = m.clone();
		byte[] r = Ripemd160.getHash(m);
		eq("RIPEMD-160", r, Ref.ripemd160(m), m);
		Arrays.fill(r, (byte)1);
		eq("RIPEMD-160", Ripemd160.getHash(m), Ref.ripemd160(m), m);
		require(Arrays.equals(m, keep), "hashing modified its input");
	}
	static void keccak(Src s) {
		byte[] m = message(s, 136), keep = m.clone();
		byte[] r = Keccak256.getHash(m);
		eq("Keccak-256", r, Ref.keccak256(m), m);
		Arrays.fill(r, (byte)1);
		eq("Keccak-256", Keccak256.getHash(m), Ref.keccak256(m), m);
		require(Arrays.equals(m, keep), "hashing modified its input");
	}
	static void hmac(Src s) { hmac(s, s.flag()); }
	static void hmac256(Src s) { hmac(s, false); }
	private static void hmac(Src s, boolean big) {
		int block = big ? 128 : 64, n;
		switch (s.weighted(4, 5, 1)) {
			case 0: n = s.lt(block + 10); break;
			case 1: n = new int[]{block, block - 1, block + 1, 0, block / 2, 2 * block, 2 * block + 1, 33, 32, block + block / 2}[s.lt(10)]; break;
			default: n = s.chance(1, 4) ? s.lt(5000) : s.lt(600);
		}
		Integer kl = (Integer)s.recall("key length");
		n = kl != null ? kl : s.keep("key length", n);
		byte[] k = Gen.bytes(s, n), m = message(s, block), k0 = k.clone(), m0 = m.clone();
		s.note("%s key len=%d [%s]", big ? "sha512" : "sha256", n, brief(k));
		s.label(n < block ? "short key" : n == block ? "block-size key" : "long key");
		if (big) eq("HMAC-SHA-512", Sha512.getHmac(k, m), Ref.hmac("SHA-512", 128, k, m), m);
		else eq("HMAC-SHA-256", Sha256.getHmac(k, m).toBytes(), Ref.hmac("SHA-256", 64, k, m), m);
		require(Arrays.equals(k, k0) && Arrays.equals(m, m0), "HMAC modified an input");
	}

	/** Very long messages, where the length in bits passes 2^31 and 2^32 and the length in bytes nears 2^31. */
	static void huge(Src s, String alg, int base) {
		int len = base + (base > 0x7FFFFF00 - 300 ? -s.lt(200) : s.lt(300) - 20);
		s.note("%s of %d bytes", alg, len);
		s.nontrivial();
		byte[] m = new byte[len];
		for (int i = 0; i >= 0 && i < len; i += 4093) m[i] = (byte)(i >>> 5);
		byte[] got, exp;
		switch (alg) {
			case "SHA-256": got = Sha256.getHash(m).toBytes(); exp = Ref.digest("SHA-256", m); break;
			case "SHA-512": got = Sha512.getHash(m); exp = Ref.digest("SHA-512", m); break;
			case "RIPEMD-160": got = Ripemd160.getHash(m); exp = Ref.ripemd160(m); break;
			default: got = Keccak256.getHash(m); exp = Ref.keccak256(m);
		}
		eq(alg, got, exp, m);
	}
	static void hugeHmac(Src s) {
		int len = (1 << 29) - 64 - s.lt(300) + 150;
		boolean big = s.flag();
		byte[] k = Gen.bytes(s, s.lt(200)), m = new byte[len];
		s.note("HMAC %b of %d bytes", big, len);
		s.nontrivial();
		for (int i = 0; i >= 0 && i < len; i += 4093) m[i] = (byte)(i >>> 5);
		if (big) eq("HMAC-SHA-512", Sha512.getHmac(k, m), Ref.hmac("SHA-512", 128, k, m), m);
		else eq("HMAC-SHA-256", Sha256.getHmac(k, m).toBytes(), Ref.hmac("SHA-256", 64, k, m), m);
	}

	/** Lengths of all orders of magnitude between the small messages and the huge ones. */
	private static int largeLen(Src s) {
		int n = 1 << s.range(12, 22);
		return s.flag() ? n + s.lt(n) : n + s.lt(300) - 150;
	}
	private static byte[] fill(Src s, int n) {
		long x = s.u64();
		byte[] b = new byte[n];
		for (int i = 0; i < n; i++) { x = x * 6364136223846793005L + 1442695040888963407L; b[i] = (byte)(x >>> 56); }
		return b;
	}
	static void large(Src s, String alg) {
		byte[] m = fill(s, largeLen(s)), got, exp;
		s.note("%s of %d bytes", alg, m.length);
		s.nontrivial();
		switch (alg) {
			case "SHA-256": got = Sha256.getHash(m).toBytes(); exp = Ref.digest("SHA-256", m); break;
			case "SHA-512": got = Sha512.getHash(m); exp = Ref.digest("SHA-512", m); break;
			case "RIPEMD-160": got = Ripemd160.getHash(m); exp = Ref.ripemd160(m); break;
			default: got = Keccak256.getHash(m); exp = Ref.keccak256(m);
		}
		eq(alg, got, exp, m);
	}
	static void largeHmac(Src s) {
		boolean big = s.flag();
		int kind = s.lt(3);
		byte[] k = fill(s, kind == 1 ? s.lt(300) : largeLen(s)), m = fill(s, kind == 0 ? s.lt(300) : largeLen(s));
		s.note("%s key %d bytes, message %d bytes", big ? "sha512" : "sha256", k.length, m.length);
		s.nontrivial();
		if (big) eq("HMAC-SHA-512", Sha512.getHmac(k, m), Ref.hmac("SHA-512", 128, k, m), m);
		else eq("HMAC-SHA-256", Sha256.getHmac(k, m).toBytes(), Ref.hmac("SHA-256", 64, k, m), m);
	}

	private static String rev(byte[] b) {
		byte[] r = new byte[b.length];
		for (int i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i];
		return Ref.hex(r);
	}
	static void value(Src s) {
		byte[] x = Gen.bytes(s, 32), y;
		switch (s.weighted(3, 2, 3, 1)) {
			case 0: { y = x.clone(); int i = s.lt(32); y[i] = (byte)(s.flag() ? y[i] ^ 1 << s.lt(8) : s.u8()); break; }
			case 1: y = x.clone(); break;
			case 2: { y = x.clone(); for (int i = 0, n = s.range(1, 6); i < n; i++) y[s.lt(32)] = (byte)s.u8(); break; }
			default: y = Gen.bytes(s, 32);
		}
		s.note("%s %s", Ref.hex(x), Ref.hex(y));
		s.nontrivial();
		byte[] xi = x.clone();
		Sha256Hash a = new Sha256Hash(xi), b = new Sha256Hash(y.clone());
		if (s.flag()) { Arrays.fill(xi, (byte)s.u8()); Arrays.fill(a.toBytes(), (byte)s.u8()); }  // Neither array may be shared
		require(Arrays.equals(a.toBytes(), x), "bytes are %s", Ref.hex(a.toBytes()));
		a.toBytes()[s.lt(32)] ^= 1;
		require(Arrays.equals(a.toBytes(), x), "toBytes hands out its own array");
		require(a.toString().equals(rev(x)), "text is %s", a);
		char[] t = rev(x).toCharArray();
		int mode = s.lt(3);
		for (int i = 0; i < t.length; i++) if (mode == 1 || mode == 2 && s.flag()) t[i] = Character.toUpperCase(t[i]);
		Sha256Hash c = new Sha256Hash(new String(t));
		require(Arrays.equals(c.toBytes(), x), "from text %s: %s", new String(t), Ref.hex(c.toBytes()));
		require(a.equals(c) && c.equals(a) && a.hashCode() == c.hashCode() && a.compareTo(c) == 0, "equal values differ");
		require(a.equals(a) && a.compareTo(a) == 0 && !a.equals(null) && !a.equals(a.toString()) && !a.equals((Object)x), "equality with itself or another kind is wrong");
		boolean e = Arrays.equals(x, y);
		s.label(e ? "equal" : "different");
		int cmp = Integer.signum(new BigInteger(rev(x), 16).compareTo(new BigInteger(rev(y), 16)));
		require(a.equals(b) == e && b.equals(a) == e, "equals is %b", a.equals(b));
		require(Integer.signum(a.compareTo(b)) == cmp && Integer.signum(b.compareTo(a)) == -cmp, "compareTo is %d, reversed %d, expected sign %d", a.compareTo(b), b.compareTo(a), cmp);
		if (e) require(a.hashCode() == b.hashCode(), "hash codes of equal values differ");
		Sha256Hash[] bad = new Sha256Hash[1];
		String ts = new String(t), w;
		switch (s.lt(6)) {
			case 0: w = ts.substring(1); break;
			case 1: w = ts + ts.charAt(0); break;
			case 2: { int i = s.lt(64); w = ts.substring(0, i) + "gG/:@`xX -+\n\0\u0660\uff11".charAt(s.lt(15)) + ts.substring(i + 1); break; }
			case 3: w = ts + "\n"; break;
			case 4: w = ts.substring(0, s.lt(64)); break;
			default: w = ts + ts;
		}
		try { bad[0] = new Sha256Hash(w); throw new Fail("accepted the text \"" + w + "\""); } catch (IllegalArgumentException ex) {}
		int len = s.flag() ? 31 + 2 * s.lt(2) : s.lt(100);
		if (len != 32) try { bad[0] = new Sha256Hash(new byte[len]); throw new Fail("accepted " + len + " bytes"); } catch (IllegalArgumentException ex) {}
		nulls(() -> new Sha256Hash((byte[])null), () -> new Sha256Hash((String)null), () -> a.compareTo(null));
		require(Arrays.equals(a.toBytes(), x) && Arrays.equals(b.toBytes(), y), "a value changed");
	}
	private PropsHash() {}
}
