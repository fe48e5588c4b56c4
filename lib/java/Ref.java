package pbt;

import java.math.BigInteger;
import java.util.Arrays;

/** Independent models of the curve, ECDSA and the hashes the JDK lacks. */
final class Ref {
	static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.TWO;
	static final BigInteger T256 = ONE.shiftLeft(256);
	static final BigInteger P = T256.subtract(ONE.shiftLeft(32)).subtract(BigInteger.valueOf(977));
	static final BigInteger N = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
	static final Pt G = new Pt(new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16),
		new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16));
	static final BigInteger BETA = new BigInteger("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE", 16);

	static BigInteger bi(long x) { return BigInteger.valueOf(x); }

	/** An affine point; INF stands for zero. */
	static final class Pt {
		final BigInteger x, y;
		Pt(BigInteger x, BigInteger y) { this.x = x; this.y = y; }
		boolean inf() { return x == null; }
		boolean same(Pt o) { return inf() ? o.inf() : !o.inf() && x.equals(o.x) && y.equals(o.y); }
		@Override public String toString() { return inf() ? "zero" : "(" + x.toString(16) + ", " + y.toString(16) + ")"; }
	}
	static final Pt INF = new Pt(null, null);

	static Pt neg(Pt a) { return a.inf() ? a : new Pt(a.x, P.subtract(a.y).mod(P)); }
	static Pt add(Pt a, Pt b) {
		if (a.inf()) return b;
		if (b.inf()) return a;
		BigInteger l;
		if (a.x.equals(b.x)) {
			if (!a.y.equals(b.y) || a.y.signum() == 0) return INF;
			l = a.x.multiply(a.x).multiply(bi(3)).multiply(a.y.shiftLeft(1).modInverse(P)).mod(P);
		} else
			l = b.y.subtract(a.y).multiply(b.x.subtract(a.x).modInverse(P)).mod(P);
		BigInteger x = l.multiply(l).subtract(a.x).subtract(b.x).mod(P);
		return new Pt(x, l.multiply(a.x.subtract(x)).subtract(a.y).mod(P));
	}
	static Pt mul(Pt a, BigInteger k) {
		Pt r = INF;
		for (int i = k.bitLength() - 1; i >= 0; i--) {
			r = add(r, r);
			if (k.testBit(i)) r = add(r, a);
		}
		return r;
	}
	private static final Pt[] POW = new Pt[256];
	static synchronized Pt mulG(BigInteger k) {
		if (POW[0] == null) {
			Pt q = G;
			for (int i = 0; i < 256; i++) { POW[i] = q; q = add(q, q); }
		}
		Pt r = INF;
		for (int i = 0; i < k.bitLength(); i++) if (k.testBit(i)) r = add(r, POW[i]);
		return r;
	}
	static boolean onCurve(BigInteger x, BigInteger y) { return y.multiply(y).subtract(x.multiply(x).multiply(x)).subtract(bi(7)).mod(P).signum() == 0; }
	static Pt lift(BigInteger x, boolean odd) {
		BigInteger t = x.pow(3).add(bi(7)).mod(P), y = t.modPow(P.add(ONE).shiftRight(2), P);
		if (!y.multiply(y).mod(P).equals(t)) return null;
		if (y.testBit(0) != odd) y = P.subtract(y).mod(P);
		return new Pt(x, y);
	}

	/** {r, s}, or null if signing must fail. */
	static BigInteger[] sign(BigInteger d, BigInteger z, BigInteger k) {
		if (k.signum() == 0 || k.compareTo(N) >= 0) return null;
		BigInteger r = mulG(k).x.mod(N);
		if (r.signum() == 0) return null;
		BigInteger s = k.modInverse(N).multiply(z.add(r.multiply(d))).mod(N);
		if (s.signum() == 0) return null;
		return new BigInteger[]{r, s.min(N.subtract(s))};
	}
	static boolean verify(Pt q, BigInteger z, BigInteger r, BigInteger s) {
		if (r.signum() <= 0 || r.compareTo(N) >= 0 || s.signum() <= 0 || s.compareTo(N) >= 0) return false;
		if (q.inf()) return false;
		BigInteger w = s.modInverse(N);
		Pt p = add(mulG(z.multiply(w).mod(N)), mul(q, r.multiply(w).mod(N)));
		return !p.inf() && p.x.mod(N).equals(r);
	}

	/*---- Bytes ----*/
	static byte[] be(BigInteger x, int n) {
		byte[] r = new byte[n];
		for (int i = 0; i < n; i++) r[n - 1 - i] = (byte)x.shiftRight(8 * i).intValue();
		return r;
	}
	static BigInteger fromBe(byte[] b) { return new BigInteger(1, b); }
	static String hex(byte[] b) {
		StringBuilder r = new StringBuilder();
		for (byte x : b) r.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16));
		return r.toString();
	}
	static byte[] cat(byte[]... a) {
		int n = 0;
		for (byte[] x : a) n += x.length;
		byte[] r = new byte[n];
		n = 0;
		for (byte[] x : a) { System.arraycopy(x, 0, r, n, x.length); n += x.length; }
		return r;
	}

	static byte[] digest(String alg, byte[]... parts) {
		try {
			java.security.MessageDigest d = java.security.MessageDigest.getInstance(alg);
			for (byte[] p : parts) d.update(p);
			return d.digest();
		} catch (java.security.GeneralSecurityException e) { throw new IllegalStateException(e); }
	}
	static byte[] hmac(String alg, int block, byte[] key, byte[] msg) {
		byte[] k = Arrays.copyOf(key.length > block ? digest(alg, key) : key, block), i = new byte[block], o = new byte[block];
		for (int j = 0; j < block; j++) { i[j] = (byte)(k[j] ^ 0x36); o[j] = (byte)(k[j] ^ 0x5C); }
		return digest(alg, o, digest(alg, i, msg));
	}

	/*---- RIPEMD-160, from the specification's description ----*/
	static byte[] ripemd160(byte[] m) {
		int[] h = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
		int full = m.length / 64;
		for (int i = 0; i < full; i++) ripemdBlock(h, m, i * 64);
		byte[] tail = new byte[m.length % 64 < 56 ? 64 : 128];
		System.arraycopy(m, full * 64, tail, 0, m.length % 64);
		tail[m.length % 64] = (byte)0x80;
		long bits = 8L * m.length;
		for (int i = 0; i < 8; i++) tail[tail.length - 8 + i] = (byte)(bits >> (8 * i));
		for (int i = 0; i < tail.length; i += 64) ripemdBlock(h, tail, i);
		byte[] r = new byte[20];
		for (int i = 0; i < 20; i++) r[i] = (byte)(h[i / 4] >> (8 * (i % 4)));
		return r;
	}
	private static final int[] RHO = {7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8};
	private static final int[][] SHIFT = {
		{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8},
		{12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
		{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9},
		{14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6},
		{15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5}};
	private static final int[][] ORD = new int[2][80];
	static {
		for (int i = 0; i < 16; i++) { ORD[0][i] = i; ORD[1][i] = (9 * i + 5) % 16; }
		for (int i = 16; i < 80; i++) for (int l = 0; l < 2; l++) ORD[l][i] = RHO[ORD[l][i - 16]];
	}
	private static int rf(int j, int x, int y, int z) {
		switch (j / 16) {
			case 0: return x ^ y ^ z;
			case 1: return (x & y) | (~x & z);
			case 2: return (x | ~y) ^ z;
			case 3: return (x & z) | (y & ~z);
			default: return x ^ (y | ~z);
		}
	}
	private static void ripemdBlock(int[] h, byte[] b, int off) {
		int[] x = new int[16];
		for (int i = 0; i < 16; i++) x[i] = (b[off + 4 * i] & 255) | (b[off + 4 * i + 1] & 255) << 8 | (b[off + 4 * i + 2] & 255) << 16 | (b[off + 4 * i + 3] & 255) << 24;
		int[][] k = {{0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}, {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0}};
		int[][] v = new int[2][];
		for (int l = 0; l < 2; l++) {
			int a = h[0], c1 = h[1], c = h[2], d = h[3], e = h[4];
			for (int j = 0; j < 80; j++) {
				int w = ORD[l][j];
				int t = Integer.rotateLeft(a + rf(l == 0 ? j : 79 - j, c1, c, d) + x[w] + k[l][j / 16], SHIFT[j / 16][w]) + e;
				a = e; e = d; d = Integer.rotateLeft(c, 10); c = c1; c1 = t;
			}
			v[l] = new int[]{a, c1, c, d, e};
		}
		int t = h[1] + v[0][2] + v[1][3];
		h[1] = h[2] + v[0][3] + v[1][4];
		h[2] = h[3] + v[0][4] + v[1][0];
		h[3] = h[4] + v[0][0] + v[1][1];
		h[4] = h[0] + v[0][1] + v[1][2];
		h[0] = t;
	}

	/*---- Keccak-256 with the original padding ----*/
	static byte[] keccak256(byte[] m) {
		long[][] a = new long[5][5];
		int rate = 136, full = m.length / rate;
		for (int i = 0; i < full; i++) absorb(a, m, i * rate);
		byte[] tail = new byte[rate];
		System.arraycopy(m, full * rate, tail, 0, m.length % rate);
		tail[m.length % rate] ^= 0x01;
		tail[rate - 1] ^= (byte)0x80;
		absorb(a, tail, 0);
		byte[] r = new byte[32];
		for (int i = 0; i < 32; i++) r[i] = (byte)(a[i / 8][0] >>> (8 * (i % 8)));
		return r;
	}
	private static void absorb(long[][] a, byte[] b, int off) {
		for (int i = 0; i < 136; i++) a[i / 8 % 5][i / 40] ^= (b[off + i] & 255L) << (8 * (i % 8));
		keccakF(a);
	}
	private static final long[] RC = new long[24];
	private static final int[][] ROT = new int[5][5];
	static {
		int lfsr = 1;
		for (int r = 0; r < 24; r++)
			for (int j = 0; j < 7; j++) {
				if ((lfsr & 1) != 0) RC[r] |= 1L << ((1 << j) - 1);
				lfsr <<= 1;
				if ((lfsr & 0x100) != 0) lfsr ^= 0x171;
			}
		int x = 1, y = 0;
		for (int t = 0; t < 24; t++) {
			ROT[x][y] = (t + 1) * (t + 2) / 2 % 64;
			int ny = (2 * x + 3 * y) % 5;
			x = y;
			y = ny;
		}
	}
	private static void keccakF(long[][] a) {
		for (int r = 0; r < 24; r++) {
			long[] c = new long[5];
			for (int x = 0; x < 5; x++) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
			for (int x = 0; x < 5; x++) {
				long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
				for (int y = 0; y < 5; y++) a[x][y] ^= d;
			}
			long[][] b = new long[5][5];
			for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y][(2 * x + 3 * y) % 5] = Long.rotateLeft(a[x][y], ROT[x][y]);
			for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) a[x][y] = b[x][y] ^ (~b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
			a[0][0] ^= RC[r];
		}
	}

	/*---- Base58 and Bech32 ----*/
	static final String B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
	static String base58(byte[] b) {
		int[] d = new int[b.length * 2 + 1];  // Little-endian base-58 digits, by schoolbook conversion
		int n = 0, zeros = 0;
		for (byte x : b) {
			int carry = x & 255;
			for (int i = 0; i < n; i++) { carry += d[i] * 256; d[i] = carry % 58; carry /= 58; }
			while (carry > 0) { d[n++] = carry % 58; carry /= 58; }
		}
		while (zeros < b.length && b[zeros] == 0) zeros++;
		StringBuilder r = new StringBuilder();
		for (int i = 0; i < zeros; i++) r.append('1');
		for (int i = n - 1; i >= 0; i--) r.append(B58.charAt(d[i]));
		return r.toString();
	}
	static String base58check(byte[] data) { return base58(cat(data, Arrays.copyOf(digest("SHA-256", digest("SHA-256", data)), 4))); }

	static final String B32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
	/** Checksum by polynomial division over GF(32), with the generator's coefficients written out. */
	static int[] bech32check(String hrp, int[] data) {
		int n = hrp.length();
		int[] v = new int[1 + 2 * n + 1 + data.length + 6];
		v[0] = 1;  // The initial state
		for (int i = 0; i < n; i++) { v[1 + i] = hrp.charAt(i) >> 5; v[2 + n + i] = hrp.charAt(i) & 31; }
		System.arraycopy(data, 0, v, 2 + 2 * n, data.length);
		int[] g = {29, 22, 20, 21, 29, 18};  // x^6 + 29x^5 + 22x^4 + 20x^3 + 21x^2 + 29x + 18
		for (int i = 0; i + 6 < v.length; i++) {
			int c = v[i];
			if (c == 0) continue;
			v[i] = 0;
			for (int j = 0; j < 6; j++) v[i + 1 + j] ^= gf32(c, g[j]);
		}
		int[] r = Arrays.copyOfRange(v, v.length - 6, v.length);
		r[5] ^= 1;
		return r;
	}
	static int gf32(int a, int b) {  // GF(2)[x] / (x^5 + x^3 + 1)
		int r = 0;
		for (int i = 0; i < 5; i++) if ((b >> i & 1) != 0) r ^= a << i;
		for (int i = 9; i >= 5; i--) if ((r >> i & 1) != 0) r ^= 0x29 << (i - 5);
		return r;
	}
	static String bech32(String hrp, int[] data) {
		StringBuilder r = new StringBuilder(hrp).append('1');
		for (int d : data) r.append(B32.charAt(d));
		for (int d : bech32check(hrp, data)) r.append(B32.charAt(d));
		return r.toString();
	}
	/** The strict decoder of BIP 173; null if the text is invalid. */
	static Object[] unbech32(String t) {
		if (t.length() > 90) return null;
		boolean lo = false, up = false;
		StringBuilder b = new StringBuilder();
		for (int i = 0; i < t.length(); i++) {
			char c = t.charAt(i);
			if (c < 33 || c > 126) return null;
			if (c >= 'a' && c <= 'z') lo = true;
			if (c >= 'A' && c <= 'Z') { up = true; c += 32; }
			b.append(c);
		}
		if (lo && up) return null;
		int sep = b.lastIndexOf("1");
		if (sep < 1 || sep > 83 || b.length() - sep - 1 < 6) return null;
		int[] all = new int[b.length() - sep - 1];
		for (int i = 0; i < all.length; i++) {
			all[i] = B32.indexOf(b.charAt(sep + 1 + i));
			if (all[i] < 0) return null;
		}
		String hrp = b.substring(0, sep);
		int[] data = Arrays.copyOf(all, all.length - 6);
		if (!Arrays.equals(bech32check(hrp, data), Arrays.copyOfRange(all, all.length - 6, all.length))) return null;
		return new Object[]{hrp, data};
	}
	static int[] to5(byte[] b) {
		int[] r = new int[(b.length * 8 + 4) / 5];
		for (int i = 0; i < r.length * 5; i++)
			if (i < b.length * 8 && (b[i / 8] >> (7 - i % 8) & 1) != 0) r[i / 5] |= 16 >> (i % 5);
		return r;
	}
	/** {hrp, version, program} or null. */
	static Object[] unsegwit(String t) {
		Object[] d = unbech32(t);
		if (d == null) return null;
		int[] v = (int[])d[1];
		if (v.length < 1 || v[0] > 16) return null;
		int bits = (v.length - 1) * 5, n = bits / 8;
		if (n < 2 || n > 40 || bits - n * 8 > 4) return null;
		byte[] p = new byte[n];
		for (int i = 0; i < bits; i++) {
			int bit = v[1 + i / 5] >> (4 - i % 5) & 1;
			if (i < n * 8) p[i / 8] |= bit << (7 - i % 8);
			else if (bit != 0) return null;
		}
		return new Object[]{d[0], v[0], p};
	}

	private Ref() {}
}
