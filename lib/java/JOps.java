package pbt;

import io.nayuki.bitcoin.crypto.Base58Check;
import io.nayuki.bitcoin.crypto.Bech32;
import io.nayuki.bitcoin.crypto.CurvePointMath;
import io.nayuki.bitcoin.crypto.Ecdsa;
import io.nayuki.bitcoin.crypto.Int256Math;
import io.nayuki.bitcoin.crypto.Keccak256;
import io.nayuki.bitcoin.crypto.Ripemd160;
import io.nayuki.bitcoin.crypto.Sha256;
import io.nayuki.bitcoin.crypto.Sha256Hash;
import io.nayuki.bitcoin.crypto.Sha512;
import java.util.Arrays;
import java.util.HashMap;
import java.util.Map;

/**
 * Every public operation of the Java library behind one function. Operations that C++ offers too have the names,
 * operands (numbers as 32 bytes in little endian, points as three of them) and outcomes of lib/cpp/ops.hpp.
 */
public final class JOps implements JRun {
	/** Names; operands: U number, F field element, P point, H hash, V bytes, S text (null-terminated); small letters: outputs only. */
	static final String[][] OPS = {
		{"U_ADD", "UU"}, {"U_SUB", "UU"}, {"U_SHL", "U"}, {"U_SHR", "U"}, {"U_REPLACE", "UU"}, {"U_SWAP", "UU"}, {"U_BYTES", "Uv"}, {"U_FROMBYTES", "uH"},
		{"U_FROMSTR", "uS"}, {"U_EQ", "UU"}, {"U_NE", "UU"}, {"U_LT", "UU"}, {"U_LE", "UU"}, {"U_GT", "UU"}, {"U_GE", "UU"}, {"H_FROMBYTES", "hH"}, {"H_FROMSTR", "hS"}, {"H_EQ", "HH"}, {"H_NE", "HH"},
		{"F_ADD", "FF"}, {"F_SUB", "FF"}, {"F_MUL2", "F"}, {"F_MUL", "FF"}, {"F_SQR", "F"}, {"F_MULSELF", "F"}, {"F_REPLACE", "FF"}, {"F_BYTES", "Fv"}, {"F_FROMSTR", "uS"}, {"F_EQ", "FF"}, {"F_NE", "FF"}, {"F_LT", "FF"}, {"F_LE", "FF"}, {"F_GT", "FF"}, {"F_GE", "FF"},
		{"P_ADD", "PP"}, {"P_TWICE", "P"}, {"P_REPLACE", "PP"}, {"P_ISZERO", "P"}, {"P_ONCURVE", "P"},
		{"SHA256", "hV"}, {"SHA256D", "hV"}, {"SHA512", "vV"}, {"HMAC256", "hVV"}, {"HMAC512", "vVV"}, {"RIPEMD", "vV"}, {"KECCAK", "vV"},
		{"EXPORT_HASH", "tV"}, {"EXPORT_KEY", "tU"}, {"IMPORT_HASH", "VSV"}, {"IMPORT_KEY", "USVV"},
		// Not in C++
		{"BASE58_ENC", "V"}, {"BASE58_DEC", "S"}, {"SEGWIT_ENC", "SV"}, {"SEGWIT_DEC", "S"}, {"GROUPS_ENC", "SV"}, {"GROUPS_DEC", "S"}, {"HASH_VALUE", "H"}, {"HASH_COMPARE", "HH"},
		{"U_TOHEX", "U"}, {"COPY", "UU"}, {"P_COPY", "PP"}, {"BASE_POINT", ""},
		// Slow
		{"U_RECIP", "UU"}, {"F_RECIP", "F"}, {"P_NORM", "P"}, {"P_MUL", "PU"}, {"P_PUB", "pU"}, {"SIGN", "UUUHU"}, {"SIGN_HMAC", "UUUH"}, {"VERIFY", "PHUU"},
	};
	static final int SLOW;
	private static final Map<String, Integer> INDEX = new HashMap<>();
	static { for (int i = 0; i < OPS.length; i++) INDEX.put(OPS[i][0], i); SLOW = INDEX.get("U_RECIP"); }
	static int find(String name) { return INDEX.getOrDefault(name, -1); }
	private static final char[] HEX = "0123456789abcdef".toCharArray();

	static String hex(byte[] b) {
		char[] r = new char[b.length * 2];
		for (int i = 0; i < b.length; i++) { r[2 * i] = HEX[b[i] >>> 4 & 15]; r[2 * i + 1] = HEX[b[i] & 15]; }
		return new String(r);
	}
	private static String hex(int[] v, int off, int n) { return hex(bytes(v, off, n)); }
	private static byte[] bytes(int[] v, int off, int n) {
		byte[] r = new byte[4 * n];
		for (int i = 0; i < 4 * n; i++) r[i] = (byte)(v[off + i / 4] >>> 8 * (i & 3));
		return r;
	}
	private static void put(int[] v, int off, byte[] b) {
		for (int i = 0; i < b.length / 4; i++)
			v[off + i] = b[4 * i] & 0xFF | (b[4 * i + 1] & 0xFF) << 8 | (b[4 * i + 2] & 0xFF) << 16 | b[4 * i + 3] << 24;
	}
	private static int[] ints(byte[] b) { int[] r = new int[b.length / 4]; put(r, 0, b); return r; }
	/** Without the terminator. */
	private static String text(byte[] b) {
		char[] c = new char[Math.max(b.length - 1, 0)];
		for (int i = 0; i < c.length; i++) c[i] = (char)(b[i] & 0xFF);
		return new String(c);
	}
	private static byte[] join(int version, byte[] b, int extra) {
		byte[] r = new byte[1 + b.length + (extra >= 0 ? 1 : 0)];
		r[0] = (byte)version;
		System.arraycopy(b, 0, r, 1, b.length);
		if (extra >= 0) r[r.length - 1] = (byte)extra;
		return r;
	}
	private static String out(long ret, Object... operands) {
		StringBuilder r = new StringBuilder("returns ").append(Long.toUnsignedString(ret));
		for (int i = 0; i < operands.length; i += 2) r.append(", operand ").append(operands[i]).append(" is ").append(operands[i + 1]);
		return r.toString();
	}
	private static byte[] reversed(byte[] b) {
		byte[] r = new byte[b.length];
		for (int i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i];
		return r;
	}
	/** What the caller does with a result must not matter later. */
	private static void spoil(byte[] b) { Arrays.fill(b, (byte)0xEE); }
	private static void spoil(int[] b) { Arrays.fill(b, 0xEEEEEEEE); }
	private static String take(byte[] b) { String r = hex(b); spoil(b); return r; }
	private static String take(Sha256Hash h) {
		String r = take(h.toBytes());
		String again = hex(h.toBytes());
		return r.equals(again) ? r : r + " then " + again;
	}

	@Override public String run(int op, byte[][] data, long arg, int fill) {
		byte[][] d = new byte[data.length][];
		for (int i = 0; i < d.length; i++) d[i] = data[i].clone();
		int[][] words = new int[0][];
		String r;
		try { r = run1(OPS[op][0], OPS[op][1], d, arg, fill); }
		catch (Fail e) { throw e; }
		catch (RuntimeException | AssertionError e) { r = "throws " + e.getClass().getName(); }
		for (int i = 0; i < d.length; i++)
			if (!Arrays.equals(d[i], data[i])) throw new Fail(OPS[op][0] + " modified operand " + i + ", which is an input");
		for (byte[] x : d) spoil(x);
		return r;
	}
	private static void same(int[] a, byte[] b, String what) { if (!Arrays.equals(bytes(a, 0, a.length), b)) throw new Fail(what + " modified an input"); }
	private static void same(int[] v, int off, byte[] b, String what) { if (!Arrays.equals(bytes(v, off, b.length / 4), b)) throw new Fail(what + " modified an input"); }

	private static String run1(String op, String kinds, byte[][] d, long arg, int fill) {
		int en = (int)(arg & 1);
		// Numbers and points one after the other, then scratch space
		int[] v = null;
		int[] at = new int[6];
		int nk = kinds.length(), pos = 0;
		for (int i = 0; i < nk; i++) {
			at[i] = pos;
			pos += "UFu".indexOf(kinds.charAt(i)) >= 0 ? 8 : "Pp".indexOf(kinds.charAt(i)) >= 0 ? 24 : 0;
		}
		int tmp = pos, out = 0;
		if (!op.startsWith("SIGN") && !op.equals("VERIFY") && !op.startsWith("IMPORT")) {
			int words = 8 + (op.equals("P_MUL") || op.equals("P_PUB") ? CurvePointMath.MULTIPLY_TEMP_WORDS : op.startsWith("P_") ? Math.max(CurvePointMath.ADD_TEMP_WORDS, CurvePointMath.NORMALIZE_TEMP_WORDS) : 8 + Int256Math.RECIPROCAL_TEMP_WORDS);
			v = new int[pos + words];
			Arrays.fill(v, fill * 0x01010101);
			for (int i = 0; i < nk; i++) if ("UFP".indexOf(kinds.charAt(i)) >= 0) put(v, at[i], d[i]);
			out = tmp;
			tmp += 8;
		}
		long ret = 0;
		switch (op) {
			case "U_ADD": ret = Int256Math.uintAdd(v, 0, 8, en, 0); break;
			case "U_SUB": ret = Int256Math.uintSubtract(v, 0, 8, en, 0); break;
			case "U_SHL": ret = Int256Math.uintShiftLeft1(v, 0, 0); break;
			case "U_SHR": Int256Math.uintShiftRight1(v, 0, en, 0); break;
			case "U_REPLACE": case "F_REPLACE": Int256Math.replace(v, 0, 8, en); break;
			case "U_SWAP": Int256Math.swap(v, 0, 8, en); return out(0, 0, hex(v, 0, 8), 1, hex(v, 8, 8));
			case "U_BYTES": case "F_BYTES": { byte[] b = Int256Math.uintToBytes(v, 0); same(v, 0, d[0], op); return out(0, 1, take(b)); }
			case "U_FROMBYTES": Int256Math.bytesToUint(d[1], v, 0); break;
			case "U_FROMSTR": case "F_FROMSTR": Int256Math.hexToUint(text(d[1]), v, 0); break;
			case "U_EQ": case "F_EQ": ret = Int256Math.equalTo(v, 0, 8); same(v, 0, d[0], op); same(v, 8, d[1], op); return out(ret);
			case "U_NE": case "F_NE": ret = 1 - Int256Math.equalTo(v, 0, 8); return out(ret);
			case "U_LT": case "F_LT": ret = Int256Math.lessThan(v, 0, 8); same(v, 0, d[0], op); same(v, 8, d[1], op); return out(ret);
			case "U_LE": case "F_LE": return out(1 - Int256Math.lessThan(v, 8, 0));
			case "U_GT": case "F_GT": return out(Int256Math.lessThan(v, 8, 0));
			case "U_GE": case "F_GE": return out(1 - Int256Math.lessThan(v, 0, 8));
			case "H_FROMBYTES": {
				byte[] in = d[1].clone();
				Sha256Hash h = new Sha256Hash(in);
				spoil(in);
				return out(0, 0, take(h));
			}
			case "H_FROMSTR": return out(0, 0, take(new Sha256Hash(text(d[1]))));
			case "H_EQ": return out(new Sha256Hash(d[0]).equals(new Sha256Hash(d[1])) ? 1 : 0);
			case "H_NE": return out(new Sha256Hash(d[0]).equals(new Sha256Hash(d[1])) ? 0 : 1);
			case "F_ADD": Int256Math.fieldAdd(v, 0, 8, 0, tmp); break;
			case "F_SUB": Int256Math.fieldSubtract(v, 0, 8, 0, tmp); break;
			case "F_MUL2": Int256Math.fieldMultiply2(v, 0, 0, tmp); break;
			case "F_MUL": Int256Math.fieldMultiply(v, 0, 8, 0, tmp); break;
			case "F_SQR": Int256Math.fieldSquare(v, 0, 0, tmp); break;
			case "F_MULSELF": Int256Math.fieldMultiply(v, 0, 0, 0, tmp); break;
			case "P_ADD": CurvePointMath.add(v, 0, 24, tmp); same(v, 24, d[1], op); return out(0, 0, hex(v, 0, 24));
			case "P_TWICE": CurvePointMath.twice(v, 0, tmp); return out(0, 0, hex(v, 0, 24));
			case "P_REPLACE": CurvePointMath.replace(v, 0, 24, en); same(v, 24, d[1], op); return out(0, 0, hex(v, 0, 24));
			case "P_ISZERO": ret = CurvePointMath.isZero(v, 0); same(v, 0, d[0], op); return out(ret);
			case "P_ONCURVE": ret = CurvePointMath.isOnCurve(v, 0, tmp); same(v, 0, d[0], op); return out(ret);
			case "SHA256": return out(0, 0, take(Sha256.getHash(d[1])));
			case "SHA256D": return out(0, 0, take(Sha256.getDoubleHash(d[1])));
			case "SHA512": return out(0, 0, take(Sha512.getHash(d[1])));
			case "HMAC256": return out(0, 0, take(Sha256.getHmac(d[1], d[2])));
			case "HMAC512": return out(0, 0, take(Sha512.getHmac(d[1], d[2])));
			case "RIPEMD": return out(0, 0, take(Ripemd160.getHash(d[1])));
			case "KECCAK": return out(0, 0, take(Keccak256.getHash(d[1])));
			case "EXPORT_HASH": return out(0, 0, '"' + Base58Check.bytesToBase58(join((int)arg & 0xFF, d[1], -1)) + '"');
			case "EXPORT_KEY": return out(0, 0, '"' + Base58Check.bytesToBase58(join((int)arg & 0xFF, reversed(d[1]), (arg >> 8 & 1) != 0 ? 1 : -1)) + '"');
			case "IMPORT_HASH": {
				byte[] b = decode(d[1]);
				boolean ok = b != null && b.length == 21;
				return out(ok ? 1 : 0, 0, hex(ok ? Arrays.copyOfRange(b, 1, 21) : d[0]), 2, hex(ok && en == 0 ? new byte[]{b[0]} : d[2]));
			}
			case "IMPORT_KEY": {
				byte[] b = decode(d[1]);
				boolean ok = b != null && (b.length == 33 || b.length == 34 && b[33] == 1);
				return out(ok ? 1 : 0, 0, hex(ok ? reversed(Arrays.copyOfRange(b, 1, 33)) : d[0]), 2, hex(ok && en == 0 ? new byte[]{b[0]} : d[2]), 3, hex(ok && (arg & 2) == 0 ? new byte[]{(byte)(b.length - 33)} : d[3]));
			}
			case "BASE58_ENC": return out(0, "text", Base58Check.bytesToBase58(d[0]));
			case "BASE58_DEC": return out(0, "data", take(Base58Check.base58ToBytes(text(d[0]))));
			case "SEGWIT_ENC": return out(0, "text", Bech32.segwitToBech32(text(d[0]), (int)arg, d[1]));
			case "SEGWIT_DEC": return groups(Bech32.bech32ToSegwit(text(d[0])));
			case "GROUPS_ENC": return out(0, "text", Bech32.bitGroupsToBech32(text(d[0]), d[1]));
			case "GROUPS_DEC": return groups(Bech32.bech32ToBitGroups(text(d[0])));
			case "HASH_VALUE": { Sha256Hash h = new Sha256Hash(d[0]); return out(h.hashCode(), "text", h.toString()); }
			case "HASH_COMPARE": { int c = new Sha256Hash(d[0]).compareTo(new Sha256Hash(d[1])); return out(c < 0 ? -1 : c > 0 ? 1 : 0); }
			case "U_TOHEX": return out(0, "text", Int256Math.uintToHex(v, 0));
			case "COPY": { int[] t = new int[16]; Int256Math.copy(v, 0, t, 8); same(v, 0, d[0], op); return out(0, "copy", hex(t, 0, 16)); }
			case "P_COPY": { int[] t = new int[32]; CurvePointMath.copy(v, 24, t, 0); same(v, 24, d[1], op); return out(0, "copy", hex(t, 0, 32)); }
			case "BASE_POINT": { int[] g = CurvePointMath.getBasePoint(); String r = out(0, "point", hex(g, 0, g.length)); spoil(g); return r; }
			case "U_RECIP": Int256Math.reciprocal(v, 0, 8, 0, tmp); same(v, 8, d[1], op); break;
			case "F_RECIP":
				Int256Math.hexToUint("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", v, out);
				Int256Math.reciprocal(v, 0, out, 0, tmp);
				break;
			case "P_NORM": CurvePointMath.normalize(v, 0, tmp); return out(0, 0, hex(v, 0, 24));
			case "P_MUL": CurvePointMath.multiply(v, 0, 24, tmp); same(v, 24, d[1], op); return out(0, 0, hex(v, 0, 24));
			case "P_PUB": {
				System.arraycopy(CurvePointMath.getBasePoint(), 0, v, 0, 24);
				CurvePointMath.multiply(v, 0, 24, tmp);
				CurvePointMath.normalize(v, 0, tmp);
				return out(0, 0, hex(v, 0, 24));
			}
			case "SIGN": case "SIGN_HMAC": {
				int[] r = ints(d[0]), s = ints(d[1]), k = ints(d[2]);
				Sha256Hash h = new Sha256Hash(d[3]);
				if (op.equals("SIGN")) {
					int[] n = ints(d[4]);
					ret = Ecdsa.sign(k, h, n, r, s) ? 1 : 0;
					same(n, d[4], op);
				} else ret = Ecdsa.signWithHmacNonce(k, h, r, s) ? 1 : 0;
				same(k, d[2], op);
				if (!Arrays.equals(h.toBytes(), d[3])) throw new Fail(op + " modified the hash");
				return out(ret, 0, hex(r, 0, 8), 1, hex(s, 0, 8));
			}
			case "VERIFY": {
				int[] k = ints(d[0]), r = ints(d[2]), s = ints(d[3]);
				Sha256Hash h = new Sha256Hash(d[1]);
				ret = Ecdsa.verify(k, h, r, s) ? 1 : 0;
				same(k, d[0], op);
				same(r, d[2], op);
				same(s, d[3], op);
				if (!Arrays.equals(h.toBytes(), d[1])) throw new Fail(op + " modified the hash");
				return out(ret);
			}
			default: throw new IllegalStateException(op);
		}
		for (int i = 1; i < nk; i++) if ("UF".indexOf(kinds.charAt(i)) >= 0) same(v, at[i], d[i], op);
		return out(ret, 0, hex(v, 0, 8));
	}
	private static byte[] decode(byte[] t) {
		try { return Base58Check.base58ToBytes(text(t)); }
		catch (IllegalArgumentException e) { return null; }
	}
	private static String groups(Object[] r) {
		StringBuilder t = new StringBuilder("returns");
		for (Object o : r) {
			if (o instanceof byte[]) t.append(' ').append(take((byte[])o));
			else t.append(' ').append(o);
		}
		return t.toString();
	}
}
