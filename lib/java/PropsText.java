package pbt;

import static pbt.Fail.require;
import io.nayuki.bitcoin.crypto.Base58Check;
import io.nayuki.bitcoin.crypto.Bech32;
import java.util.Arrays;

/** C20 Base58Check, C22 Bech32, C23 segwit addresses. */
final class PropsText {
	private static final String ODD = "0OIl +/_-.\n\0\t~\u007f\u00e9\u0131\u017f\u212a\uff11\u0660iIbBoOaA1!@[`{";

	private static char oddChar(Src s) {
		switch (s.lt(3)) {
			case 0: return ODD.charAt(s.lt(ODD.length()));
			case 1: return (char)s.lt(128);
			default: return (char)s.lt(65536);
		}
	}
	/** One to three random edits. */
	static String mutate(Src s, String t, String alphabet) {
		StringBuilder b = new StringBuilder(t);
		for (int k = s.range(1, 3); k > 0; k--) {
			int i = s.lt(b.length() + 1);
			switch (s.lt(8)) {
				case 7: if (i + 1 < b.length()) {  // Keeps the sum of the characters, or String.hashCode()
					int w = s.flag() ? 1 : 31, j = w == 31 ? i + 1 : s.lt(b.length()), d = s.flag() ? 1 : -1;
					if (j == i) break;
					char c = (char)(b.charAt(i) + d), e = (char)(b.charAt(j) - d * w);
					b.setCharAt(i, c);
					b.setCharAt(j, e);
				} break;
				case 0: if (i < b.length()) b.setCharAt(i, alphabet.charAt(s.lt(alphabet.length()))); break;
				case 1: if (i < b.length()) b.deleteCharAt(i); break;
				case 2: b.insert(i, alphabet.charAt(s.lt(alphabet.length()))); break;
				case 3: if (i < b.length()) b.setCharAt(i, oddChar(s)); break;
				case 4: b.insert(i, oddChar(s)); break;
				case 5: if (i + 1 < b.length()) { char c = b.charAt(i); b.setCharAt(i, b.charAt(i + 1)); b.setCharAt(i + 1, c); } break;
				default: if (i < b.length()) { char c = b.charAt(i); b.setCharAt(i, Character.isUpperCase(c) ? Character.toLowerCase(c) : Character.toUpperCase(c)); }
			}
		}
		return b.toString();
	}

	/*---- Base58Check ----*/
	private static byte[] decode58(String t) {  // The model: null unless canonical with a correct checksum
		byte[] d = new byte[t.length() + 1];
		int ones = 0;
		while (ones < t.length() && t.charAt(ones) == '1') ones++;
		java.math.BigInteger n = java.math.BigInteger.ZERO;
		for (int i = ones; i < t.length(); i++) {
			int v = Ref.B58.indexOf(t.charAt(i));
			if (v < 0) return null;
			n = n.multiply(Ref.bi(58)).add(Ref.bi(v));
		}
		d = Ref.cat(new byte[ones], n.signum() == 0 ? new byte[0] : Ref.be(n, (n.bitLength() + 7) / 8));
		if (d.length < 4) return null;
		byte[] p = Arrays.copyOf(d, d.length - 4);
		if (!Arrays.equals(Arrays.copyOf(Ref.digest("SHA-256", Ref.digest("SHA-256", p)), 4), Arrays.copyOfRange(d, d.length - 4, d.length))) return null;
		require(Ref.base58check(p).equals(t), "model error");
		return p;
	}
	static byte[] payload(Src s) {
		Integer l = (Integer)s.recall("length");
		byte[] b = Gen.bytes(s, l != null ? l : s.keep("length", payloadLen(s)));
		if (b.length > 0 && s.chance(1, 3)) Arrays.fill(b, 0, s.lt(b.length + 1), (byte)0);
		return b;
	}
	private static int payloadLen(Src s) {
		int n;
		switch (s.weighted(3, 2, 3, 1)) {
			case 0: n = s.lt(8); break;
			case 1: n = new int[]{21, 33, 34, 78}[s.lt(4)]; break;
			case 2: n = s.lt(90); break;
			default: n = s.lt(400);
		}
		return n;
	}
	/** Another text of the alphabet's characters with the same String.hashCode(), if one is near. */
	private static String collide(Src s, String t, String alphabet) {
		for (int i = 0, n = t.length(), k = s.lt(n + 1); i < n - 1; i++, k++) {
			int j = k % (n - 1);
			for (int d = s.flag() ? 1 : -1, l = 0; l < 2; l++, d = -d) {
				int x = t.charAt(j) + d, y = t.charAt(j + 1) - 31 * d;
				if (alphabet.indexOf(x) >= 0 && alphabet.indexOf(y) >= 0) return t.substring(0, j) + (char)x + (char)y + t.substring(j + 2);
			}
		}
		return t;
	}
	/** Perhaps a text from earlier in the sequence, or one like it. */
	private static String earlier(Src s, String t, String alphabet) {
		String u = (String)s.recall("text");
		if (u == null) return s.keep("text", t);
		return s.flag() ? u : s.flag() ? collide(s, u, alphabet) : mutate(s, u, alphabet);
	}
	private static void try58(Src s, String t) {
		t = earlier(s, t, Ref.B58);
		byte[] exp = decode58(t);
		s.note("decode \"%s\"", t);
		s.label(exp == null ? "rejected" : "accepted");
		byte[] got;
		try {
			got = Base58Check.base58ToBytes(t);
		} catch (IllegalArgumentException e) {
			require(exp == null, "rejected \"%s\": %s", t, e);
			return;
		}
		require(exp != null, "accepted \"%s\" as %s", t, Ref.hex(got));
		require(Arrays.equals(got, exp), "decoded \"%s\" to %s, expected %s", t, Ref.hex(got), Ref.hex(exp));
	}
	static void base58(Src s) {
		byte[] b = payload(s), keep = b.clone();
		s.note("payload %s", Ref.hex(b));
		if (b.length > 0) s.nontrivial();
		String exp = Ref.base58check(b), got = Base58Check.bytesToBase58(b);
		require(got.equals(exp), "encoding of %s is %s, expected %s", Ref.hex(b), got, exp);
		require(Arrays.equals(b, keep), "encoding modified its input");
		try58(s, got);
		String t;
		switch (s.weighted(6, 2, 1, 1, 2, 1)) {
			case 0: t = mutate(s, got, Ref.B58); break;
			case 1: t = "1" + got; if (s.flag() && got.startsWith("1")) t = got.substring(1); break;
			case 2: t = got + "1"; break;
			case 3: t = mutate(s, "", Ref.B58); break;
			case 4: {  // A payload too short to have a checksum, or a wrong checksum
				byte[] d = s.flag() ? Gen.bytes(s, s.lt(4)) : Ref.cat(b, Arrays.copyOf(Ref.digest("SHA-256", b), 4));
				t = Ref.base58(d);
				break;
			}
			default: {
				byte[] d = Ref.cat(b, Arrays.copyOf(Ref.digest("SHA-256", Ref.digest("SHA-256", b)), 4));
				d[d.length - 1 - s.lt(4)] ^= 1 << s.lt(8);
				t = Ref.base58(d);
			}
		}
		try58(s, t);
		try { Base58Check.base58ToBytes(null); throw new Fail("accepted null"); } catch (NullPointerException | IllegalArgumentException e) {}
	}

	/*---- Bech32 ----*/
	private static final String LOWER = "!#$%&*+-./0123456789:;<=>?@[]^_`abcdefghijklmnopqrstuvwxyz{|}~";
	static String human(Src s, int max) {
		String h = (String)s.recall("human");
		if (h == null || h.length() > max) return s.keep("human", humanFresh(s, max));
		return s.flag() ? h : collide(s, h, LOWER);
	}
	private static String humanFresh(Src s, int max) {
		int n;
		switch (s.weighted(3, 3, 1)) {
			case 0: return s.flag() ? "bc" : "tb";
			case 1: n = s.range(1, Math.min(max, 12)); break;
			default: n = s.range(1, max);
		}
		StringBuilder b = new StringBuilder();
		int mode = s.lt(4);
		for (int i = 0; i < n; i++) {
			char c;
			switch (mode) {
				case 0: c = (char)('a' + s.lt(26)); break;
				case 1: c = "1!~@[`{0".charAt(s.lt(8)); break;
				case 2: c = (char)('0' + s.lt(10)); break;
				default: c = (char)(33 + s.lt(94));
			}
			if (c >= 'A' && c <= 'Z') c += 32;
			b.append(c);
		}
		return b.toString();
	}
	static byte[] b5(int[] v) {
		byte[] r = new byte[v.length];
		for (int i = 0; i < v.length; i++) r[i] = (byte)v[i];
		return r;
	}
	static int[] groups(Src s, int n) {
		int[] r = new int[n];
		int mode = s.lt(4);
		byte[] x = Gen.bytes(s, n);
		for (int i = 0; i < n; i++) r[i] = mode == 0 ? 0 : mode == 1 ? 31 : x[i] & 31;
		return r;
	}
	private static void tryBech(Src s, String t) {
		t = earlier(s, t, Ref.B32);
		Object[] exp = Ref.unbech32(t), got;
		s.note("decode \"%s\"", t);
		s.label(exp == null ? "rejected" : "accepted");
		try {
			got = Bech32.bech32ToBitGroups(t);
		} catch (IllegalArgumentException e) {
			require(exp == null, "rejected \"%s\": %s", t, e);
			return;
		}
		require(exp != null, "accepted \"%s\"", t);
		require(got.length == 2 && got[0].equals(exp[0]) && Arrays.equals((byte[])got[1], b5((int[])exp[1])), "decoded \"%s\" to %s %s", t, got[0], Ref.hex((byte[])got[1]));
	}
	private static String upper(String t) {
		StringBuilder b = new StringBuilder();
		for (char c : t.toCharArray()) b.append(c >= 'a' && c <= 'z' ? (char)(c - 32) : c);
		return b.toString();
	}
	static void bech32(Src s) {
		String h = human(s, 83);
		int room = 83 - h.length();
		int[] d = groups(s, s.chance(1, 4) ? room - s.lt(Math.min(room + 1, 3)) : s.lt(room + 1));
		s.note("hrp \"%s\" data %s", h, Ref.hex(b5(d)));
		s.nontrivial();
		String exp = Ref.bech32(h, d);
		byte[] in = b5(d);
		String got = Bech32.bitGroupsToBech32(h, in);
		require(got.equals(exp), "encoded as %s, expected %s", got, exp);
		require(Arrays.equals(in, b5(d)), "encoding modified its input");
		tryBech(s, got);
		tryBech(s, upper(got));
		switch (s.weighted(4, 2, 2, 2, 2, 1)) {
			case 0: tryBech(s, mutate(s, s.flag() ? got : upper(got), Ref.B32)); break;
			case 1: {  // Mixed case
				char[] c = (s.flag() ? got : upper(got)).toCharArray();
				int k = s.lt(c.length);
				for (int i = 0; i < c.length; i++) if (i == k || s.chance(1, 10)) c[i] = Character.isUpperCase(c[i]) ? Character.toLowerCase(c[i]) : Character.toUpperCase(c[i]);
				tryBech(s, new String(c));
				break;
			}
			case 2: {  // Right checksum, wrong form: too long, no human part, bad characters in it
				switch (s.lt(4)) {
					case 0: tryBech(s, Ref.bech32(h, groups(s, room + 1 + s.lt(4)))); break;
					case 1: tryBech(s, Ref.bech32("", d)); break;
					case 2: { String h2 = h.substring(0, h.length() - 1) + "\u007f \u00e9\u0080\n".charAt(s.lt(5)); tryBech(s, Ref.bech32(h2, d)); break; }
					default: tryBech(s, upper(h) + Ref.bech32(upper(h), d).substring(h.length()));
				}
				break;
			}
			case 3: tryBech(s, got.substring(0, s.lt(got.length() + 1))); break;
			case 4: tryBech(s, got.substring(s.lt(got.length() + 1))); break;
			default: tryBech(s, mutate(s, "", Ref.B32 + "1"));
		}
		// Arguments outside the domain
		String bh = h;
		byte[] bd = in.clone();
		boolean bad = true;
		switch (s.lt(6)) {
			case 0: bh = ""; break;
			case 1: { int i = s.lt(h.length()); bh = h.substring(0, i) + (char)('A' + s.lt(26)) + h.substring(i + 1); break; }
			case 2: { int i = s.lt(h.length()); char c = s.flag() ? (char)s.lt(33) : (char)(127 + s.lt(65409)); bh = h.substring(0, i) + c + h.substring(i + 1); break; }
			case 3: bd = Arrays.copyOf(bd, room + 1 + s.lt(5)); break;
			case 4: { StringBuilder b = new StringBuilder(); for (int i = 0; i < 84 + s.lt(5); i++) b.append('a'); bh = b.toString(); bd = new byte[0]; break; }
			default: if (bd.length > 0) bd[s.lt(bd.length)] = (byte)(32 + s.lt(224)); else bad = false;
		}
		if (bad) try {
			String r = Bech32.bitGroupsToBech32(bh, bd);
			throw new Fail(String.format(java.util.Locale.ROOT, "encoded hrp \"%s\" data %s as %s", bh, Ref.hex(bd), r));
		} catch (IllegalArgumentException e) {}
	}
	/** Any one to four substitutions within the data part make the text invalid. */
	static void bech32Errors(Src s) {
		String h = human(s, 20);
		int[] d = groups(s, s.lt(83 - h.length() + 1));
		String t = Ref.bech32(h, d);
		s.nontrivial();
		char[] c = t.toCharArray();
		int k = s.range(1, 4), from = h.length() + 1;
		int[] pos = new int[k];
		for (int i = 0; i < k; i++) {
			pos[i] = from + s.lt(c.length - from);
			int j = Ref.B32.indexOf(t.charAt(pos[i]));
			c[pos[i]] = Ref.B32.charAt((j + 1 + s.lt(31)) % 32);
		}
		String u = new String(c);
		s.note("%s to %s", t, u);
		if (u.equals(t)) return;
		try {
			Bech32.bech32ToBitGroups(u);
			throw new Fail("accepted " + u + ", which differs from " + t + " in up to four characters");
		} catch (IllegalArgumentException e) {}
	}

	/*---- Segwit ----*/
	private static void trySegwit(Src s, String t) {
		t = earlier(s, t, Ref.B32);
		Object[] exp = Ref.unsegwit(t), got;
		s.note("decode \"%s\"", t);
		s.label(exp == null ? "rejected" : "accepted");
		try {
			got = Bech32.bech32ToSegwit(t);
		} catch (IllegalArgumentException e) {
			require(exp == null, "rejected \"%s\": %s", t, e);
			return;
		}
		require(exp != null, "accepted \"%s\" as version %s program %s", t, got[1], Ref.hex((byte[])got[2]));
		require(got.length == 3 && got[0].equals(exp[0]) && got[1].equals(exp[1]) && Arrays.equals((byte[])got[2], (byte[])exp[2]), "decoded \"%s\" to %s %s %s", t, got[0], got[1], Ref.hex((byte[])got[2]));
		String again = Bech32.segwitToBech32((String)got[0], (Integer)got[1], (byte[])got[2]);
		require(again.equals(t) || again.equals(t.toLowerCase(java.util.Locale.ROOT)), "accepted \"%s\", which encodes back as \"%s\"", t, again);
	}
	private static int[] ver(int v, int[] d) {
		int[] r = new int[d.length + 1];
		r[0] = v;
		System.arraycopy(d, 0, r, 1, d.length);
		return r;
	}
	static void segwit(Src s) {
		String h = human(s, s.chance(1, 5) ? 76 : 17);
		int v = s.lt(17);
		int max = Math.min(40, (83 - h.length() - 1) * 5 / 8);
		s.nontrivial();
		if (max >= 2) {
			int n = s.chance(1, 4) ? max : s.chance(1, 3) ? new int[]{20, 32, 2}[s.lt(3)] : s.range(2, max);
			if (n > max) n = max;
			byte[] p = Gen.bytes(s, n), keep = p.clone();
			s.note("hrp \"%s\" version %d program %s", h, v, Ref.hex(p));
			String exp = Ref.bech32(h, ver(v, Ref.to5(p))), got = Bech32.segwitToBech32(h, v, p);
			require(got.equals(exp), "encoded as %s, expected %s", got, exp);
			require(Arrays.equals(p, keep), "encoding modified its input");
			trySegwit(s, got);
			trySegwit(s, upper(got));
			int[] d = ver(v, Ref.to5(p));
			switch (s.lt(6)) {
				case 0: d[d.length - 1] ^= 1 << s.lt(5); break;  // Perhaps non-zero padding
				case 1: d = Arrays.copyOf(d, d.length + 1 + s.lt(3)); break;  // Perhaps too much padding
				case 2: d[0] = s.lt(32); break;
				case 3: d = Arrays.copyOf(d, s.lt(d.length)); break;
				case 4: d = ver(v, groups(s, s.lt(83 - h.length()))); break;
				default: d = ver(v, groups(s, s.chance(1, 2) ? s.lt(6) : 62 + s.lt(6)));
			}
			if (h.length() + 7 + d.length <= 90) trySegwit(s, Ref.bech32(h, d));
		}
		trySegwit(s, mutate(s, Ref.bech32("bc", ver(v, Ref.to5(Gen.bytes(s, 20)))), Ref.B32));
		// Arguments outside the domain
		int bv = v;
		String bh = h;
		byte[] bp = Gen.bytes(s, s.range(2, 40));
		switch (s.lt(4)) {
			case 0: bv = s.flag() ? 17 + s.lt(300) : s.flag() ? -1 - s.lt(300) : Gen.word(s); if (bv >= 0 && bv <= 16) bv = 17; break;
			case 1: bp = Gen.bytes(s, s.flag() ? s.lt(2) : 41 + s.lt(60)); break;
			case 2: bh = s.flag() ? "" : "Bc"; break;
			default: { StringBuilder b = new StringBuilder(); int need = 84 - 1 - (bp.length * 8 + 4) / 5; for (int i = 0; i < need + s.lt(4); i++) b.append('a'); bh = b.toString(); }
		}
		try {
			String r = Bech32.segwitToBech32(bh, bv, bp);
			throw new Fail(String.format(java.util.Locale.ROOT, "encoded hrp \"%s\" version %d program %s as %s", bh, bv, Ref.hex(bp), r));
		} catch (IllegalArgumentException e) {}
	}
	private PropsText() {}
}
