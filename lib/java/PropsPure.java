package pbt;

import static pbt.Fail.require;
import java.io.InputStream;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.concurrent.CyclicBarrier;

/** C28: results depend on arguments only, whatever ran before or runs at the same time. */
final class PropsPure {
	static final class Call {
		int op;
		byte[][] d;
		long arg;
		String name() { return JOps.OPS[op][0]; }
		String kinds() { return JOps.OPS[op][1]; }
		String text() {
			StringBuilder r = new StringBuilder(name());
			if (arg != 0) r.append(" arg=").append(arg);
			for (int i = 0; i < d.length; i++) {
				if (Character.isLowerCase(kinds().charAt(i))) continue;
				String h = kinds().charAt(i) == 'S' ? '"' + new String(d[i], 0, Math.max(0, d[i].length - 1), java.nio.charset.StandardCharsets.ISO_8859_1) + '"' : JOps.hex(d[i]);
				r.append(" #").append(i).append('=').append(h.length() > 200 ? h.substring(0, 120) + ".. (" + d[i].length + " bytes)" : h);
			}
			return r.toString();
		}
		Call copy() {
			Call r = new Call();
			r.op = op;
			r.arg = arg;
			r.d = new byte[d.length][];
			for (int i = 0; i < d.length; i++) r.d[i] = d[i].clone();
			return r;
		}
	}
	private static final JOps OPS = new JOps();

	static byte[] le(BigInteger x) {
		byte[] b = Ref.be(x, 32), r = new byte[32];
		for (int i = 0; i < 32; i++) r[i] = b[31 - i];
		return r;
	}
	static BigInteger fromLe(byte[] b) {
		byte[] r = new byte[32];
		for (int i = 0; i < 32; i++) r[i] = b[31 - i];
		return Ref.fromBe(r);
	}
	private static byte[] point(BigInteger[] p) { return Ref.cat(le(p[0]), le(p[1]), le(p[2])); }
	private static byte[] cstr(String t) {
		byte[] r = new byte[t.length() + 1];
		for (int i = 0; i < t.length(); i++) r[i] = (byte)t.charAt(i);
		return r;
	}

	static Call call(Src s, int op) {
		Call c = new Call();
		c.op = op;
		String k = c.kinds(), name = c.name();
		c.d = new byte[k.length()][];
		Arrays.fill(c.d, new byte[0]);
		c.arg = s.lt(2);
		if (name.startsWith("P_") || name.equals("VERIFY") || name.startsWith("SIGN") || name.equals("U_RECIP")) {
			switch (name) {
				case "P_PUB": c.d[1] = le(Gen.scalar(s)); return c;
				case "U_RECIP": {
					BigInteger m = s.flag() ? Ref.N : s.flag() ? Ref.P : Gen.u256(s).setBit(0);
					if (m.bitLength() < 2) m = Ref.bi(3);
					BigInteger x = Gen.below(s, m);
					for (int i = 0; x.signum() != 0 && !x.gcd(m).equals(Ref.ONE); i++) x = i > 60 ? Ref.ONE : x.add(Ref.ONE).mod(m);
					c.d[0] = le(x);
					c.d[1] = le(m);
					return c;
				}
				case "SIGN": case "SIGN_HMAC": {
					BigInteger[] t = PropsEcdsa.signInputs(s);
					if (s.chance(1, 6)) t[2] = s.flag() ? Ref.ZERO : Ref.N.add(Ref.bi(s.lt(3)));
					c.d[0] = le(Gen.u256(s));
					c.d[1] = le(Gen.u256(s));
					c.d[2] = le(t[0]);
					c.d[3] = Ref.be(t[1], 32);
					if (c.d.length > 4) c.d[4] = le(t[2]);
					return c;
				}
				case "VERIFY": {
					BigInteger key = Ref.bi(1 + s.lt(30)), z = Gen.anyHash(s), n = Gen.scalar(s);
					Ref.Pt q = Ref.mul(Ref.G, key);
					BigInteger[] e = s.chance(3, 4) ? Ref.sign(key, z, n) : null;
					if (e == null) e = new BigInteger[]{s.chance(1, 3) ? Ref.ZERO : Gen.u256(s), s.chance(1, 3) ? Ref.ZERO : Gen.u256(s)};
					BigInteger[] p = Gen.proj(q, Ref.ONE);
					if (s.chance(1, 8)) p = Gen.proj(q, Gen.scale(s));
					else if (s.chance(1, 8)) p[1] = Gen.field(s);
					if (s.chance(1, 8)) z = z.flipBit(s.lt(256));
					c.d[0] = point(p);
					c.d[1] = Ref.be(z, 32);
					c.d[2] = le(e[0]);
					c.d[3] = le(e[1]);
					return c;
				}
				default: {
					Ref.Pt a = Gen.point(s, true), b = s.chance(1, 3) ? a : s.chance(1, 3) ? Ref.neg(a) : Gen.point(s, true);
					BigInteger[] pa = Gen.proj(a, name.equals("P_ONCURVE") ? Ref.ONE : Gen.scale(s));
					if (name.equals("P_ONCURVE") && s.chance(1, 4)) pa[s.lt(2)] = Gen.field(s);
					c.d[0] = point(pa);
					if (name.equals("P_MUL")) c.d[1] = le(Gen.anyScalar(s));
					else if (k.length() > 1) c.d[1] = point(Gen.proj(b, Gen.scale(s)));
					return c;
				}
			}
		}
		switch (name) {
			case "EXPORT_HASH": c.d[1] = Gen.bytes(s, 20); c.arg = s.u8(); return c;
			case "EXPORT_KEY": c.d[1] = le(Gen.u256(s)); c.arg = s.lt(512); return c;
			case "IMPORT_HASH": c.d[0] = Gen.bytes(s, 20); c.d[1] = cstr(text58(s, 21)); c.d[2] = new byte[]{1}; return c;
			case "IMPORT_KEY": c.d[0] = le(Gen.u256(s)); c.d[1] = cstr(text58(s, s.flag() ? 33 : 34)); c.d[2] = new byte[]{1}; c.d[3] = new byte[]{1}; c.arg = s.lt(4); return c;
			case "BASE58_ENC": c.d[0] = PropsText.payload(s); return c;
			case "BASE58_DEC": c.d[0] = cstr(text58(s, -1)); return c;
			case "SEGWIT_ENC": { c.arg = s.lt(18) - (s.chance(1, 8) ? 1 : 0); c.d[0] = cstr(s.flag() ? "bc" : PropsText.human(s, 20)); c.d[1] = Gen.bytes(s, s.flag() ? 20 : s.flag() ? 32 : s.lt(45)); return c; }
			case "GROUPS_ENC": { String h = PropsText.human(s, 83); c.d[0] = cstr(h); c.d[1] = PropsText.b5(PropsText.groups(s, s.lt(84 - h.length() + (s.chance(1, 8) ? 3 : 0)))); return c; }
			case "SEGWIT_DEC": {
				int[] g = Ref.to5(Gen.bytes(s, s.flag() ? 20 : s.range(2, 40)));
				int[] v = new int[g.length + 1];
				v[0] = s.flag() ? 0 : s.lt(17);
				System.arraycopy(g, 0, v, 1, g.length);
				String t = Ref.bech32("bc", v);
				c.d[0] = cstr(s.chance(1, 3) ? PropsText.mutate(s, t, Ref.B32) : t);
				return c;
			}
			case "GROUPS_DEC": {
				String h = PropsText.human(s, 83);
				String t = Ref.bech32(h, PropsText.groups(s, s.lt(84 - h.length())));
				c.d[0] = cstr(s.chance(1, 3) ? PropsText.mutate(s, t, Ref.B32) : t);
				return c;
			}
			default:
		}
		BigInteger prev = null;
		for (int i = 0; i < k.length(); i++) {
			switch (k.charAt(i)) {
				case 'U': prev = prev == null ? Gen.u256(s) : Gen.related(s, prev); c.d[i] = le(prev); break;
				case 'F': prev = prev == null || s.flag() ? Gen.field(s) : Gen.related(s, prev).mod(Ref.P); c.d[i] = le(prev); break;
				case 'H': prev = prev == null ? Gen.u256(s) : Gen.related(s, prev); c.d[i] = Ref.be(prev, 32); break;
				case 'V': c.d[i] = Gen.bytes(s, name.startsWith("HMAC") && i == 1 ? s.lt(270) : Gen.msgLen(s, name.contains("256") ? 64 : 128) % 1500); break;
				case 'S': c.d[i] = cstr(hexText(s, name.equals("F_FROMSTR") ? Gen.field(s) : Gen.u256(s))); break;
				default:
			}
		}
		return c;
	}
	private static String hexText(Src s, BigInteger x) {
		String t = Ref.hex(Ref.be(x, 32));
		return s.flag() ? t.toUpperCase(java.util.Locale.ROOT) : t;
	}
	private static String text58(Src s, int n) {
		byte[] p = n < 0 || s.chance(1, 8) ? PropsText.payload(s) : Gen.bytes(s, n);
		if (p.length == 34 && !s.chance(1, 5)) p[33] = 1;
		if (p.length > 0 && s.chance(1, 4)) Arrays.fill(p, 0, s.lt(p.length), (byte)0);
		String t = Ref.base58check(p);
		return s.chance(1, 3) ? PropsText.mutate(s, t, Ref.B58) : t;
	}

	static Call variation(Src s, Call old) {
		Call c = old.copy();
		String k = c.kinds();
		if (k.isEmpty() || c.name().equals("U_RECIP")) return call(s, c.op);
		if (s.chance(1, 8)) { c.arg = call(s, c.op).arg; return c; }
		int i = s.lt(k.length());
		for (int t = 0; t < k.length() && (Character.isLowerCase(k.charAt(i)) || c.d[i].length == 0); t++) i = (i + 1) % k.length();
		if (Character.isLowerCase(k.charAt(i)) || c.d[i].length == 0) return c;
		byte[] b = c.d[i];
		switch (k.charAt(i)) {
			case 'U': case 'F': {
				BigInteger x = fromLe(b);
				x = s.flag() ? x.flipBit(s.lt(256)) : Gen.wrap(x.add(Ref.ONE));
				if (k.charAt(i) == 'F') x = x.mod(Ref.P);
				if (c.name().equals("P_PUB") || c.name().startsWith("SIGN") && i == 2) { x = x.mod(Ref.N); if (x.signum() == 0) x = Ref.ONE; }
				c.d[i] = le(x);
				break;
			}
			case 'P': {
				byte[] y = Arrays.copyOfRange(b, 32, 64);
				BigInteger v = fromLe(y);
				if (c.name().equals("VERIFY") || c.name().equals("P_ONCURVE") || s.flag()) v = Ref.P.subtract(v).mod(Ref.P);
				else {
					BigInteger m = Gen.scale(s);
					for (int j = 0; j < 3; j++) System.arraycopy(le(fromLe(Arrays.copyOfRange(b, 32 * j, 32 * j + 32)).multiply(m).mod(Ref.P)), 0, b, 32 * j, 32);
					return c;
				}
				System.arraycopy(le(v), 0, b, 32, 32);
				break;
			}
			case 'S':
				if (b.length < 2) break;
				if (c.name().contains("FROMSTR")) b[s.lt(64)] = (byte)"0123456789abcdefABCDEF".charAt(s.lt(22));
				else if (s.flag()) b[s.lt(b.length - 1)] = (byte)Ref.B58.charAt(s.lt(58));
				else { c.d[i] = Arrays.copyOf(b, b.length - 1); c.d[i][b.length - 2] = 0; }
				if (c.name().equals("F_FROMSTR")) return call(s, c.op);
				break;
			default:
				if (k.charAt(i) == 'V' && c.name().matches("SHA.*|HMAC.*|RIPEMD|KECCAK|BASE58_ENC") && s.chance(1, 3)) c.d[i] = Arrays.copyOf(b, b.length + (s.flag() ? 1 : -1));
				else b[s.flag() ? s.lt(b.length) : b.length - 1] ^= 1 << s.lt(c.name().equals("GROUPS_ENC") ? 5 : 8);
		}
		return c;
	}
	private static void borrow(Src s, Call c, List<Call> from) {
		if (from.isEmpty() || c.name().equals("U_RECIP")) return;
		String k = c.kinds();
		for (int i = 0; i < k.length(); i++) {
			char x = k.charAt(i);
			if ("UFHV".indexOf(x) < 0 || !s.chance(1, 3)) continue;
			Call o = from.get(s.lt(from.size()));
			int j = o.kinds().indexOf(x);
			if (j < 0 || x == 'V' && !(c.name().matches("SHA.*|HMAC.*|RIPEMD|KECCAK|BASE58_ENC") && o.name().matches("SHA.*|HMAC.*|RIPEMD|KECCAK|BASE58_ENC"))) continue;
			if (x == 'U' && (c.name().equals("P_PUB") || c.name().startsWith("SIGN") && i == 2)) {
				BigInteger v = fromLe(o.d[j]);
				if (v.signum() == 0 || v.compareTo(Ref.N) >= 0) continue;
			}
			c.d[i] = o.d[j].clone();
		}
	}
	private static int anyOp(Src s, int slow) {
		if (slow > 0 ? s.lt(100) < slow : s.lt(100) < 3) return s.range(JOps.SLOW, JOps.OPS.length - 1);
		return s.lt(JOps.SLOW);
	}
	private static List<Call> calls(Src s, int max, int slow) {
		List<Call> h = new ArrayList<>();
		int n = s.range(2, max);
		int focus = s.chance(2, 3) ? anyOp(s, slow) : -1;
		for (int i = 0; i < n; i++) {
			int how = s.weighted(3, 4, 2);
			if (how == 1 && !h.isEmpty()) h.add(variation(s, h.get(s.lt(h.size()))));
			else {
				Call c = call(s, how == 0 || focus < 0 ? anyOp(s, slow) : focus);
				if (s.chance(1, 3)) borrow(s, c, h);
				h.add(c);
			}
		}
		return h;
	}

	/** A copy of the library with no past. */
	private static final class Fresh extends ClassLoader {
		Fresh() { super(PropsPure.class.getClassLoader()); }
		@Override protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
			synchronized (getClassLoadingLock(name)) {
				if (!name.startsWith("io.nayuki.") && !name.equals("pbt.JOps")) return super.loadClass(name, resolve);
				Class<?> c = findLoadedClass(name);
				if (c == null) {
					try (InputStream in = getParent().getResourceAsStream(name.replace('.', '/') + ".class")) {
						byte[] b = in.readAllBytes();
						c = defineClass(name, b, 0, b.length);
					} catch (java.io.IOException | NullPointerException e) { throw new ClassNotFoundException(name, e); }
				}
				return c;
			}
		}
	}

	static void history(Src s, int slow) throws Exception {
		List<Call> h = calls(s, slow > 0 ? 6 : 10, slow);
		for (Call c : h) { s.note("%s", c.text().replace("%", "%%")); s.label(c.name()); }
		s.nontrivial();
		String[] first = new String[h.size()];
		int steps = h.size() + s.lt(2 * h.size() + 1);
		for (int i = 0; i < steps; i++) {
			int k = i < h.size() ? i : s.lt(h.size());
			Call c = h.get(k);
			String r = OPS.run(c.op, c.d, c.arg, i * 37);
			if (i < h.size()) { first[k] = r; if (r.startsWith("throws")) s.label("a call fails"); }
			else require(r.equals(first[k]), "%s after %d other calls: %s, but the first time: %s", c.text(), i, r, first[k]);
		}
		if (s.chance(1, 10)) {
			int k = s.lt(h.size());
			JRun fresh = (JRun)Class.forName("pbt.JOps", true, new Fresh()).getConstructor().newInstance();
			require(fresh.getClass() != JOps.class, "no fresh copy");
			String r = fresh.run(h.get(k).op, h.get(k).d, h.get(k).arg, 0);
			require(r.equals(first[k]), "%s in a fresh copy of the library: %s, but after other calls: %s", h.get(k).text(), r, first[k]);
			s.label("compared with a fresh copy");
		}
	}

	static void threads(Src s, int slow) throws Exception {
		int n = s.range(2, 4), per = slow > 0 ? s.range(1, 4) : s.range(3, 12), rounds = slow > 0 ? 3 : 8;
		List<Call> pool = calls(s, 5, slow);
		Call[][] c = new Call[n][per];
		String[][] exp = new String[n][per];
		for (int t = 0; t < n; t++)
			for (int i = 0; i < per; i++) {
				Call o = pool.get(s.lt(pool.size()));
				c[t][i] = s.flag() ? o.copy() : s.flag() ? variation(s, o) : call(s, anyOp(s, slow));
				exp[t][i] = OPS.run(c[t][i].op, c[t][i].d, c[t][i].arg, 0);
				s.note("%s", c[t][i].text());
				s.label(c[t][i].name());
			}
		s.nontrivial();
		String[] fail = new String[n];
		Thread[] th = new Thread[n];
		CyclicBarrier start = new CyclicBarrier(n);
		for (int t = 0; t < n; t++) {
			int me = t;
			th[t] = new Thread(() -> {
				try {
					start.await();
					for (int r = 0; r < rounds && fail[me] == null; r++)
						for (int i = 0; i < per; i++) {
							String got;
							try { got = OPS.run(c[me][i].op, c[me][i].d, c[me][i].arg, r); } catch (Fail e) { got = e.getMessage(); }
							if (!got.equals(exp[me][i])) { fail[me] = c[me][i].text() + " with other threads running: " + got + ", but alone: " + exp[me][i]; break; }
						}
				} catch (Throwable e) { fail[me] = "unexpected " + e; }
			});
			th[t].setDaemon(true);
			th[t].start();
		}
		long end = System.nanoTime() + 60_000_000_000L;
		for (Thread x : th) {
			x.join(Math.max(1, (end - System.nanoTime()) / 1_000_000));
			require(!x.isAlive(), "a thread did not finish within a minute (endless loop or deadlock)");
		}
		for (String f : fail) require(f == null, "%s", f);
	}
	private PropsPure() {}
}
