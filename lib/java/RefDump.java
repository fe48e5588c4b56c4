package pbt;

import java.math.BigInteger;

/** Prints what the reference models compute for fixed inputs, in the form of lib/cpp/refdump.cpp. */
public final class RefDump {
	private static byte[] msg(int n) { byte[] b = new byte[n]; for (int i = 0; i < n; i++) b[i] = (byte)(i * 7 + n); return b; }
	private static StringBuilder out = new StringBuilder();
	private static void p(String name, int n, String v) { out.append(name).append(' ').append(n).append(' ').append(v).append('\n'); }
	public static void main(String[] a) {
		for (int n = 0; n < 420; n += n < 300 ? 1 : 17) {
			byte[] m = msg(n), k = msg(n % 150);
			p("sha256", n, Ref.hex(Ref.digest("SHA-256", m)));
			p("sha512", n, Ref.hex(Ref.digest("SHA-512", m)));
			p("ripemd160", n, Ref.hex(Ref.ripemd160(m)));
			p("keccak256", n, Ref.hex(Ref.keccak256(m)));
			p("hmac256", n, Ref.hex(Ref.hmac("SHA-256", 64, k, m)));
			p("hmac512", n, Ref.hex(Ref.hmac("SHA-512", 128, k, m)));
			if (n < 100) {
				p("base58check", n, Ref.base58check(m));
				byte[] z = m.clone();
				java.util.Arrays.fill(z, 0, n / 3, (byte)0);
				p("base58zeros", n, Ref.base58(z));
			}
		}
		for (int i = 0; i < 60; i++) {
			BigInteger x = Ref.fromBe(Ref.digest("SHA-256", msg(i))), y = Ref.fromBe(Ref.digest("SHA-256", msg(i + 1000))), z = Ref.fromBe(Ref.digest("SHA-256", msg(i + 2000)));
			Ref.Pt g = Ref.mulG(i < 20 ? Ref.bi(i) : i < 30 ? Ref.N.add(Ref.bi(5 - i)) : x), q = Ref.add(g, Ref.mul(Ref.G, y));
			p("mul", i, g.inf() ? "inf" : g.x.toString(16));
			p("add", i, q.inf() ? "inf" : q.x.toString(16) + " " + q.y.toString(16));
			BigInteger[] e = Ref.sign(x.mod(Ref.N), y, z.mod(Ref.N));
			p("sign", i, e[0].toString(16) + " " + e[1].toString(16));
			Ref.Pt pub = Ref.mulG(x.mod(Ref.N));
			p("verify", i, (Ref.verify(pub, y, e[0], e[1]) ? "1" : "0") + (Ref.verify(pub, y, e[0], Ref.N.subtract(e[1])) ? "1" : "0") + (Ref.verify(pub, y.add(Ref.ONE), e[0], e[1]) ? "1" : "0"));
			int[] d = new int[i];
			for (int j = 0; j < i; j++) d[j] = (j * 11 + i) & 31;
			p("bech32", i, Ref.bech32("abc", d));
			byte[] prog = msg(2 + i % 39);
			p("to5", i, java.util.Arrays.toString(Ref.to5(prog)).replace(" ", ""));
		}
		System.out.print(out);
		System.out.flush();
	}
	private RefDump() {}
}
