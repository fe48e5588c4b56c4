package pbt;

import static pbt.Fail.require;
import java.math.BigInteger;

/** C26: two runs that differ only in secrets take the same branches and touch the same array positions. */
final class PropsCt {
	private static final String[] NAMES = {"uintAdd", "uintSubtract", "uintShiftLeft1", "uintShiftRight1", "replace", "swap", "equalTo", "lessThan",
		"new Sha256Hash", "Sha256Hash.toBytes", "Sha256Hash.hashCode", "fieldAdd", "fieldSubtract", "fieldMultiply2", "fieldSquare", "fieldMultiply",
		"twice", "add", "replace point", "isOnCurve", "isZero", "reciprocal", "normalize", "multiply", "sign", "signWithHmacNonce"};
	private static CtRun ops;

	private static final class Vals { int[] v = new int[1000]; byte[] b = new byte[32]; String text = ""; boolean ok = true;
		void put(int off, BigInteger x) { Gen.put(v, off, x); text += " " + x.toString(16); }
		void put(int off, BigInteger[] p) { for (int i = 0; i < 3; i++) put(off + 8 * i, p[i]); }
	}

	private static Vals secrets(Src s, int op) {
		Vals r = new Vals();
		if (op < 8) {
			BigInteger a = Gen.u256(s);
			r.put(0, a);
			r.put(8, s.chance(1, 8) ? a : Gen.related(s, a));
		} else if (op < 11) {
			BigInteger a = Gen.u256(s);
			r.b = Ref.be(a, 32);
			r.text = a.toString(16);
		} else if (op < 16) {
			BigInteger a = Gen.field(s), b = s.chance(1, 3) ? Gen.related(s, a).mod(Ref.P) : s.chance(1, 4) ? Ref.P.subtract(a).mod(Ref.P) : Gen.field(s);
			if (op >= 14 && s.flag()) { BigInteger[] p = Gen.boundaryPair(s); a = p[0]; b = p[1]; }
			r.put(0, a);
			r.put(8, b);
		} else if (op < 21 || op == 22 || op == 23) {
			boolean norm = op == 19;
			Ref.Pt a = Gen.point(s, true), b = s.chance(1, 3) ? a : s.chance(1, 3) ? Ref.neg(a) : Gen.point(s, true);
			BigInteger[] ca = Gen.proj(a, norm ? Ref.ONE : Gen.scale(s)), cb = Gen.proj(b, Gen.scale(s));
			if (norm && s.flag()) ca[s.lt(2)] = Gen.field(s);
			r.put(0, ca);
			if (op == 23) r.put(24, Gen.anyScalar(s));
			else r.put(24, cb);
		} else if (op == 21) {
			BigInteger m = s.flag() ? Ref.N : s.flag() ? Ref.P : Gen.u256(s).setBit(0);
			if (m.bitLength() < 2) m = Ref.bi(3);
			BigInteger x = Gen.below(s, m);
			for (int i = 0; x.signum() != 0 && !x.gcd(m).equals(Ref.ONE); i++) x = i > 60 ? Ref.ONE : x.add(Ref.ONE).mod(m);
			r.put(0, x);
			r.put(8, m);
		} else {
			BigInteger[] t = PropsEcdsa.signInputs(s);
			if (op == 25) t[2] = Ref.fromBe(Ref.hmac("SHA-256", 64, Ref.be(t[0], 32), Ref.be(t[1], 32)));
			r.ok = Ref.sign(t[0], t[1], t[2]) != null;
			r.put(0, t[0]);
			r.b = Ref.be(t[1], 32);
			r.text += " " + t[1].toString(16);
			if (op == 24) r.put(8, t[2]);
		}
		boolean en = s.flag();
		r.v[48] = en ? 1 : 0;
		r.text += en ? " enable=1" : " enable=0";
		return r;
	}
	private static long[] traced(int op, Vals x, boolean keep) {
		int[] v = x.v.clone();
		byte[] b = x.b.clone();
		Trace.begin(keep);
		try { ops.run(op, v, b); }
		finally { Trace.on = false; }
		return Trace.end();
	}

	private static void pair(Src s, int op) {
		if (ops == null) {
			ops = (CtRun)new Rewriter(true, "pbt.CtOps").make("pbt.CtOps");
			Vals w = new Vals();  // Classes are initialized outside of the traced runs
			w.put(0, Ref.ONE);
			w.put(8, Ref.ONE);
			for (int i = 8; i < 26; i++) if (i < 11 || i >= 24) ops.run(i, w.v.clone(), w.b);
		}
		Vals a = secrets(s, op);
		s.note("%s:%s", NAMES[op], a.text);
		if (!a.ok) { s.label("signing fails"); return; }
		long[] ta = traced(op, a, false);
		require(op == 8 || op == 9 || ta[1] > 3, "the trace of %s is empty", NAMES[op]);
		for (int i = 0; i < 2; i++) {
			Vals b = secrets(s, op);
			if (!b.ok) { s.label("signing fails"); continue; }
			s.note("versus%s", b.text);
			if (!java.util.Arrays.equals(a.v, b.v) || !java.util.Arrays.equals(a.b, b.b)) s.nontrivial();
			long[] tb = traced(op, b, false);
			s.label(NAMES[op]);
			if (ta[0] == tb[0] && ta[1] == tb[1]) continue;
			traced(op, a, true);
			long[] la = Trace.log();
			traced(op, b, true);
			long[] lb = Trace.log();
			int k = 0, n = (int)Math.min(Math.min(ta[1], tb[1]), Math.min(la.length, lb.length));
			while (k < n && la[k] == lb[k]) k++;
			int last = k - 1;
			while (last >= 0 && la[last] >>> 40 != 1) last--;
			throw new Fail(String.format(java.util.Locale.ROOT, "%s: executions that differ only in secrets take different paths: after %d equal events (last %s) one goes on with %s and the other with %s",
				NAMES[op], k, last < 0 ? "?" : Trace.where(la[last]), k < la.length ? Trace.where(la[k]) : "?", k < lb.length ? Trace.where(lb[k]) : "?"));
		}
	}
	static void small(Src s) { pair(s, s.lt(16)); }
	static void point(Src s) { pair(s, s.range(16, 20)); }
	static void big(Src s) { pair(s, s.range(21, 25)); }
	private PropsCt() {}
}
