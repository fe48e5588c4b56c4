package pbt;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/** A case is a pure function of the choices drawn here; see lib/cpp/engine.hpp, which this mirrors. */
final class Src {
	static long[] dict = new long[0];
	static final Map<String, Long> labels = new TreeMap<>();

	private final long[] s = new long[4];
	private long[] in;  // Replayed choices, or null
	private int pos;
	private long[] rec = new long[64];
	private int n;
	boolean nontriv;
	private final StringBuilder text = new StringBuilder();
	long hash;
	boolean counting = true;

	Src(long seed, long nameHash, long index) {
		long[] x = {seed};
		long y = splitmix(x) ^ nameHash;
		x[0] = y;
		y = splitmix(x) ^ index;
		x[0] = y;
		for (int i = 0; i < 4; i++) s[i] = splitmix(x);
	}
	/** In a sequence of related cases: what earlier ones generated, by kind; else null. */
	Map<String, List<Object>> memory;

	/** Something generated earlier in the sequence, or null. */
	Object recall(String kind, int num, int den) {
		if (memory == null) return null;
		List<Object> v = memory.get(kind);
		if (v == null || !chance(num, den)) return null;
		return v.get(lt(v.size()));
	}
	Object recall(String kind) { return recall(kind, 2, 5); }
	<T> T keep(String kind, T x) {
		if (memory != null) {
			List<Object> v = memory.computeIfAbsent(kind, k -> new ArrayList<>());
			if (v.size() < 64) v.add(x);
		}
		return x;
	}

	Src(long[] choices) { in = choices; counting = false; }

	private static long splitmix(long[] x) {
		long z = x[0] += 0x9E3779B97F4A7C15L;
		z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
		z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
		return z ^ (z >>> 31);
	}
	private long next() {
		long r = Long.rotateLeft(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = Long.rotateLeft(s[3], 45);
		return r;
	}
	private long put(long v) {
		if (n == rec.length) rec = Arrays.copyOf(rec, n * 2);
		rec[n++] = v;
		hash = (hash ^ v) * 0x9E3779B97F4A7C15L;
		hash ^= hash >>> 29;
		return v;
	}
	long[] choices() { return Arrays.copyOf(rec, n); }

	/** Uniform in [0, m); shrinks towards 0. */
	long below(long m) {
		if (m <= 0) throw new IllegalStateException("below(" + m + ")");
		if (in == null) return put(Long.remainderUnsigned(next(), m));  // The bias is below 2^-30 for the bounds in use
		long v = pos < in.length ? in[pos] : 0;
		pos++;
		if (v < 0 || v >= m) v = m - 1;
		return put(v);
	}
	long u64() {
		if (in == null) return put(next());
		long v = pos < in.length ? in[pos] : 0;
		pos++;
		return put(v);
	}
	int u32() { return (int)below(1L << 32); }
	int u8() { return (int)below(256); }
	int lt(int m) { return (int)below(m); }
	boolean flag() { return below(2) != 0; }
	boolean chance(int num, int den) { return below(den) >= den - num; }
	int range(int lo, int hi) { return lo + (int)below(hi - lo + 1); }
	int weighted(int... w) {
		int sum = 0;
		for (int x : w) sum += x;
		int r = (int)below(sum);
		for (int i = 0; i < w.length; i++) {
			if (r < w[i]) return i;
			r -= w[i];
		}
		return 0;
	}
	void nontrivial() { nontriv = true; }
	void label(String s) { if (counting) labels.merge(s, 1L, Long::sum); }
	void note(String fmt, Object... args) {
		if (text.length() < 5000) {
			if (text.length() > 0) text.append("; ");
			text.append(args.length == 0 ? fmt : String.format(java.util.Locale.ROOT, fmt, args));
		}
	}
	String text() { return text.toString(); }
}
