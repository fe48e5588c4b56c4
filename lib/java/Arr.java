package pbt;

import java.math.BigInteger;
import java.util.Arrays;

/** One int array holding operands at chosen places among garbage, with a record of what it held. */
final class Arr {
	int[] v;
	private int[] before;
	int[] off;

	/** Places regions of the given sizes (multiples of 8) in a random order with random gaps; the last one may end the array. */
	Arr(Src s, int... sizes) {
		int n = sizes.length;
		off = new int[n];
		int[] order = new int[n];
		for (int i = 0; i < n; i++) order[i] = i;
		boolean lastAtEnd = !s.chance(1, 3);
		for (int i = (lastAtEnd ? n - 2 : n - 1); i > 0; i--) {
			int j = i - s.lt(i + 1), t = order[i];
			order[i] = order[j];
			order[j] = t;
		}
		int pos = 0;
		for (int i = 0; i < n; i++) {
			if (s.chance(1, 4)) pos += 8 * s.range(1, 3);
			off[order[i]] = pos;
			pos += sizes[order[i]];
		}
		if (!lastAtEnd) pos += s.range(0, 20);
		v = new int[pos];
		switch (s.weighted(1, 1, 4, 1, 1)) {  // Garbage everywhere
			case 0: break;
			case 1: Arrays.fill(v, -1); break;
			case 2: {
				long x = s.u64();
				for (int i = 0; i < pos; i++) { x = x * 6364136223846793005L + 1442695040888963407L; v[i] = (int)(x >>> 32); }
				break;
			}
			case 3: for (int i = 0; i + 8 <= pos; i += 8) Gen.put(v, i, Ref.P); break;
			default: Arrays.fill(v, 1);
		}
	}
	void put(int i, BigInteger x) { Gen.put(v, off[i], x); }
	void put(int i, BigInteger[] p) { for (int k = 0; k < 3; k++) Gen.put(v, off[i] + 8 * k, p[k]); }
	BigInteger get(int i) { return Gen.get(v, off[i]); }
	void ready() { before = v.clone(); }
	/** Requires every word outside the given regions (index, size)... to be as it was. */
	void check(String what, int... allowed) {
		boolean[] ok = new boolean[v.length];
		for (int i = 0; i < allowed.length; i += 2) Arrays.fill(ok, off[allowed[i]], off[allowed[i]] + allowed[i + 1], true);
		for (int i = 0; i < v.length; i++)
			if (!ok[i] && v[i] != before[i])
				throw new Fail(String.format(java.util.Locale.ROOT, "%s changed word %d of the array (offsets %s, length %d), which is neither an output nor scratch, from %08x to %08x",
					what, i, Arrays.toString(off), v.length, before[i], v[i]));
	}
}
