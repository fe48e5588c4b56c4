package pbt;

/** What rewritten library code calls: records branches and array positions (see Rewriter). */
public final class Trace {
	static boolean on;
	private static long hash, count;
	private static long[] log;

	static void begin(boolean keep) { hash = 0; count = 0; log = keep ? new long[1 << 20] : null; on = true; }
	/** Returns the hash and the number of events. */
	static long[] end() { on = false; return new long[]{hash, count}; }
	static long[] log() { return log; }

	private static void event(long x) {
		long h = (hash ^ x) * 0x9E3779B97F4A7C15L;
		hash = h ^ (h >>> 31);
		if (log != null) {
			if (count >= log.length && log.length < 1 << 26) log = java.util.Arrays.copyOf(log, log.length * 2);
			if (count < log.length) log[(int)count] = x;
		}
		count++;
	}
	public static void block(int id) { if (on) event(1L << 40 | id); }
	public static void index(int i) { if (on) event(2L << 40 | i & 0xFFFFFFFFL); }
	static String where(long e) { return e >>> 40 == 1 ? "branch to " + Rewriter.place((int)e) : e >>> 40 == 2 ? "array position or length " + (int)e : "the end"; }

	public static int ld(int[] a, int i) { index(i); return a[i]; }
	public static long ld(long[] a, int i) { index(i); return a[i]; }
	public static byte ld(byte[] a, int i) { index(i); return a[i]; }
	public static char ld(char[] a, int i) { index(i); return a[i]; }
	public static short ld(short[] a, int i) { index(i); return a[i]; }
	public static void st(int[] a, int i, int v) { index(i); a[i] = v; }
	public static void st(long[] a, int i, long v) { index(i); a[i] = v; }
	public static void st(byte[] a, int i, byte v) { index(i); a[i] = v; }
	public static void st(char[] a, int i, char v) { index(i); a[i] = v; }
	public static void st(short[] a, int i, short v) { index(i); a[i] = v; }
	// Arrays of boolean share their instructions with arrays of byte
	public static byte ldb(Object a, int i) { index(i); return a instanceof byte[] ? ((byte[])a)[i] : (byte)(((boolean[])a)[i] ? 1 : 0); }
	public static void stb(Object a, int i, int v) { index(i); if (a instanceof byte[]) ((byte[])a)[i] = (byte)v; else ((boolean[])a)[i] = (v & 1) != 0; }
	public static Object lda(Object[] a, int i) { index(i); return a[i]; }
	public static int length(int n) { index(n); return n; }

	public static void arraycopy(Object a, int i, Object b, int j, int n) { index(i); index(j); index(n); System.arraycopy(a, i, b, j, n); }
	public static void fill(int[] a, int i, int j, int v) { index(i); index(j); java.util.Arrays.fill(a, i, j, v); }
	public static void fill(long[] a, int i, int j, long v) { index(i); index(j); java.util.Arrays.fill(a, i, j, v); }
	public static void fill(byte[] a, int i, int j, byte v) { index(i); index(j); java.util.Arrays.fill(a, i, j, v); }
	public static int[] copyOf(int[] a, int n) { index(n); return java.util.Arrays.copyOf(a, n); }
	public static byte[] copyOf(byte[] a, int n) { index(n); return java.util.Arrays.copyOf(a, n); }
	public static int[] copyOfRange(int[] a, int i, int j) { index(i); index(j); return java.util.Arrays.copyOfRange(a, i, j); }
	public static byte[] copyOfRange(byte[] a, int i, int j) { index(i); index(j); return java.util.Arrays.copyOfRange(a, i, j); }
	// These stop at the first difference
	public static boolean equals(int[] a, int[] b) { index(java.util.Arrays.mismatch(a, b)); return java.util.Arrays.equals(a, b); }
	public static boolean equals(byte[] a, byte[] b) { index(java.util.Arrays.mismatch(a, b)); return java.util.Arrays.equals(a, b); }
	public static boolean equals(long[] a, long[] b) { index(java.util.Arrays.mismatch(a, b)); return java.util.Arrays.equals(a, b); }
	private Trace() {}
}
