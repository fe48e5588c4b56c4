package pbt;

/** A property did not hold. */
public final class Fail extends RuntimeException {
	public Fail(String msg) { super(msg, null, false, false); }
	public static void require(boolean ok, String fmt, Object... args) { if (!ok) throw new Fail(String.format(java.util.Locale.ROOT, fmt, args)); }
}
