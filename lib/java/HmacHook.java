package pbt;

import io.nayuki.bitcoin.crypto.Ecdsa;
import io.nayuki.bitcoin.crypto.Sha256;
import io.nayuki.bitcoin.crypto.Sha256Hash;

/** Loaded alongside a rewritten library: what its callers of HMAC-SHA-256 get. */
public final class HmacHook implements HookedSigner {
	private static byte[] result;
	private static boolean used;
	public static Sha256Hash getHmac(byte[] key, byte[] msg) {
		if (result == null) return Sha256.getHmac(key, msg);
		used = true;
		return new Sha256Hash(result);
	}
	/** Signing with another base point: 0 or 1 as signing returned, -1 if the base point cannot be set. */
	@Override public int signFrom(int[] base, int[] key, byte[] hash, int[] nonce, int[] r, int[] s) {
		int[] g;
		try {
			java.lang.reflect.Field f = Class.forName("io.nayuki.bitcoin.crypto.CurvePointMath", true, HmacHook.class.getClassLoader()).getDeclaredField("BASE_POINT");
			f.setAccessible(true);
			g = (int[])f.get(null);
		} catch (ReflectiveOperationException | RuntimeException e) { return -1; }
		if (g.length != base.length) return -1;
		int[] old = g.clone();
		System.arraycopy(base, 0, g, 0, g.length);
		try { return Ecdsa.sign(key, new Sha256Hash(hash), nonce, r, s) ? 1 : 0; }
		finally { System.arraycopy(old, 0, g, 0, g.length); }
	}
	@Override public int sign(int[] key, byte[] hash, byte[] hmac, int[] r, int[] s) {
		result = hmac;
		used = false;
		boolean ok;
		try { ok = Ecdsa.signWithHmacNonce(key, new Sha256Hash(hash), r, s); }
		finally { result = null; }
		return (used ? 2 : 0) + (ok ? 1 : 0);
	}
}
