package pbt;
/** Deterministic signing with the derived nonce replaced; returns success in bit 0 and whether the nonce was replaced in bit 1. */
public interface HookedSigner { int sign(int[] key, byte[] hash, byte[] hmac, int[] r, int[] s); int signFrom(int[] base, int[] key, byte[] hash, int[] nonce, int[] r, int[] s); }
