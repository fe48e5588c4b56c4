package pbt;

import io.nayuki.bitcoin.crypto.CurvePointMath;
import io.nayuki.bitcoin.crypto.Ecdsa;
import io.nayuki.bitcoin.crypto.Int256Math;
import io.nayuki.bitcoin.crypto.Sha256Hash;
import java.util.Arrays;

/** Loaded alongside the traced library. Numbers x, y, z are at 0, 8, 16 (points at 0 and 24), enable at 48, scratch from 64. */
public final class CtOps implements CtRun {
	@Override public int run(int op, int[] v, byte[] b) {
		int e = v[48];
		switch (op) {
			case 0: return Int256Math.uintAdd(v, 0, 8, e, 16);
			case 1: return Int256Math.uintSubtract(v, 0, 8, e, 16);
			case 2: return Int256Math.uintShiftLeft1(v, 0, 16);
			case 3: Int256Math.uintShiftRight1(v, 0, e, 16); return 0;
			case 4: Int256Math.replace(v, 0, 8, e); return 0;
			case 5: Int256Math.swap(v, 0, 8, e); return 0;
			case 6: return Int256Math.equalTo(v, 0, 8);
			case 7: return Int256Math.lessThan(v, 0, 8);
			case 8: new Sha256Hash(b); return 0;
			case 9: new Sha256Hash(b).toBytes(); return 0;
			case 10: return new Sha256Hash(b).hashCode();
			case 11: Int256Math.fieldAdd(v, 0, 8, 16, 64); return 0;
			case 12: Int256Math.fieldSubtract(v, 0, 8, 16, 64); return 0;
			case 13: Int256Math.fieldMultiply2(v, 0, 16, 64); return 0;
			case 14: Int256Math.fieldSquare(v, 0, 16, 64); return 0;
			case 15: Int256Math.fieldMultiply(v, 0, 8, 16, 64); return 0;
			case 16: CurvePointMath.twice(v, 0, 64); return 0;
			case 17: CurvePointMath.add(v, 0, 24, 64); return 0;
			case 18: CurvePointMath.replace(v, 0, 24, e); return 0;
			case 19: return CurvePointMath.isOnCurve(v, 0, 64);
			case 20: return CurvePointMath.isZero(v, 0);
			case 21: Int256Math.reciprocal(v, 0, 8, 16, 64); return 0;
			case 22: CurvePointMath.normalize(v, 0, 64); return 0;
			case 23: CurvePointMath.multiply(v, 0, 24, 64); return 0;
			case 24: return Ecdsa.sign(Arrays.copyOf(v, 8), new Sha256Hash(b), Arrays.copyOfRange(v, 8, 16), new int[8], new int[8]) ? 1 : 0;
			case 25: return Ecdsa.signWithHmacNonce(Arrays.copyOf(v, 8), new Sha256Hash(b), new int[8], new int[8]) ? 1 : 0;
			default: throw new IllegalStateException();
		}
	}
}
