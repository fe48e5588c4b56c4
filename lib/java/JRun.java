package pbt;

/** An operation of the library on given operands, in whichever copy of the library the implementation was loaded with. */
public interface JRun {
	/** Returns a description of everything the call produced; the bytes of fill are what scratch space holds before. */
	String run(int op, byte[][] data, long arg, int fill);
}
