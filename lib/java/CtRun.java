package pbt;
/** Runs one operation on operands at fixed places. */
public interface CtRun { int run(int op, int[] v, byte[] b); }
