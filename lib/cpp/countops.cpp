// The function that a build of the library with COUNT_OPS expects from the program
static volatile long total;
void countOps(long n);
void countOps(long n) { total = total + n; }
