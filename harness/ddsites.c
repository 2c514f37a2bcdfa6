/* one division per function; prints the set of the functions whose result was perturbed */
#include <stdio.h>
#define F(k) __attribute__((noinline)) static double site##k(volatile double *a) { return *a / 3.0; }
F(1) F(2) F(3) F(4) F(5)
#define T(k) if (site##k(&x) != 0x1.5555555555555p-2) m |= 1 << (k - 1);
int main(void) {
  volatile double x = 1; int m = 0;
  T(1) T(2) T(3) T(4) T(5)
  printf("%d\n", m);
  return 0;
}
