/* a few operations of both types whose results are printed bit for bit */
#include <stdio.h>
int main(void) {
  volatile double a = 0.1, b = 3.7, c = 1.0; volatile float x = 0.1f, y = 2.9f, z = 1;
  for (int i = 0; i < 4; i++) { c = c * b + a; c = c / 1.3 - a; z = z * y + x; z = z / 1.7f - x; printf("%a %a\n", c, (double)z); }
  volatile double p = 1 + 1. / (1 << 20), q = 1; volatile float r = 1.0009765625f, t = 1;
  printf("%d %d\n", p - q > 0, r - t > 0); /* two cancellations */
  return 0;
}
