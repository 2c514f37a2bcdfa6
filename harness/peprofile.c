/* calls of many kinds, for a profile of the backend */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#define N __attribute__((noinline))
N float addf(float a, float b) { return a + b; }
N double mul(double a, double b) { return a * b; }
N void scale(double *x, double s) { *x *= s; }
N void halve(float *x) { *x /= 2; }
N double mixed(float a, double b) { return a * b + mul(b, b); }
N int count(int n) { return n + 1; }
int main(void) {
  double x = 1.5; float y = 2.5f; int n = 0;
  for (int i = 0; i < 3; i++) { x = mul(x, 1.25); n = count(n); }
  scale(&x, 3.0); halve(&y);
  x = mixed(addf(y, 1.0f), pow(x, 0.5)) + sqrt(x) + sinf(y);
  printf("%.17g %d\n", x, n);
  return 0;
}
