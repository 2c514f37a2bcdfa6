/* Log of the generated programs of the function-instrumentation checks (not instrumented), and stand-ins for
 * mathematical library functions that log what they receive and give. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
static FILE *f;
static void open_(void) { if (!f) { f = fopen(getenv("FI_LOG"), "w"); if (!f) abort(); } }
void lg(int kind, int id) { open_(); fprintf(f, "\n%d %d", kind, id); }
void lv(unsigned long v) { fprintf(f, " %lx", v); }
void lend(void) { open_(); fprintf(f, "\n"); fclose(f); }
static uint64_t b8(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
static uint32_t b4(float x) { uint32_t u; memcpy(&u, &x, 4); return u; }
#define D2(n) double n(double x, double y) { lg(2, -1); lv(b8(x)); lv(b8(y)); double r = x * 0.75 + y * 1.0000001; lg(5, -1); lv(b8(r)); return r; }
#define D1(n) double n(double x) { lg(2, -1); lv(b8(x)); double r = x * 1.3333 + 1e-9; lg(5, -1); lv(b8(r)); return r; }
#define F2(n) float n(float x, float y) { lg(2, -1); lv(b4(x)); lv(b4(y)); float r = x * 0.75f + y * 1.00001f; lg(5, -1); lv(b4(r)); return r; }
#define F1(n) float n(float x) { lg(2, -1); lv(b4(x)); float r = x * 1.3333f + 1e-5f; lg(5, -1); lv(b4(r)); return r; }
D2(pow) D2(atan2) D1(sin) D1(exp) F2(powf) F1(sinf) F1(expf)
