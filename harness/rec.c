/* Recorder backend: a backend that logs every call it receives.
 *
 * Arguments (argv is logged verbatim): --id=X, --ops=HEX (bit mask of the operations it implements, see below),
 * --tag=N (the low bits of its results are those of the native result xor N), --reject (its options are refused),
 * anything else is ignored.
 * The log is the file named by REC_LOG, appended to with one write per line, each starting with "T<thread> ":
 *   <id> pre | cli <argc> <argv>... | init | fin
 *   <id> op <name> <t> <operands> <result>
 *   <id> call <id> ... | enter <function> <lib> <intr> <n> (<type> <name> <size> <value>)... | exit ...
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <inttypes.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "interflop/interflop.h"

typedef struct { char id[32]; unsigned long ops; unsigned tag; int depth; } rc_t;
enum { ADDF = 1, SUBF = 2, MULF = 4, DIVF = 8, CMPF = 16, ADDD = 32, SUBD = 64, MULD = 128, DIVD = 256, CMPD = 512,
       CAST = 1024, FMAF = 2048, FMAD = 4096, ENTER = 8192, EXIT = 16384, USER = 32768, FIN = 65536 };
static int fd = -1;
static interflop_panic_t the_panic;
typedef union { float f; uint32_t u; } fu;
typedef union { double d; uint64_t u; } du;

static void rlog(const char *fmt, ...) {
  char b[65536]; int k = sprintf(b, "T%ld ", (long)syscall(SYS_gettid));
  va_list ap; va_start(ap, fmt); int n = k + vsnprintf(b + k, sizeof b - 32, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (fd < 0) { const char *p = getenv("REC_LOG"); fd = open(p ? p : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644); }
  if (write(fd, b, n) < 0) _exit(99);
}
void interflop_set_handler(const char *name, void *fn) { (void)name; (void)fn; }
const char *interflop_get_backend_name(void) { return "rec"; }
const char *interflop_get_backend_version(void) { return "1"; }
void interflop_pre_init(interflop_panic_t panic, File *stream, void **context) {
  (void)stream; the_panic = panic; rc_t *c = calloc(1, sizeof *c); strcpy(c->id, "?"); c->ops = 0x1ffff; *context = c;
}
void interflop_cli(int argc, char **argv, void *context) {
  rc_t *c = context; int rej = 0; static char b[60000]; int n = 0; b[0] = 0;
  for (int i = 0; i < argc; i++) {
    char *a = argv[i];
    if (!a) { n += snprintf(b + n, sizeof b - n, " NULL"); continue; }
    n += snprintf(b + n, sizeof b - n, " ");
    for (char *q = a; *q; q++) n += snprintf(b + n, sizeof b - n, *q > 32 && *q < 127 && *q != '\\' ? "%c" : "\\%02x", (unsigned char)*q);
    if (!strncmp(a, "--id=", 5)) strncpy(c->id, a + 5, 31);
    else if (!strncmp(a, "--ops=", 6)) c->ops = strtoul(a + 6, 0, 16);
    else if (!strncmp(a, "--tag=", 6)) c->tag = atoi(a + 6);
    else if (!strcmp(a, "--reject")) rej = 1;
  }
  rlog("%s cli %d%s%s", c->id, argc, b, argv[argc] ? " UNTERMINATED" : "");
  if (rej) the_panic("rejected\n");
}
void interflop_configure(void *configure, void *context) { (void)configure; (void)context; }

#define BIN(N, O) \
  static void N##_f(float a, float b, float *r, void *x) { rc_t *c = x; fu A = {.f = a}, B = {.f = b}, R; R.f = a O b; R.u ^= c->tag; \
    *r = R.f; rlog("%s op " #N " f %08x %08x %08x", c->id, A.u, B.u, R.u); } \
  static void N##_d(double a, double b, double *r, void *x) { rc_t *c = x; du A = {.d = a}, B = {.d = b}, R; R.d = a O b; R.u ^= c->tag; \
    *r = R.d; rlog("%s op " #N " d %016" PRIx64 " %016" PRIx64 " %016" PRIx64, c->id, A.u, B.u, R.u); }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /)
static int pred(int p, double a, double b) {
  if (isnan(a) || isnan(b)) return (p >> 3) & 1;
  return a == b ? p & 1 : a > b ? (p >> 1) & 1 : (p >> 2) & 1;
}
static void cmp_f(enum FCMP_PREDICATE p, float a, float b, int *r, void *x) { rc_t *c = x; fu A = {.f = a}, B = {.f = b}; int v = pred(p, a, b) ^ (c->tag & 1); *r = v;
  rlog("%s op cmp%d f %08x %08x %d", c->id, (int)p, A.u, B.u, v); }
static void cmp_d(enum FCMP_PREDICATE p, double a, double b, int *r, void *x) { rc_t *c = x; du A = {.d = a}, B = {.d = b}; int v = pred(p, a, b) ^ (c->tag & 1); *r = v;
  rlog("%s op cmp%d d %016" PRIx64 " %016" PRIx64 " %d", c->id, (int)p, A.u, B.u, v); }
static void cast_df(double a, float *r, void *x) { rc_t *c = x; du A = {.d = a}; fu R; R.f = (float)a; R.u ^= c->tag;
  *r = R.f; rlog("%s op cast f %016" PRIx64 " %08x", c->id, A.u, R.u); }
static void fma_f(float a, float b, float d, float *r, void *x) { rc_t *c = x; fu A = {.f = a}, B = {.f = b}, D = {.f = d}, R; R.f = fmaf(a, b, d); R.u ^= c->tag;
  *r = R.f; rlog("%s op fma f %08x %08x %08x %08x", c->id, A.u, B.u, D.u, R.u); }
static void fma_d(double a, double b, double d, double *r, void *x) { rc_t *c = x; du A = {.d = a}, B = {.d = b}, D = {.d = d}, R; R.d = fma(a, b, d); R.u ^= c->tag;
  *r = R.d; rlog("%s op fma d %016" PRIx64 " %016" PRIx64 " %016" PRIx64 " %016" PRIx64, c->id, A.u, B.u, D.u, R.u); }
static void user(void *x, interflop_call_id id, va_list ap) {
  rc_t *c = x;
  if (id == INTERFLOP_INEXACT_ID) {
    int ty = va_arg(ap, int); void *v = va_arg(ap, void *); int p = va_arg(ap, int);
    if (ty == FFLOAT) rlog("%s call %d %d %08x %d", c->id, (int)id, ty, *(uint32_t *)v, p);
    else rlog("%s call %d %d %016" PRIx64 " %d", c->id, (int)id, ty, *(uint64_t *)v, p);
  } else if (id == INTERFLOP_CUSTOM_ID) { int a = va_arg(ap, int); int b = va_arg(ap, int); rlog("%s call %d %d %d", c->id, (int)id, a, b);
  } else rlog("%s call %d %d", c->id, (int)id, va_arg(ap, int));
}
static void fargs(rc_t *c, const char *what, interflop_function_stack_t *st, int n, va_list ap) {
  char b[8192]; int k = 0; b[0] = 0;
  for (int i = 0; i < n; i++) {
    int ty = va_arg(ap, int); char *nm = va_arg(ap, char *); unsigned sz = va_arg(ap, unsigned); void *v = va_arg(ap, void *);
    if (ty < 0 || ty >= FTYPES_END || !nm) { k += snprintf(b + k, sizeof b - k, " BAD"); break; }
    k += snprintf(b + k, sizeof b - k, " %d %s %u", ty, nm, sz);
    if (ty == FFLOAT) k += snprintf(b + k, sizeof b - k, " %08x", *(uint32_t *)v);
    else if (ty == FDOUBLE) k += snprintf(b + k, sizeof b - k, " %016" PRIx64, *(uint64_t *)v);
    else for (unsigned j = 0; j < sz && k < (int)sizeof b - 40; j++)
      k += ty == FDOUBLE_PTR ? snprintf(b + k, sizeof b - k, " %016" PRIx64, ((uint64_t *)v)[j]) : snprintf(b + k, sizeof b - k, " %08x", ((uint32_t *)v)[j]);
  }
  interflop_function_info_t *f = st->array[st->top];
  rlog("%s %s %s %d %d %d%s", c->id, what, f ? f->id : "NULL", f ? f->isLibraryFunction : -1, f ? f->isIntrinsicFunction : -1, n, b);
}
static void enter(interflop_function_stack_t *st, void *x, int n, va_list ap) { fargs(x, "enter", st, n, ap); }
static void leave(interflop_function_stack_t *st, void *x, int n, va_list ap) { fargs(x, "exit", st, n, ap); }
static void fin(void *x) { rc_t *c = x; rlog("%s fin", c->id); }
struct interflop_backend_interface_t interflop_init(void *context) {
  rc_t *c = context; unsigned long o = c->ops;
  rlog("%s init", c->id);
  struct interflop_backend_interface_t i; memset(&i, 0, sizeof i);
#define SET(b, m, f) if (o & b) i.interflop_##m = f;
  SET(ADDF, add_float, add_f) SET(SUBF, sub_float, sub_f) SET(MULF, mul_float, mul_f) SET(DIVF, div_float, div_f) SET(CMPF, cmp_float, cmp_f)
  SET(ADDD, add_double, add_d) SET(SUBD, sub_double, sub_d) SET(MULD, mul_double, mul_d) SET(DIVD, div_double, div_d) SET(CMPD, cmp_double, cmp_d)
  SET(CAST, cast_double_to_float, cast_df) SET(FMAF, fma_float, fma_f) SET(FMAD, fma_double, fma_d)
  SET(ENTER, enter_function, enter) SET(EXIT, exit_function, leave) SET(USER, user_call, user) SET(FIN, finalize, fin)
  return i;
}
