/* Command-driven client of the verificarlo runtime wrapper.
 *
 * It is linked with the wrapper that verificarlo-c links into every
 * instrumented program and calls the same entry points the instrumented code
 * calls.  Commands are read from stdin, one per line; each produces exactly one
 * line on stdout:
 *
 *   [@k] <op> <t> <n> <hex>...   op in add sub mul div fma cmpP cast, t in f d,
 *                                n lanes in 1 2 4 8 16; operands lane-major
 *                                (a lanes, then b lanes, then c lanes)
 *   [@k] call <id> <args>...     interflop_call (see do_call)
 *   note <text>                  echoed
 *
 * "@k" executes the command in thread k (created on first use), so the order
 * of the commands is the schedule.  PAR k n <op> ...: run the op n times in
 * each of k threads concurrently (one result line: "ok").
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <inttypes.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

typedef float f1;
typedef double d1;
#define V(t, c, n) typedef t c##n __attribute__((ext_vector_type(n)));
V(float, f, 2) V(float, f, 4) V(float, f, 8) V(float, f, 16)
V(double, d, 2) V(double, d, 4) V(double, d, 8) V(double, d, 16)
V(int, i, 2) V(int, i, 4) V(int, i, 8) V(int, i, 16)

#define SC(o) extern float _float##o(float, float); extern double _double##o(double, double);
SC(add) SC(sub) SC(mul) SC(div)
extern float _floatfma(float, float, float);
extern double _doublefma(double, double, double);
extern int _floatcmp(int, float, float);
extern int _doublecmp(int, double, double);
extern float _doubletofloatcast(double);
#define VD(o, n) extern f##n _##n##xfloat##o(const f##n, const f##n); \
                 extern d##n _##n##xdouble##o(const d##n, const d##n);
#define VA(n) VD(add, n) VD(sub, n) VD(mul, n) VD(div, n) \
  extern i##n _##n##xfloatcmp(int, f##n, f##n); extern i##n _##n##xdoublecmp(int, d##n, d##n);
VA(2) VA(4) VA(8) VA(16)
extern void interflop_call(int id, ...);

#define MAXV 64
typedef union { float f; uint32_t u; } fu;
typedef union { double d; uint64_t u; } du;

static void die(const char *m, const char *l) { fprintf(stderr, "opdrv: %s: %s\n", m, l); exit(77); }

/* each scalar/vector case is a distinct call site, as in instrumented code */
#define OPF(o, n) { f##n x, y, z; for (int i = 0; i < n; i++) { ((float*)&x)[i] = a[i].f; ((float*)&y)[i] = b[i].f; } \
   z = _##n##xfloat##o(x, y); for (int i = 0; i < n; i++) r[i].f = ((float*)&z)[i]; }
#define OPD(o, n) { d##n x, y, z; for (int i = 0; i < n; i++) { ((double*)&x)[i] = a[i].d; ((double*)&y)[i] = b[i].d; } \
   z = _##n##xdouble##o(x, y); for (int i = 0; i < n; i++) r[i].d = ((double*)&z)[i]; }
#define ALLN(M, o) switch (n) { case 2: M(o, 2) break; case 4: M(o, 4) break; case 8: M(o, 8) break; case 16: M(o, 16) break; default: return -1; }
#define CMF(n) { f##n x, y; i##n z; for (int i = 0; i < n; i++) { ((float*)&x)[i] = a[i].f; ((float*)&y)[i] = b[i].f; } \
   z = _##n##xfloatcmp(p, x, y); for (int i = 0; i < n; i++) ri[i] = ((int*)&z)[i]; }
#define CMD(n) { d##n x, y; i##n z; for (int i = 0; i < n; i++) { ((double*)&x)[i] = a[i].d; ((double*)&y)[i] = b[i].d; } \
   z = _##n##xdoublecmp(p, x, y); for (int i = 0; i < n; i++) ri[i] = ((int*)&z)[i]; }

static int opf(const char *op, int n, fu *a, fu *b, fu *r) {
  if (n == 1) {
    if (!strcmp(op, "add")) r[0].f = _floatadd(a[0].f, b[0].f);
    else if (!strcmp(op, "sub")) r[0].f = _floatsub(a[0].f, b[0].f);
    else if (!strcmp(op, "mul")) r[0].f = _floatmul(a[0].f, b[0].f);
    else if (!strcmp(op, "div")) r[0].f = _floatdiv(a[0].f, b[0].f);
    else return -1;
    return 0;
  }
  if (!strcmp(op, "add")) ALLN(OPF, add)
  else if (!strcmp(op, "sub")) ALLN(OPF, sub)
  else if (!strcmp(op, "mul")) ALLN(OPF, mul)
  else if (!strcmp(op, "div")) ALLN(OPF, div)
  else return -1;
  return 0;
}
static int opd(const char *op, int n, du *a, du *b, du *r) {
  if (n == 1) {
    if (!strcmp(op, "add")) r[0].d = _doubleadd(a[0].d, b[0].d);
    else if (!strcmp(op, "sub")) r[0].d = _doublesub(a[0].d, b[0].d);
    else if (!strcmp(op, "mul")) r[0].d = _doublemul(a[0].d, b[0].d);
    else if (!strcmp(op, "div")) r[0].d = _doublediv(a[0].d, b[0].d);
    else return -1;
    return 0;
  }
  if (!strcmp(op, "add")) ALLN(OPD, add)
  else if (!strcmp(op, "sub")) ALLN(OPD, sub)
  else if (!strcmp(op, "mul")) ALLN(OPD, mul)
  else if (!strcmp(op, "div")) ALLN(OPD, div)
  else return -1;
  return 0;
}
static int cmpf(int p, int n, fu *a, fu *b, int *ri) {
  switch (n) { case 1: ri[0] = _floatcmp(p, a[0].f, b[0].f); break; case 2: CMF(2) break; case 4: CMF(4) break;
  case 8: CMF(8) break; case 16: CMF(16) break; default: return -1; }
  return 0;
}
static int cmpd(int p, int n, du *a, du *b, int *ri) {
  switch (n) { case 1: ri[0] = _doublecmp(p, a[0].d, b[0].d); break; case 2: CMD(2) break; case 4: CMD(4) break;
  case 8: CMD(8) break; case 16: CMD(16) break; default: return -1; }
  return 0;
}

/* call <id> <kind> <args>: the argument list interflop_call gets for that id */
static void do_call(char *s, char *out) {
  char *sv, *t = strtok_r(s, " \n", &sv);
  int id = atoi(t);
  char *kind = strtok_r(NULL, " \n", &sv);
  if (!kind || !strcmp(kind, "none")) { interflop_call(id); strcpy(out, "ok"); return; }
  if (!strcmp(kind, "i")) { int v = atoi(strtok_r(NULL, " \n", &sv)); interflop_call(id, v); strcpy(out, "ok"); return; }
  if (!strcmp(kind, "ii")) { int v = atoi(strtok_r(NULL, " \n", &sv)); int w = atoi(strtok_r(NULL, " \n", &sv)); interflop_call(id, v, w); strcpy(out, "ok"); return; }
  /* inexact: type, value pointer, precision */
  if (!strcmp(kind, "xf")) { int ty = atoi(strtok_r(NULL, " \n", &sv)); fu v; v.u = strtoul(strtok_r(NULL, " \n", &sv), 0, 16);
    char *pr = strtok_r(NULL, " \n", &sv); if (pr) interflop_call(id, ty, &v.f, atoi(pr)); else interflop_call(id, ty, &v.f);
    sprintf(out, "%08x", v.u); return; }
  if (!strcmp(kind, "xd")) { int ty = atoi(strtok_r(NULL, " \n", &sv)); du v; v.u = strtoull(strtok_r(NULL, " \n", &sv), 0, 16);
    char *pr = strtok_r(NULL, " \n", &sv); if (pr) interflop_call(id, ty, &v.d, atoi(pr)); else interflop_call(id, ty, &v.d);
    sprintf(out, "%016" PRIx64, v.u); return; }
  if (!strcmp(kind, "s")) { char *v = strtok_r(NULL, "\n", &sv); interflop_call(id, v); strcpy(out, "ok"); return; }
  die("bad call", kind);
}

/* enter|exit <id> <lib> <intr> <uf> <ud> <n> (<type> <name> <size> <hex>*size)*n : the hooks of function instrumentation;
 * types 0 float, 1 double, 3 float array, 4 double array; the answer is the values afterwards */
extern void vfc_enter_function(char *, char, char, char, char, int, ...) __attribute__((weak));
extern void vfc_exit_function(char *, char, char, char, char, int, ...) __attribute__((weak));
#define MAXA 6
static void do_func(char *s, char *out) {
  char *sv, *w = strtok_r(s, " \n", &sv); int ent = !strcmp(w, "enter");
#define NX strtok_r(NULL, " \n", &sv)
  char *id = strdup(NX); int fl[4]; for (int k = 0; k < 4; k++) fl[k] = atoi(NX);
  int n = atoi(NX), ty[MAXA] = {0}, sz[MAXA] = {0}; char *nm[MAXA] = {0}; void *vp[MAXA] = {0};
  if (n > MAXA) die("func", id);
  for (int k = 0; k < n; k++) {
    ty[k] = atoi(NX); nm[k] = strdup(NX); sz[k] = atoi(NX); int d = ty[k] == 1 || ty[k] == 4;
    vp[k] = malloc(sz[k] * 8 + 8);
    for (int j = 0; j < sz[k]; j++) { char *h = NX; if (d) ((uint64_t *)vp[k])[j] = strtoull(h, 0, 16); else ((uint32_t *)vp[k])[j] = strtoul(h, 0, 16); }
  }
#define Q4(k) , ty[k], nm[k], (unsigned)sz[k], vp[k]
  (ent ? vfc_enter_function : vfc_exit_function)(id, fl[0], fl[1], fl[2], fl[3], n Q4(0) Q4(1) Q4(2) Q4(3) Q4(4) Q4(5));
  char *o = out; o += sprintf(o, "ok");
  for (int k = 0; k < n; k++) for (int j = 0; j < sz[k]; j++)
    o += (ty[k] == 1 || ty[k] == 4) ? sprintf(o, " %016" PRIx64, ((uint64_t *)vp[k])[j]) : sprintf(o, " %08x", ((uint32_t *)vp[k])[j]);
}

static void exec_line1(char *line, char *out);
/* with REC_LOG set the driver adds its own view of each command to the recorder's log */
static int lfd = -2;
static void plog(const char *w, const char *s) {
  if (lfd == -2) { char *p = getenv("REC_LOG"); lfd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0644) : -1; }
  if (lfd < 0) return;
  static __thread char b[66000]; int n = snprintf(b, sizeof b, "T%ld P %s %s", (long)syscall(SYS_gettid), w, s); if (b[n - 1] != '\n') b[n++] = '\n';
  if (write(lfd, b, n) < 0) _exit(98);
}
static void exec_line(char *line, char *out) { plog("begin", line); exec_line1(line, out); plog("ret", out); }
static void exec_line1(char *line, char *out) {
  char op[32], t; int n, off;
  if (!strncmp(line, "enter ", 6) || !strncmp(line, "exit ", 5)) { do_func(line, out); return; }
  if (!strncmp(line, "call ", 5)) { do_call(line + 5, out); return; }
  if (!strncmp(line, "env ", 4)) { line[strcspn(line, "\n")] = 0; char *v = getenv(line + 4), *o = out; if (!v) { strcpy(out, "unset"); return; }
    o += sprintf(o, "set "); for (int k = 0; v[k]; k++) { if (o - out > 60000) die("env", line); o += sprintf(o, v[k] > 32 && v[k] < 127 && v[k] != '\\' ? "%c" : "\\%02x", (unsigned char)v[k]); } return; }
  if (!strncmp(line, "note", 4)) { strcpy(out, line); out[strcspn(out, "\n")] = 0; return; }
  if (sscanf(line, "%31s %c %d%n", op, &t, &n, &off) != 3) die("parse", line);
  uint64_t v[3 * 16]; int k = 0; char *p = line + off, *e;
  while (k < 48) { uint64_t x = strtoull(p, &e, 16); if (e == p) break; v[k++] = x; p = e; }
  char *o = out; *o = 0;
  if (!strcmp(op, "cast")) { du a; fu r; a.u = v[0]; r.f = _doubletofloatcast(a.d); sprintf(o, "%08x", r.u); return; }
  if (t == 'f') {
    fu a[16], b[16], c[16], r[16]; int ri[16];
    for (int i = 0; i < n; i++) { a[i].u = v[i]; b[i].u = v[n + i]; if (k > 2 * n) c[i].u = v[2 * n + i]; }
    if (!strcmp(op, "fma")) { r[0].f = _floatfma(a[0].f, b[0].f, c[0].f); sprintf(o, "%08x", r[0].u); return; }
    if (!strncmp(op, "cmp", 3)) { if (cmpf(atoi(op + 3), n, a, b, ri)) die("cmp", line); for (int i = 0; i < n; i++) o += sprintf(o, i ? " %d" : "%d", ri[i]); return; }
    if (opf(op, n, a, b, r)) die("op", line);
    for (int i = 0; i < n; i++) o += sprintf(o, i ? " %08x" : "%08x", r[i].u);
  } else {
    du a[16], b[16], c[16], r[16]; int ri[16];
    for (int i = 0; i < n; i++) { a[i].u = v[i]; b[i].u = v[n + i]; if (k > 2 * n) c[i].u = v[2 * n + i]; }
    if (!strcmp(op, "fma")) { r[0].d = _doublefma(a[0].d, b[0].d, c[0].d); sprintf(o, "%016" PRIx64, r[0].u); return; }
    if (!strncmp(op, "cmp", 3)) { if (cmpd(atoi(op + 3), n, a, b, ri)) die("cmp", line); for (int i = 0; i < n; i++) o += sprintf(o, i ? " %d" : "%d", ri[i]); return; }
    if (opd(op, n, a, b, r)) die("op", line);
    for (int i = 0; i < n; i++) o += sprintf(o, i ? " %016" PRIx64 : "%016" PRIx64, r[i].u);
  }
}

/* BATCH m k: the next m lines are executed by k threads at the same time, line j by thread j mod k */
struct bat { int id, k, m; char (*l)[2048], (*o)[2048]; pthread_barrier_t *b; };
static int ready;
/* the barrier's wake-ups are spread over microseconds: when the threads fit on the cores they then spin until all are there */
static void *batw(void *p) { struct bat *q = p; pthread_barrier_wait(q->b);
  if (q->k <= 8) { __atomic_add_fetch(&ready, 1, __ATOMIC_SEQ_CST); for (long n = 0; n < 20000000 && __atomic_load_n(&ready, __ATOMIC_SEQ_CST) < q->k; n++) ; }
  for (int j = q->id; j < q->m; j += q->k) exec_line(q->l[j], q->o[j]); return 0; }
#define MAXT 64
static void batch(int m, int k) {
  ready = 0;
  char (*l)[2048] = calloc(m, 2048), (*o)[2048] = calloc(m, 2048); pthread_barrier_t b; pthread_barrier_init(&b, 0, k);
  for (int j = 0; j < m; j++) if (!fgets(l[j], 2048, stdin)) die("batch", "short");
  pthread_t th[MAXT]; struct bat q[MAXT];
  for (int i = 0; i < k; i++) { q[i] = (struct bat){i, k, m, l, o, &b}; pthread_create(&th[i], 0, batw, &q[i]); }
  for (int i = 0; i < k; i++) pthread_join(th[i], 0);
  puts("batch"); for (int j = 0; j < m; j++) puts(o[j]);
  free(l); free(o);
}
static struct wk { pthread_t th; int on; sem_t go, done; char line[2048], out[2048]; } W[MAXT];
static void *worker(void *p) { struct wk *w = p; for (;;) { sem_wait(&w->go); if (w->line[0] == 'Q') return 0; exec_line(w->line, w->out); sem_post(&w->done); } }
struct par { char line[2048]; long n; };
/* the operation is decoded once and then repeated without anything in between */
static void *parw(void *p) {
  struct par *q = p; char op[32], t; int n, off; uint64_t v[3];
  if (sscanf(q->line, "%31s %c %d%n", op, &t, &n, &off) != 3 || n != 1) die("par", q->line);
  char *s = q->line + off; for (int k = 0; k < 3; k++) v[k] = strtoull(s, &s, 16);
  fu a = {.u = v[0]}, b = {.u = v[1]}, c = {.u = v[2]}; du x = {.u = v[0]}, y = {.u = v[1]}, z = {.u = v[2]};
#define LOOP(e) { for (long i = 0; i < q->n; i++) (void)(e); return 0; }
#define TRY(o) if (!strcmp(op, #o)) { if (t == 'f') LOOP(_float##o(a.f, b.f)) else LOOP(_double##o(x.d, y.d)) }
  TRY(add) TRY(sub) TRY(mul) TRY(div)
  if (!strcmp(op, "fma")) { if (t == 'f') LOOP(_floatfma(a.f, b.f, c.f)) else LOOP(_doublefma(x.d, y.d, z.d)) }
  die("par", q->line); return 0;
}

int main(void) {
  static char line[4096], out[65536];
  setvbuf(stdout, 0, _IOLBF, 1 << 16);
  while (fgets(line, sizeof line, stdin)) {
    if (line[0] == '\n') continue;
    if (line[0] == '@') {
      char *e; int k = strtol(line + 1, &e, 10); while (*e == ' ') e++;
      if (k < 0 || k >= MAXT) die("thread", line);
      struct wk *w = &W[k];
      if (!w->on) { sem_init(&w->go, 0, 0); sem_init(&w->done, 0, 0); w->on = 1; pthread_create(&w->th, 0, worker, w); }
      strcpy(w->line, e); sem_post(&w->go); sem_wait(&w->done); puts(w->out);
    } else if (!strncmp(line, "PAR ", 4)) {
      int k, off; struct par q; sscanf(line, "PAR %d %ld %n", &k, &q.n, &off); strcpy(q.line, line + off);
      pthread_t th[MAXT]; for (int i = 0; i < k; i++) pthread_create(&th[i], 0, parw, &q); for (int i = 0; i < k; i++) pthread_join(th[i], 0);
      puts("ok");
    } else if (!strncmp(line, "BATCH ", 6)) { int m, k; sscanf(line, "BATCH %d %d", &m, &k); batch(m, k);
    } else if (!strncmp(line, "quit", 4)) { int c = atoi(line + 4); fflush(stdout); exit(c);
    } else { exec_line(line, out); puts(out); }
  }
  for (int i = 0; i < MAXT; i++) if (W[i].on) { W[i].line[0] = 'Q'; sem_post(&W[i].go); pthread_join(W[i].th, 0); }
  fflush(stdout);
  return 0;
}
