/* Places and dumps probes as commanded on stdin (fields separated by tabs, %xx escapes); one result line each. */
#include <inttypes.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "interflop/interflop_stdlib.h"
#include "vfc_probes.h"
void vfc_init_probes_f(vfc_probes *probes);
static char *unesc(char *s) { char *r = s, *w = s; while (*r) if (*r == '%') { unsigned x; sscanf(r + 1, "%2x", &x); *w++ = x; r += 3; } else *w++ = *r++; *w = 0; return s; }
static double dbl(char *s) { union { uint64_t u; double d; } x; x.u = strtoull(s, 0, 16); return x.d; }
int main(void) {
  interflop_set_handler("malloc", malloc);
  interflop_set_handler("calloc", calloc);
  interflop_set_handler("free", free);
  vfc_probes p = vfc_init_probes(), *q = &p;
  char *l = NULL; size_t cap = 0;
  setvbuf(stdout, 0, _IOLBF, 0);
  while (getline(&l, &cap, stdin) > 0) {
    l[strcspn(l, "\n")] = 0;
    char *f[8]; int n = 0; char *s = l;
    while (s && n < 8) { f[n++] = s; s = strchr(s, '\t'); if (s) *s++ = 0; }
    for (int i = 1; i < n; i++) unesc(f[i]);
    int r = 0; double a, b;
    switch (f[0][0]) {
    case 'I': vfc_init_probes_f(&p); break;
    case 'p': r = vfc_probe(q, f[1], f[2], dbl(f[3])); break;
    case 'a': r = vfc_probe_check(q, f[1], f[2], dbl(f[3]), dbl(f[4])); break;
    case 'r': r = vfc_probe_check_relative(q, f[1], f[2], dbl(f[3]), dbl(f[4])); break;
    case 'P': a = dbl(f[3]); r = vfc_probe_f(q, f[1], f[2], &a); break;
    case 'A': a = dbl(f[3]); b = dbl(f[4]); r = vfc_probe_check_f(q, f[1], f[2], &a, &b); break;
    case 'R': a = dbl(f[3]); b = dbl(f[4]); r = vfc_probe_check_relative_f(q, f[1], f[2], &a, &b); break;
    case 'n': r = vfc_num_probes(q); break;
    case 'd': r = vfc_dump_probes(q); printf("RES %d\n", r); return 0;
    }
    /* names are the program's own: they may be reused as soon as the call returns */
    for (int i = 1; i < n; i++) memset(f[i], '#', strlen(f[i]));
    printf("RES %d\n", r);
  }
  return 0;
}
