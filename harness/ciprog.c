/* A test executable of vfc_ci: its k-th run does what section k of $CI/plan.<name> says (fields separated by
 * tabs, %xx escapes) and notes in $CI/log how it was started.  Sections: "RUN", probes, then an ending:
 * dump, fail (dumps, then fails), crash (with its probes not dumped), nodump, or junk (half a file). */
#include <inttypes.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "interflop/interflop_stdlib.h"
#include "vfc_probes.h"
static char *unesc(char *s) { char *r = s, *w = s; while (*r) if (*r == '%') { unsigned x; sscanf(r + 1, "%2x", &x); *w++ = x; r += 3; } else *w++ = *r++; *w = 0; return s; }
static double dbl(char *s) { union { uint64_t u; double d; } x; x.u = strtoull(s, 0, 16); return x.d; }
static FILE *op(const char *a, const char *b, const char *m) { char p[4096]; snprintf(p, sizeof p, "%s/%s.%s", getenv("CI"), a, b); return fopen(p, m); }
int main(int c, char **v) {
  const char *nm = strrchr(v[0], '/') ? strrchr(v[0], '/') + 1 : v[0], *be = getenv("VFC_BACKENDS"); int k = 0;
  interflop_set_handler("malloc", malloc); interflop_set_handler("calloc", calloc); interflop_set_handler("free", free);
  FILE *f = op("count", nm, "r"); if (f) { if (fscanf(f, "%d", &k) != 1) return 9; fclose(f); }
  f = op("count", nm, "w"); fprintf(f, "%d\n", k + 1); fclose(f);
  f = op("log", "txt", "a"); fprintf(f, "%s\t%s\t", nm, be ? be : "?"); for (int i = 1; i < c; i++) fprintf(f, "%s%s", i > 1 ? " " : "", v[i]); fputc('\n', f); fclose(f);
  f = op("plan", nm, "r"); char *l = NULL; size_t cap = 0; int at = -1; vfc_probes p = vfc_init_probes();
  while (getline(&l, &cap, f) > 0) {
    l[strcspn(l, "\n")] = 0;
    char *w[8]; int n = 0; char *s = l; while (s && n < 8) { w[n++] = s; s = strchr(s, '\t'); if (s) *s++ = 0; }
    if (!strcmp(w[0], "RUN")) { at++; continue; }
    if (at != k) continue;
    for (int i = 1; i < n; i++) unesc(w[i]);
    if (!strcmp(w[0], "n")) vfc_probe(&p, w[1], w[2], dbl(w[3]));
    else if (!strcmp(w[0], "a")) vfc_probe_check(&p, w[1], w[2], dbl(w[3]), dbl(w[4]));
    else if (!strcmp(w[0], "r")) vfc_probe_check_relative(&p, w[1], w[2], dbl(w[3]), dbl(w[4]));
    else if (!strcmp(w[0], "dump")) return vfc_dump_probes(&p);
    else if (!strcmp(w[0], "fail")) { vfc_dump_probes(&p); return 3; }
    else if (!strcmp(w[0], "crash")) abort();
    else if (!strcmp(w[0], "nodump")) return 0;
    else if (!strcmp(w[0], "remove")) { remove(getenv("VFC_PROBES_OUTPUT")); return 0; }
  }
  return 8;
}
