/* Run and comparison script of the precision-search checks (the name it is called by decides).
 * $PE/profile: what the profiling run writes; $PE/rules: lines "kind bound n" followed by n lines
 * "key<TAB>column<TAB>weight": the sum has to reach the bound, else the run fails (kind run), never ends
 * (kind hang) or is rejected by the comparison (kind cmp).  Everything tried is appended to $PE/log. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char *slurp(const char *a, const char *b) {
  char p[4096]; snprintf(p, sizeof p, "%s/%s", a, b); FILE *f = fopen(p, "r"); if (!f) return NULL;
  char *t = calloc(1, 1 << 20); size_t n = fread(t, 1, (1 << 20) - 1, f); t[n] = 0; fclose(f); return t;
}
static void spit(const char *a, const char *b, int app, const char *t) {
  char p[4096]; snprintf(p, sizeof p, "%s/%s", a, b); int d = open(p, O_WRONLY | O_CREAT | (app ? O_APPEND : O_TRUNC), 0644);
  if (d < 0 || write(d, t, strlen(t)) < 0) { perror(p); exit(9); } close(d);
}
struct rec { char key[400]; long col[8]; int n; } rec[200]; int nr;
static void parse(char *t) {
  char id[300] = "";
  for (char *l = strtok(t, "\n"); l; l = strtok(NULL, "\n")) {
    char *f[20]; int n = 0; char *q = strdup(l);
    for (char *x; n < 20 && (x = strsep(&q, "\t"));) f[n++] = x;
    struct rec *r = &rec[nr++];
    if (n >= 12) { snprintf(id, sizeof id, "%s", f[0]); snprintf(r->key, sizeof r->key, "%s", id); for (int i = 0; i < 4; i++) r->col[i] = atol(f[5 + i]); r->n = 4; }
    else if (n >= 5) { snprintf(r->key, sizeof r->key, "%s %s %s", id, f[0], f[1]); r->col[0] = atol(f[3]); r->col[1] = atol(f[4]); r->n = 2; }
  }
}
static long value(const char *key, int c) { for (int i = 0; i < nr; i++) if (!strcmp(rec[i].key, key) && c < rec[i].n) return rec[i].col[c]; return 0; }
static int rejected(const char *kinds) {
  char *t = slurp(getenv("PE"), "rules"), *q = t, *l; int bad = 0;
  while ((l = strsep(&q, "\n")) && *l) {
    char kind[20]; long b, s = 0; int n; sscanf(l, "%19s %ld %d", kind, &b, &n);
    for (int i = 0; i < n; i++) { char *m = strsep(&q, "\n"); char *k = strsep(&m, "\t"), *c = strsep(&m, "\t"), *w = m; s += atol(w) * value(k, atoi(c)); }
    if (!strcmp(kind, kinds) && s < b) bad = 1;
  }
  return bad;
}
int main(int c, char **v) {
  const char *pe = getenv("PE"), *nm = strrchr(v[0], '/') ? strrchr(v[0], '/') + 1 : v[0], *be = getenv("VFC_BACKENDS"); char b[5000];
  int noisy = access("noisy", F_OK) == 0;
  if (noisy) for (int i = 0; i < 3000; i++) puts("a line of output of the script, which nobody reads");
  if (!strcmp(nm, "peRun")) {
    char *o = be ? strstr(be, "--prec-output-file=") : NULL;
    if (o) { char f[500]; sscanf(o + 19, "%499s", f); spit(".", f, 0, slurp(pe, "profile")); spit(pe, "log", 1, "REF\n"); return 0; }
    char f[500] = "?"; char *z;
    if (be && (z = strstr(be, "--prec-input-file="))) sscanf(z + 18, "%499s", f);
    char *t = slurp(".", f); if (!t) { snprintf(b, sizeof b, "NOCONF %s\n", be); spit(pe, "log", 1, b); return 3; }
    spit(v[1], "config", 0, t); spit(v[1], "be", 0, be);
    parse(strdup(t));
    snprintf(b, sizeof b, "%s/prog", pe);
    if (access(b, X_OK) == 0) {
      strcat(b, " >/dev/null 2>&1");
      if (system(b)) { spit(pe, "log", 1, "TRY 0 "); spit(pe, "log", 1, be); spit(pe, "log", 1, " REFUSED\n"); spit(pe, "log", 1, t); spit(pe, "log", 1, "END\n"); return 1; }
    }
    int bad = rejected("run") ? 1 : rejected("hang") ? 2 : 0;
    if (bad) { spit(pe, "log", 1, "TRY 0 "); spit(pe, "log", 1, be); spit(pe, "log", 1, "\n"); spit(pe, "log", 1, t); spit(pe, "log", 1, "END\n"); }
    if (bad == 2) for (int k = 0; k < 900; k++) sleep(1);
    return bad;
  }
  char *t = slurp(v[2], "config"), *e = slurp(v[2], "be"); if (!t) return 9;
  parse(strdup(t));
  int bad = rejected("cmp");
  snprintf(b, sizeof b, "TRY %d %s\n", !bad, e); spit(pe, "log", 1, b); spit(pe, "log", 1, t); spit(pe, "log", 1, "END\n");
  return bad;
}
