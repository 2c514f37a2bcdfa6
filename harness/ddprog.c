/* Run and comparison script of the delta-debugging checks (the name it is called by decides).
 *   ddRun DIR        with VFC_DDEBUG_GEN: writes the list of sites there; else notes in DIR which
 *                    sites VFC_DDEBUG_INCLUDE enables and the rank of this sample for that set
 *   ddCmp REF DIR    the verdict of that sample: $DDS/bad has one number per set (in binary order of the
 *                    sets), bit k-1 of which says whether sample k fails (the last bit stands for all others)
 * $DDS/sites has the lines; every verdict is appended to $DDS/log. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char site[32][256];
static int ns;
static FILE *op(const char *a, const char *b, const char *m) { char p[4096]; snprintf(p, sizeof p, "%s/%s", a, b); FILE *f = fopen(p, m); if (!f) { perror(p); exit(9); } return f; }
static void note(const char *s) { char p[4096]; snprintf(p, sizeof p, "%s/log", getenv("DDS")); int f = open(p, O_WRONLY | O_CREAT | O_APPEND, 0644); if (write(f, s, strlen(s)) < 0) exit(9); close(f); }
int main(int c, char **v) {
  const char *st = getenv("DDS"), *nm = strrchr(v[0], '/') ? strrchr(v[0], '/') + 1 : v[0]; char p[4096], b[4500];
  FILE *f = op(st, "sites", "r"); while (fgets(site[ns], 256, f)) ns++; fclose(f);
  if (!strcmp(nm, "ddRun")) {
    char *g = getenv("VFC_DDEBUG_GEN"), *i = getenv("VFC_DDEBUG_INCLUDE");
    if (g) { /* perhaps as two processes with common sites */
      int two = site[0][17] & 1, h = ns / 2; f = fopen(g, "w"); for (int k = 0; k < (two ? h + 1 : ns); k++) fputs(site[k], f); fclose(f);
      if (two) { snprintf(p, sizeof p, "%s.2", g); f = fopen(p, "w"); for (int k = h; k < ns; k++) fputs(site[k], f); fclose(f); }
      note("ref\n"); return 0; }
    if (!i) { note("noinclude\n"); return 3; }
    f = fopen(i, "r"); if (!f) { note("missing\n"); return 3; }
    int m = 0; char l[256];
    while (fgets(l, 256, f)) { int k; for (k = 0; k < ns && strcmp(l, site[k]); k++) ; if (k == ns || (m >> k & 1)) { note("alien\n"); return 3; } m |= 1 << k; }
    fclose(f);
    int k = 1; for (;; k++) { snprintf(p, sizeof p, "%s/s-%d-%d", st, m, k); int d = open(p, O_CREAT | O_EXCL | O_WRONLY, 0644); if (d >= 0) break; if (errno != EEXIST) return 9; }
    f = op(v[1], "sample", "w"); fprintf(f, "%d %d\n", m, k); fclose(f);
    return 0;
  }
  if (!strcmp(v[1], v[2])) return 0;
  int m, k; f = op(v[2], "sample", "r"); if (fscanf(f, "%d %d", &m, &k) != 2) return 9; fclose(f);
  int w = 0; f = op(st, "bad", "r"); for (int j = 0; j <= m; j++) if (fscanf(f, "%d", &w) != 1) return 9; fclose(f);
  int bad = w >> (k > 8 ? 7 : k - 1) & 1;
  snprintf(b, sizeof b, "sample %d %d %d %s\n", m, k, bad, v[2]); note(b);
  if (bad) { static const int code[] = {1, 2, 3, 255, 128, 256}; int r = code[(m + k) % 6]; if (r == 256) raise(SIGTERM); return r; }
  return 0;
}
