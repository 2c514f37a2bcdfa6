/* Outputs of the generated programs, written to REC_LOG in order with the recorder's lines. Compiled natively. */
#include <fcntl.h>
#include <stdint.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int fd = -2;
static void w(const char *b, int n) { if (fd == -2) { char *p = getenv("REC_LOG"); fd = open(p ? p : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644); } if (write(fd, b, n) < 0) _exit(98); }
void out_f(float x) { uint32_t u; memcpy(&u, &x, 4); char b[64]; w(b, sprintf(b, "T0 P out f %08x\n", u)); }
void out_d(double x) { uint64_t u; memcpy(&u, &x, 8); char b[64]; w(b, sprintf(b, "T0 P out d %016" PRIx64 "\n", u)); }
void out_i(int x) { char b[64]; w(b, sprintf(b, "T0 P out i %d\n", x)); }
