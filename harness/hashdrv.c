/* Drives the runtime's hash map from commands on stdin; one result line each. */
#include <inttypes.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "interflop/interflop_stdlib.h"
#include "interflop/hashmap/vfc_hashmap.h"
static size_t nfree;
static void cfree(void *p) { nfree += p != NULL; free(p); }
int main(void) {
  interflop_set_handler("malloc", malloc);
  interflop_set_handler("calloc", calloc);
  interflop_set_handler("free", cfree);
  vfc_hashmap_t m = vfc_hashmap_create();
  char *l = NULL; size_t cap = 0;
  while (getline(&l, &cap, stdin) > 0) {
    l[strcspn(l, "\n")] = 0;
    uint64_t k = 0, v = 0; char c = l[0]; int n = 0;
    if (l[1]) sscanf(l + 1, "%" SCNx64 "%n %" SCNx64, &k, &n, &v);
    switch (c) {
    case 'N': vfc_hashmap_destroy(m); m = vfc_hashmap_create(); puts("ok"); break;
    case 'i': vfc_hashmap_insert(m, k, (void *)v); puts("ok"); break;
    case 'r': vfc_hashmap_remove(m, k); puts("ok"); break;
    case 'h': printf("%d\n", vfc_hashmap_have(m, k) != 0); break;
    case 'g': printf("%" PRIx64 "\n", (uint64_t)vfc_hashmap_get(m, k)); break;
    case 'n': printf("%zu\n", (size_t)vfc_hashmap_num_items(m)); break;
    case 'w':
      for (size_t i = 0; i < m->capacity; i++) if (get_value_at(m->items, i) > 1) printf("%zx %zx ", (size_t)get_key_at(m->items, i), (size_t)get_value_at(m->items, i));
      puts("."); break;
    case 's': printf("%zx\n", (size_t)vfc_hashmap_str_function(l + 2)); break;
    case 'F': { /* entries that the map owns: free them through the map */
      vfc_hashmap_t q = vfc_hashmap_create();
      for (uint64_t j = 0; j < k; j++) vfc_hashmap_insert(q, j * 73, malloc(16));
      for (uint64_t j = 0; j < v; j++) { free(vfc_hashmap_get(q, (k - 1 - j) * 73)); vfc_hashmap_remove(q, (k - 1 - j) * 73); }
      nfree = 0; vfc_hashmap_free(q); printf("%zu\n", nfree); vfc_hashmap_destroy(q); break; }
    case 'B': { /* many entries: k of them, keys v apart; every third one removed in the end */
      vfc_hashmap_t q = vfc_hashmap_create(); size_t n1, f1 = 0, f2 = 0, g2 = 0;
      for (uint64_t j = 0; j < k; j++) vfc_hashmap_insert(q, 0x401000 + j * v, (void *)(j + 2));
      n1 = vfc_hashmap_num_items(q);
      for (uint64_t j = 0; j < k; j++) f1 += vfc_hashmap_have(q, 0x401000 + j * v) && (uint64_t)vfc_hashmap_get(q, 0x401000 + j * v) == j + 2;
      for (uint64_t j = 0; j < k; j += 3) vfc_hashmap_remove(q, 0x401000 + j * v);
      for (uint64_t j = 0; j < k; j++) if (j % 3) f2 += (uint64_t)vfc_hashmap_get(q, 0x401000 + j * v) == j + 2; else g2 += !vfc_hashmap_have(q, 0x401000 + j * v);
      printf("%zu %zu %zu %zu %zu\n", n1, f1, (size_t)vfc_hashmap_num_items(q), f2, g2);
      vfc_hashmap_destroy(q); break; }
    }
    fflush(stdout);
  }
  return 0;
}
