/* native side of vf.h: replays a recorded input vector */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include "vf.h"
static uint64_t *vec; static size_t vec_n, vec_i;
uint64_t vf_next(void)
{
  if (vec_i < vec_n) return vec[vec_i++];
  return 0;
}
void vf_assume_failed(const char *f, int l) { fprintf(stderr, "VF-ASSUME-FAILED %s:%d\n", f, l); fflush(NULL); _exit(77); }
void vf_assert_failed(const char *m) { fprintf(stderr, "VF-ASSERT-FAILED %s\n", m); fflush(NULL); _exit(99); }
void vf_known_failed(const char *m) { fprintf(stderr, "VF-KNOWN-FAILED %s\n", m); }
void vf_cover_hit(const char *m) { fprintf(stderr, "VF-COVER %s\n", m); }
int main(int argc, char **argv)
{
  FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
  unsigned long long v;
  size_t cap = 0;
  if (f)
  {
    while (fscanf(f, "%llu", &v) == 1)
    {
      if (vec_n == cap) { cap = cap ? cap * 2 : 256; vec = realloc(vec, cap * sizeof *vec); }
      vec[vec_n++] = v;
    }
    fclose(f);
  }
  vf_main();
  fprintf(stderr, "VF-DONE\n");
  free(vec); vec = NULL;
  return 0;
}
