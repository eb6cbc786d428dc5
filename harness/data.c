/* data slices over an arbitrary block: every operation against its definition on bytes */
#define VF_MEM_MAX 8
#include "mem.h"
#include "reactor.h"
#define N 5

void vf_main(void)
{
  char *a = malloc(N), *b = malloc(N), z[N + 1];
  size_t i, ao = vf_range(0, N), an = vf_range(0, N), bo = vf_range(0, N), bn = vf_range(0, N), k = vf_range(0, N);
  data d, e, f;
  int same = 1;

  VF_ASSUME(ao + an <= N && bo + bn <= N);
  for (i = 0; i < N; i++)
  {
    a[i] = vf_u8();
    b[i] = vf_u8();
    z[i] = vf_u8();
  }
  z[N] = 0;
  d = data_construct(a + ao, an);
  e = data_construct(b + bo, bn);
  VF_ASSERT(data_base(d) == a + ao && data_size(d) == an, "a slice is its base and size");
  VF_ASSERT(data_empty(d) == (an == 0), "empty means no bytes");
  VF_ASSERT(data_base(data_null()) == NULL && data_size(data_null()) == 0 && data_empty(data_null()), "null is empty");

  for (i = 0; i < N; i++)
    if (i < an && i < bn && a[ao + i] != b[bo + i])
      same = 0;
  VF_ASSERT(!data_equal(d, e) == !(an == bn && same), "equal means the same bytes");
  VF_ASSERT(!data_prefix(d, e) == !(an <= bn && same), "prefix means the leading bytes");

  VF_ASSUME(k <= an);
  f = data_consume(d, k);
  VF_ASSERT(data_size(f) == an - k && data_base(f) == a + ao + k, "consume drops leading bytes");
  VF_ASSERT(data_offset(d, f) == k, "offset is the distance between slices");
  i = vf_range(0, N);
  VF_ASSUME(k + i <= an);
  f = data_select(d, k, i);
  VF_ASSERT(data_size(f) == i && data_base(f) == a + ao + k, "select is a sub-slice");
  VF_ASSERT(data_offset(d, f) == k, "offset locates a sub-slice");

  f = data_string(z);
  VF_ASSERT(data_base(f) == z && data_size(f) <= N && z[data_size(f)] == 0, "a C string ends at a NUL");
  for (i = 0; i < N; i++)
    VF_ASSERT(i >= data_size(f) || z[i] != 0, "a C string has no NUL inside");

  VF_COVER(an == 3 && bn == 3 && data_equal(d, e), "equal slices");
  VF_COVER(an == 2 && bn == 4 && data_prefix(d, e), "proper prefix");
  VF_COVER(an == 0 && bn == 0, "empty slices");
  VF_COVER(an == 3 && bn == 2 && same, "longer than the other");

  f = data_alloc(N);
  VF_ASSERT(data_size(f) == N, "allocated slices have the size asked for");
  for (i = 0; i < N; i++)
    VF_ASSERT(((char *) data_base(f))[i] == 0, "allocated slices are zeroed");
  data_free(f);
  free(a);
  free(b);
}
