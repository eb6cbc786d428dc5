/* header lookup: the first field whose name equals the given one, ASCII case ignored */
#include <string.h>
#include "vf.h"
#include "reactor.h"

static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

#if VF_CBMC
int strncasecmp(const char *a, const char *b, size_t n)
{
  size_t i;
  int x, y;

  __CPROVER_assert(n <= NL + 1, "MODEL: strncasecmp within the modelled size");
  for (i = 0; i < NL + 1; i++)
  {
    if (i >= n)
      break;
    x = lower((unsigned char) a[i]);
    y = lower((unsigned char) b[i]);
    if (x != y)
      return x - y;
    if (x == 0)
      break;
  }
  return 0;
}
int strcasecmp(const char *a, const char *b)
{
  size_t i;
  int x, y;

  for (i = 0; i < NL + 2; i++)
  {
    x = lower((unsigned char) a[i]);
    y = lower((unsigned char) b[i]);
    if (x != y)
      return x - y;
    if (x == 0)
      return 0;
  }
  return 0;
}
#endif

/* the slice ends where its block ends */
static data slice(unsigned char *model, size_t *n)
{
  unsigned char *p = malloc(NL);
  size_t i;

  *n = vf_range(1, NL);
  for (i = 0; i < NL; i++)
  {
    model[i] = p[i] = vf_u8();
    VF_ASSUME(p[i] != 0);
  }
  return data_construct((char *) p + (NL - *n), *n);
}

void vf_main(void)
{
  http_field f[NF];
  unsigned char m[NF + 1][NL], value[NF];
  size_t n[NF + 1], i, j, count;
  data name, r;
  int hit = -1, eq;

  count = vf_range(0, NF);
  for (i = 0; i < NF; i++)
    f[i] = http_field_construct(slice(m[i], &n[i]), data_construct((char *) value + i, 1));
  name = slice(m[NF], &n[NF]);
  for (i = 0; i < NF; i++)
  {
    eq = i < count && n[i] == n[NF];
    for (j = 0; j < NL; j++)
      if (j >= NL - n[i] && eq && lower(m[i][j]) != lower(m[NF][j]))
        eq = 0;
    if (eq && hit == -1)
      hit = i;
  }
  r = http_field_lookup(f, count, name);
  if (hit == -1)
    VF_ASSERT(data_empty(r) && data_base(r) == NULL, "nothing is found when no name matches");
  else
    VF_ASSERT(data_base(r) == (char *) value + hit && data_size(r) == 1, "the value of the first matching field is found");
  for (i = 0; i < NF; i++)
    VF_ASSERT(data_base(f[i].name) != NULL && data_size(f[i].name) == n[i], "the list is left alone");
  VF_COVER(hit == 0, "first");
  VF_COVER(hit == NF - 1, "last");
  VF_COVER(hit == -1 && count == NF, "none");
  for (i = 0; i < NF; i++)
    free((char *) data_base(f[i].name) + n[i] - NL);
  free((char *) data_base(name) + n[NF] - NL);
}
