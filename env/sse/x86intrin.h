/* symbolic meaning of the SSE4.2 intrinsics the parser uses (Intel SDM: PCMPESTRI); the replay uses the real ones */
#ifndef VF_X86INTRIN_H
#define VF_X86INTRIN_H
#include <stddef.h>
typedef struct { unsigned char b[16]; } __m128i;
#define _SIDD_UBYTE_OPS 0x00
#define _SIDD_CMP_EQUAL_ANY 0x00
#define _SIDD_CMP_RANGES 0x04
#define _SIDD_POSITIVE_POLARITY 0x00
#define _SIDD_NEGATIVE_POLARITY 0x10
#define _SIDD_LEAST_SIGNIFICANT 0x00
static inline __m128i _mm_loadu_si128(const __m128i *p)
{
  __m128i r;
  int i;

  __CPROVER_assert(__CPROVER_r_ok(p, 16), "VF: the 16 bytes loaded are readable");
  for (i = 0; i < 16; i++)
    r.b[i] = ((const unsigned char *) p)[i];
  return r;
}
static inline int _mm_cmpestri(__m128i a, int la, __m128i b, int lb, int mode)
{
  int i, j, m;

  __CPROVER_assert(mode == _SIDD_CMP_RANGES || mode == _SIDD_CMP_EQUAL_ANY || mode == (_SIDD_CMP_RANGES | _SIDD_NEGATIVE_POLARITY), "MODEL: comparison mode");
  la = la < 0 ? -la : la;
  lb = lb < 0 ? -lb : lb;
  for (i = 0; i < 16; i++)
  {
    m = 0;
    if (i < lb)
    {
      if (mode & _SIDD_CMP_RANGES)
      {
        for (j = 0; j + 1 < 16; j += 2)
          if (j + 1 < la && b.b[i] >= a.b[j] && b.b[i] <= a.b[j + 1])
            m = 1;
      }
      else
        for (j = 0; j < 16; j++)
          if (j < la && b.b[i] == a.b[j])
            m = 1;
    }
    if (mode & _SIDD_NEGATIVE_POLARITY)
      m = !m;
    if (m)
      return i;
  }
  return 16;
}
#endif
