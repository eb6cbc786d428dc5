/* decimal rendering of 32-bit numbers: digit count, exact digits, exact footprint */
#include "vf.h"
#include "reactor.h"

/* n ranges over [LO, LO + WIDTH) */

void vf_main(void)
{
  uint32_t n = LO + (uint32_t) vf_range(0, WIDTH - 1);
  unsigned char box[32];
  size_t len, i, ref_len = 1;
  static const uint32_t pow10[] = {10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
  uint64_t value = 0;

  for (i = 0; i < sizeof box; i++)
    box[i] = 0xee;
  for (i = 0; i < 9; i++)
    if (n >= pow10[i])
      ref_len++;
  len = utility_u32_len(n);
  VF_ASSERT(len == ref_len, "digit count is the length of the decimal form");
#ifdef TOA
  utility_u32_toa(n, (char *) box + 8);
  VF_ASSERT(box[8 + ref_len] == 0, "decimal form is NUL terminated");
  VF_ASSERT(box[8 + ref_len + 1] == 0xee, "nothing written after the terminator");
#else
  utility_u32_sprint(n, (char *) box + 8 + len);
  VF_ASSERT(box[8 + ref_len] == 0xee, "nothing written at the end position");
#endif
  VF_ASSERT(box[7] == 0xee, "nothing written before the first digit");
  for (i = 0; i < 10; i++)
    if (i < ref_len)
    {
      VF_ASSERT(box[8 + i] >= '0' && box[8 + i] <= '9', "only decimal digits");
      value = value * 10 + (box[8 + i] - '0');
    }
  VF_ASSERT(value == n, "digits denote the number");
  VF_ASSERT(ref_len == 1 || box[8] != '0', "no leading zero");
  VF_COVER(n == LO, "first of the range");
  VF_COVER(n == LO + (WIDTH - 1), "last of the range");
}
