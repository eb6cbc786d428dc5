/* digit count of every 32-bit number */
#include "vf.h"
#include "reactor.h"

void vf_main(void)
{
  static const uint32_t pow10[] = {10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
  uint32_t n = vf_u32();
  size_t i, ref = 1;

  for (i = 0; i < 9; i++)
    if (n >= pow10[i])
      ref++;
  VF_ASSERT(utility_u32_len(n) == ref, "digit count is the length of the decimal form");
  VF_COVER(n == 0, "zero");
  VF_COVER(n == 4294967295u, "max");
  VF_COVER(ref == 7 && n == 9999999, "seven nines");
}
