/* malloc for tables: blocks of a power of two bytes, each an object of constant size
 * (a symbolic size would put the block in the solver's array theory) */
#ifndef VF_MEM2_H
#define VF_MEM2_H
#include "vf.h"
#if VF_CBMC
_Bool nondet_vf_leak(void);
extern const void *__CPROVER_memory_leak;
void *malloc(size_t n)
{
  void *p;

  __CPROVER_assert(n <= VF_MEM2_MAX, "MODEL: malloc within the modelled size");
  if (n <= 8)
    p = __CPROVER_allocate(8, 0);
  else if (n <= 16)
    p = __CPROVER_allocate(16, 0);
  else
    p = __CPROVER_allocate(VF_MEM2_MAX, 0);
  VF_ASSERT(n == 8 || n == 16 || n == VF_MEM2_MAX, "table sizes are powers of two");
  if (nondet_vf_leak())
    __CPROVER_memory_leak = p;
  return p;
}
#endif
#endif
