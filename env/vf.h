/* Harness interface.  One harness source serves two builds:
 *   - the symbolic encoding (goto-cc/CBMC, VF_SYM defined): every vf_*()
 *     value is an unconstrained symbolic variable;
 *   - the native replay (gcc, sanitizers): the same calls return, in order, the
 *     values the solver assigned, so the real code runs on the counterexample. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>

#ifdef VF_SYM
uint64_t nondet_vf_u64(void);
uint32_t nondet_vf_u32(void);
uint8_t  nondet_vf_u8(void);
_Bool    nondet_vf_bool(void);
static inline uint64_t vf_u64(void) { uint64_t v = nondet_vf_u64(); __CPROVER_input("vf", v); return v; }
static inline uint32_t vf_u32(void) { uint32_t v = nondet_vf_u32(); __CPROVER_input("vf", v); return v; }
static inline uint8_t  vf_u8(void)  { uint8_t  v = nondet_vf_u8();  __CPROVER_input("vf", v); return v; }
static inline int      vf_bool(void){ _Bool    v = nondet_vf_bool(); __CPROVER_input("vf", v); return v; }
#define VF_ASSUME(c)      __CPROVER_assume(c)
#define VF_ASSERT(c, msg) __CPROVER_assert((c), "VF: " msg)
#define VF_COVER(c, name) __CPROVER_assert(!(c), "COVER: " name)
/* a known, recorded finding: reported under its name, never as a plain violation */
#define VF_KNOWN(c, name) __CPROVER_assert((c), "KNOWN: " name)
#define VF_STUB(f) f
#define VF_CBMC 1
#else
uint64_t vf_next(void);
void vf_assume_failed(const char *, int);
void vf_assert_failed(const char *);
void vf_known_failed(const char *);
void vf_cover_hit(const char *);
#define vf_u64()  ((uint64_t) vf_next())
#define vf_u32()  ((uint32_t) vf_next())
#define vf_u8()   ((uint8_t) vf_next())
#define vf_bool() ((int) (vf_next() & 1))
#define VF_ASSUME(c)      do { if (!(c)) vf_assume_failed(__FILE__, __LINE__); } while (0)
#define VF_ASSERT(c, msg) do { if (!(c)) vf_assert_failed(msg); } while (0)
#define VF_COVER(c, name) do { if (c) vf_cover_hit(name); } while (0)
#define VF_KNOWN(c, name) do { if (!(c)) vf_known_failed(name); } while (0)
#define VF_STUB(f) __wrap_##f
#define VF_CBMC 0
#endif

/* a value in [lo, hi] */
static inline uint64_t vf_range(uint64_t lo, uint64_t hi)
{
  uint32_t v = vf_u32();
  VF_ASSUME(v >= lo && v <= hi);
  return v;
}

void vf_main(void);
#endif
