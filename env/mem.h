/* Bounded models of the block functions for the symbolic build (the replay uses libc's).
 * VF_MEM_MAX bounds symbolic lengths; a longer call fails an assertion, it is never cut short. */
#ifndef VF_MEM_H
#define VF_MEM_H
#include <string.h>
#include "vf.h"
#ifndef VF_MEM_MAX
#define VF_MEM_MAX 16
#endif
#if VF_CBMC
/* one range obligation per call instead of one per byte */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "conversion"
#define VF_R(p, n) VF_ASSERT((n) == 0 || __CPROVER_r_ok(p, n), "the source region is readable")
#define VF_W(p, n) VF_ASSERT((n) == 0 || __CPROVER_w_ok(p, n), "the destination region is writable")
void *memcpy(void *d, const void *s, size_t n)
{
  size_t i;

  __CPROVER_assert(n <= VF_MEM_MAX, "MODEL: memcpy within the modelled size");
  VF_R(s, n);
  VF_W(d, n);
  if (n)
    VF_ASSERT(!__CPROVER_same_object(d, s) ||
              __CPROVER_POINTER_OFFSET(d) + n <= __CPROVER_POINTER_OFFSET(s) ||
              __CPROVER_POINTER_OFFSET(s) + n <= __CPROVER_POINTER_OFFSET(d), "memcpy regions do not overlap");
  for (i = 0; i < VF_MEM_MAX; i++)
  {
    if (i >= n)
      break;
    ((char *) d)[i] = ((const char *) s)[i];
  }
  return d;
}
void *memmove(void *d, const void *s, size_t n)
{
  char t[VF_MEM_MAX];
  size_t i;

  __CPROVER_assert(n <= VF_MEM_MAX, "MODEL: memmove within the modelled size");
  VF_R(s, n);
  VF_W(d, n);
  for (i = 0; i < VF_MEM_MAX; i++)
  {
    if (i >= n)
      break;
    t[i] = ((const char *) s)[i];
  }
  for (i = 0; i < VF_MEM_MAX; i++)
  {
    if (i >= n)
      break;
    ((char *) d)[i] = t[i];
  }
  return d;
}
void *memset(void *d, int c, size_t n)
{
  size_t i;

  __CPROVER_assert(n <= VF_MEM_MAX, "MODEL: memset within the modelled size");
  VF_W(d, n);
  for (i = 0; i < VF_MEM_MAX; i++)
  {
    if (i >= n)
      break;
    ((char *) d)[i] = (char) c;
  }
  return d;
}
int memcmp(const void *a, const void *b, size_t n)
{
  size_t i;
  int r = 0;

  __CPROVER_assert(n <= VF_MEM_MAX, "MODEL: memcmp within the modelled size");
  VF_R(a, n);
  VF_R(b, n);
  for (i = 0; i < VF_MEM_MAX; i++)
  {
    if (i >= n)
      break;
    if (((const unsigned char *) a)[i] != ((const unsigned char *) b)[i])
      return ((const unsigned char *) a)[i] < ((const unsigned char *) b)[i] ? -1 : 1;
  }
  return r;
}
#ifdef VF_MEM_MEMMEM
void *memmem(const void *h, size_t hn, const void *n, size_t nn)
{
  size_t i, j;

  __CPROVER_assert(hn <= VF_MEM_MAX && nn <= VF_MEM_MAX, "MODEL: memmem within the modelled size");
  VF_R(h, hn);
  VF_R(n, nn);
  if (nn == 0)
    return (void *) h;
  for (i = 0; i < VF_MEM_MAX; i++)
  {
    if (i + nn > hn)
      break;
    for (j = 0; j < VF_MEM_MAX; j++)
      if (j >= nn || ((const char *) h)[i + j] != ((const char *) n)[j])
        break;
    if (j >= nn)
      return (char *) h + i;
  }
  return NULL;
}
#endif

#ifdef VF_MEM_CAP
/* every resizable block lives in an object of VF_MEM_CAP bytes; the bytes beyond the requested
 * size hold arbitrary values that must survive (checked by vf_mem_intact) */
#ifndef VF_MEM_BLOCKS
#define VF_MEM_BLOCKS 1
#endif
static struct { char *p; size_t n; unsigned char beyond[VF_MEM_CAP]; } vf_blk[VF_MEM_BLOCKS];
static int vf_mem_slot(void *p)
{
  int k;

  for (k = 0; k < VF_MEM_BLOCKS; k++)
    if (vf_blk[k].p == p)
      return k;
  return -1;
}
static void vf_mem_track(void *p, size_t n)
{
  size_t i;
  int k = vf_mem_slot(NULL);

  __CPROVER_assert(k >= 0, "MODEL: number of live blocks");
  vf_blk[k].p = p;
  vf_blk[k].n = n;
  for (i = 0; i < VF_MEM_CAP; i++)
    if (i >= n)
      vf_blk[k].beyond[i] = ((unsigned char *) p)[i] = nondet_vf_u8();
}
static int vf_mem_intact(void)
{
  size_t i;
  int k;

  for (k = 0; k < VF_MEM_BLOCKS; k++)
    if (vf_blk[k].p)
      for (i = 0; i < VF_MEM_CAP; i++)
        if (i >= vf_blk[k].n && (unsigned char) vf_blk[k].p[i] != vf_blk[k].beyond[i])
          return 0;
  return 1;
}
void *realloc(void *vp, size_t n)
{
  char *p = vp, *q;
  size_t i;
  int k = -1;

  __CPROVER_assert(n <= VF_MEM_CAP, "MODEL: realloc within the modelled size");
  if (p)
  {
    k = vf_mem_slot(p);
    VF_ASSERT(k >= 0, "realloc of the live block");
  }
  if (n == 0)
  {
    free(p);
    if (p)
      vf_blk[k].p = NULL;
    return NULL;
  }
#ifdef VF_MEM_INPLACE
  /* the block may stay where it is: one of the behaviours realloc may show (others use the moving model) */
  if (p)
  {
    vf_blk[k].n = n;
    for (i = 0; i < VF_MEM_CAP; i++)
      if (i >= n)
        vf_blk[k].beyond[i] = p[i];
    return p;
  }
#endif
  q = malloc(VF_MEM_CAP);
  for (i = 0; i < VF_MEM_CAP; i++)
    if (p && i < vf_blk[k].n && i < n)
      q[i] = ((char *) p)[i];
  free(p);
  if (p)
    vf_blk[k].p = NULL;
  vf_mem_track(q, n);
  return q;
}
#ifdef VF_MEM_CALLOC
void *calloc(size_t m, size_t n)
{
  char *q;
  size_t i;

  n *= m;
  __CPROVER_assert(n <= VF_MEM_CAP, "MODEL: calloc within the modelled size");
  q = malloc(VF_MEM_CAP);
  for (i = 0; i < VF_MEM_CAP; i++)
    q[i] = 0;
  vf_mem_track(q, n);
  return q;
}
#endif
/* a block of n bytes with arbitrary contents */
static void *vf_mem_block(size_t n)
{
  char *q;

  if (n == 0)
    return NULL;
  q = malloc(VF_MEM_CAP);
  vf_mem_track(q, n);
  return q;
}
#define VF_MEM_FREED() (vf_blk[0].p = NULL)
#endif
#pragma CPROVER check pop
#else
#define vf_mem_intact() 1
#define vf_mem_block(n) ((n) ? malloc(n) : NULL)
#define VF_MEM_FREED() ((void) 0)
#endif
#endif
