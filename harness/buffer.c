/* one operation on a buffer in an arbitrary valid state: contents, size and capacity afterwards
 * equal those of a byte-sequence model; nothing outside the block is touched */
#define VF_MEM_CAP 16
#include "mem.h"
#include "reactor.h"

#define S 5   /* bytes held before the operation */
#define C 8   /* capacity before the operation */
#define D 4   /* bytes inserted */

static unsigned char model[64];
static size_t msize;

static void minsert(size_t pos, const unsigned char *d, size_t n)
{
  unsigned char t[64];
  size_t i;

  for (i = 0; i < 20; i++)
    t[i] = i < pos ? model[i] : i < pos + n ? d[i - pos] : i < msize + n ? model[i - n] : 0;
  msize += n;
  for (i = 0; i < 20; i++)
    model[i] = t[i];
}

static void merase(size_t pos, size_t n)
{
  size_t i;

  for (i = 0; i < 20; i++)
    if (i >= pos && i + n < 20)
      model[i] = model[i + n];
  msize -= n;
}

void vf_main(void)
{
  buffer b;
  unsigned char *d = malloc(D);
  size_t i, pos, n, cap, keep, c0;
  int op = OP;

  buffer_construct(&b);
  VF_ASSERT(buffer_size(&b) == 0 && buffer_capacity(&b) == 0, "a new buffer is empty");
  cap = vf_range(0, C);
  msize = vf_range(0, S);
  VF_ASSUME(msize <= cap);
  b.data = vf_mem_block(cap);
  b.capacity = cap;
  b.size = msize;
  for (i = 0; i < S; i++)
  {
    unsigned char v = vf_u8();
    if (i < msize)
      ((unsigned char *) b.data)[i] = model[i] = v;
  }
  for (i = 0; i < D; i++)
    d[i] = vf_u8();
  c0 = cap;
  keep = 64;

  switch (op)
  {
  case 0:
    n = vf_range(0, D);
    pos = vf_range(0, S);
    VF_ASSUME(pos <= msize);
    buffer_insert(&b, pos, d, n);
    minsert(pos, d, n);
    VF_COVER(n == D && pos == 2 && msize == 2 + D + 2, "0#insert in the middle");
    VF_COVER(n == 0 && cap == 0, "0#insert nothing into nothing");
    VF_COVER(buffer_capacity(&b) > c0, "0#insert grows");
    break;
  case 1:
    n = vf_range(0, 2);
    pos = vf_range(0, S);
    keep = vf_range(0, 3);
    VF_ASSUME(pos <= msize);
    buffer_insert_fill(&b, pos, keep, d, n);
    for (i = 0; i < 3; i++)
      if (i < keep)
        minsert(pos, d, n);
    VF_COVER(n == 2 && keep == 3 && pos == 1 && msize > 7, "1#fill before other bytes");
    keep = 64;
    break;
  case 2:
    pos = vf_range(0, S);
    n = vf_range(0, S);
    VF_ASSUME(pos <= msize && n <= msize - pos);
    buffer_erase(&b, pos, n);
    merase(pos, n);
    VF_ASSERT(buffer_capacity(&b) == c0, "erase does not change the capacity");
    VF_COVER(n == 2 && pos == 1 && msize == 3, "2#erase from the middle");
    VF_COVER(n == 0 && cap == 0, "2#erase nothing from nothing");
    break;
  case 3:
    n = vf_range(0, 12);
    keep = n < msize ? n : msize;
    buffer_resize(&b, n);
    msize = n;
    VF_ASSERT(buffer_capacity(&b) >= n && buffer_capacity(&b) >= c0, "resize provides the capacity");
    VF_COVER(n == 12 && keep == S, "3#resize grows");
    VF_COVER(n == 1 && keep == 1, "3#resize shrinks");
    break;
  case 4:
    n = vf_range(0, 16);
    buffer_reserve(&b, n);
    VF_ASSERT(buffer_capacity(&b) >= n && buffer_capacity(&b) >= c0, "reserve provides the capacity");
    VF_COVER(n == 9 && msize == S, "4#reserve grows");
    break;
  case 5:
    buffer_compact(&b);
    VF_ASSERT(buffer_capacity(&b) == msize, "compact leaves no spare capacity");
    VF_COVER(msize == S && c0 == C, "5#compact shrinks");
    VF_COVER(msize == 0 && c0 == C, "5#compact of an empty buffer");
    break;
  case 6:
    buffer_clear(&b);
    VF_MEM_FREED();
    msize = 0;
    VF_ASSERT(buffer_size(&b) == 0 && buffer_capacity(&b) == 0 && buffer_data(&b) == NULL, "clear empties the buffer");
    VF_COVER(c0 == C, "6#clear");
    break;
  }

  VF_ASSERT(buffer_size(&b) == msize, "size is that of the model");
  VF_ASSERT(buffer_capacity(&b) >= buffer_size(&b), "capacity covers the contents");
  for (i = 0; i < 16; i++)
    if (i < msize && i < keep)
      VF_ASSERT(((unsigned char *) buffer_data(&b))[i] == model[i], "contents are those of the model");
  VF_ASSERT(vf_mem_intact(), "nothing written beyond the allocated block");
  /* the stated capacity is really there */
  if (buffer_capacity(&b))
    ((unsigned char *) buffer_data(&b))[buffer_capacity(&b) - 1] = 1;
  VF_ASSERT(vf_mem_intact(), "stated capacity lies within the allocated block");
  buffer_destruct(&b);
  VF_ASSERT(buffer_size(&b) == 0, "destructed buffer is empty");
  free(d);
}
