/* one operation on a vector in an arbitrary valid state: elements, order and release calls
 * equal those of a sequence model */
#define VF_MEM_CAP 16
#include "mem.h"
#include "reactor.h"

#ifndef OBJ
#define OBJ 2  /* bytes per element */
#endif
#define N 3    /* elements held before the operation */
#define M 2    /* elements inserted */

typedef struct { unsigned char b[OBJ]; } element;

static element model[16];
static size_t msize;
static element released[8];
static size_t releases;

static int same(const void *p, element e)
{
  const unsigned char *c = p;
  size_t i;

  for (i = 0; i < OBJ; i++)
    if (c[i] != e.b[i])
      return 0;
  return 1;
}

static void release(void *p)
{
  VF_ASSERT(releases < 8, "no element released twice");
  memcpy(&released[releases], p, OBJ);
  releases++;
}

static void minsert(size_t pos, element e)
{
  size_t i;

  for (i = 8; i > 0; i--)
    if (i > pos)
      model[i] = model[i - 1];
  model[pos] = e;
  msize++;
}

static void merase(size_t pos)
{
  size_t i;

  for (i = 0; i < 8; i++)
    if (i >= pos)
      model[i] = model[i + 1];
  msize--;
}

void vf_main(void)
{
  vector v;
  element e[M];
  element gone[8];
  size_t i, j, pos, n, cap, expect = 0, keep = 16;
  int rel = vf_bool();

  vector_construct(&v, OBJ);
  VF_ASSERT(vector_size(&v) == 0 && vector_empty(&v), "a new vector is empty");
  msize = vf_range(0, N);
  cap = vf_range(0, N + 1);
  VF_ASSUME(cap >= msize);
  v.buffer.data = vf_mem_block(cap * OBJ);
  v.buffer.capacity = cap * OBJ;
  v.buffer.size = msize * OBJ;
  for (i = 0; i < N; i++)
    for (j = 0; j < OBJ; j++)
    {
      unsigned char x = vf_u8();
      if (i < msize)
        ((unsigned char *) v.buffer.data)[i * OBJ + j] = model[i].b[j] = x;
    }
  for (i = 0; i < M; i++)
    for (j = 0; j < OBJ; j++)
      e[i].b[j] = vf_u8();
  VF_ASSERT(vector_size(&v) == msize && vector_capacity(&v) == cap, "size and capacity count elements");
  VF_ASSERT(vector_empty(&v) == (msize == 0), "empty means no elements");
  pos = vf_range(0, N);
  n = vf_range(0, M);

  switch (OP)
  {
  case 0:
    VF_ASSUME(pos <= msize);
    vector_insert(&v, pos, &e[0]);
    minsert(pos, e[0]);
    VF_COVER(pos == 1 && msize == N + 1, "0#insert in the middle");
    break;
  case 1:
    VF_ASSUME(pos <= msize);
    vector_insert_range(&v, pos, &e[0], &e[n]);
    for (i = M; i > 0; i--)
      if (i <= n)
        minsert(pos, e[i - 1]);
    VF_COVER(pos == 1 && n == M && msize == N + M, "1#range in the middle");
    VF_COVER(n == 0, "1#empty range");
    break;
  case 2:
    VF_ASSUME(pos <= msize);
    vector_insert_fill(&v, pos, n, &e[0]);
    for (i = 0; i < M; i++)
      if (i < n)
        minsert(pos, e[0]);
    VF_COVER(pos == 1 && n == M && msize == N + M, "2#fill in the middle");
    VF_COVER(n == 0, "2#fill of none");
    break;
  case 3:
    VF_ASSUME(pos < msize);
    vector_erase(&v, pos, rel ? release : NULL);
    gone[expect++] = model[pos];
    merase(pos);
    VF_COVER(pos == 1 && msize == N - 1 && rel, "3#erase in the middle");
    break;
  case 4:
    n = vf_range(0, N);
    VF_ASSUME(pos <= n && n <= msize);
    vector_erase_range(&v, pos, n, rel ? release : NULL);
    for (i = 0; i < N; i++)
      if (i >= pos && i < n)
        gone[expect++] = model[i];
    for (i = 0; i < N; i++)
      if (i >= pos && i < n)
        merase(pos);
    VF_COVER(pos == 1 && n == 3 && rel, "4#erase a tail range");
    VF_COVER(pos == n, "4#erase an empty range");
    break;
  case 5:
    vector_clear(&v, rel ? release : NULL);
    VF_MEM_FREED();
    for (i = 0; i < N; i++)
      if (i < msize)
        gone[expect++] = model[i];
    msize = 0;
    VF_COVER(expect == N && rel, "5#clear");
    break;
  case 6:
    vector_push_back(&v, &e[1]);
    minsert(msize, e[1]);
    VF_COVER(msize == N + 1, "6#push");
    VF_COVER(msize == 1, "6#push first");
    break;
  case 7:
    VF_ASSUME(msize > 0);
    vector_pop_back(&v, rel ? release : NULL);
    gone[expect++] = model[msize - 1];
    msize--;
    VF_COVER(msize == 0 && rel, "7#pop the last");
    break;
  case 8:
    n = vf_range(0, 6);
    vector_reserve(&v, n);
    VF_ASSERT(vector_capacity(&v) >= n && vector_capacity(&v) >= cap, "reserve provides the capacity");
    VF_COVER(n == 6 && msize == N, "8#reserve");
    break;
  case 9:
    vector_shrink_to_fit(&v);
    VF_ASSERT(vector_capacity(&v) == msize, "no spare capacity is left");
    VF_COVER(cap == N + 1 && msize == 1, "9#shrink");
    break;
  }

  VF_ASSERT(vector_size(&v) == msize, "size is that of the model");
  VF_ASSERT(vector_empty(&v) == (msize == 0), "empty means no elements");
  VF_ASSERT(vector_capacity(&v) >= msize, "capacity covers the elements");
  for (i = 0; i < N + M; i++)
    if (i < msize && i < keep)
      VF_ASSERT(same(vector_at(&v, i), model[i]), "elements are those of the model");
  if (msize)
  {
    VF_ASSERT(same(vector_front(&v), model[0]), "front is the first element");
    VF_ASSERT(same(vector_back(&v), model[msize - 1]), "back is the last element");
    VF_ASSERT(vector_data(&v) == vector_at(&v, 0), "elements are contiguous from data");
  }
  VF_ASSERT(releases == (rel ? expect : 0), "each removed element is released exactly once");
  for (i = 0; i < N; i++)
    if (i < releases)
      VF_ASSERT(same(&released[i], gone[i]), "released elements are the removed ones, intact");
  VF_ASSERT(vf_mem_intact(), "nothing written beyond the allocated block");
  vector_destruct(&v, NULL);
}
