/* one operation on an arbitrary string, against a byte-sequence model */
#ifndef VF_MEM_CAP
#define VF_MEM_CAP 48
#endif
#define VF_MEM_BLOCKS 2
#define VF_MEM_CALLOC
#define VF_MEM_MEMMEM
#ifndef VF_MEM_MAX
#define VF_MEM_MAX 12
#endif
#include "mem.h"
#include "reactor.h"

#ifndef S
#define S 4   /* bytes held before the operation */
#endif
#define C 6   /* capacity before the operation */
#define D 3   /* bytes inserted */
#define M 20

static unsigned char model[M];
static size_t msize;

static void minsert(size_t pos, const unsigned char *d, size_t n)
{
  unsigned char t[M];
  size_t i;

  for (i = 0; i < M; i++)
    t[i] = i < pos ? model[i] : i < pos + n ? d[i - pos] : i < msize + n ? model[i - n] : 0;
  msize += n;
  for (i = 0; i < M; i++)
    model[i] = t[i];
}

static void merase(size_t pos, size_t n)
{
  size_t i;

  for (i = 0; i < M; i++)
    if (i >= pos && i + n < M)
      model[i] = model[i + n];
  msize -= n;
}

static size_t mfind(size_t from, const unsigned char *d, size_t n)
{
  size_t i, j;

  for (i = 0; i < 12; i++)
    if (i >= from && n && i + n <= msize)
    {
      for (j = 0; j < D; j++)
        if (j >= n || model[i + j] != d[j])
          break;
      if (j >= n)
        return i;
    }
  return (size_t) -1;
}

#if VF_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "conversion"
#endif
static void check(string s)
{
  size_t i;

#if VF_CBMC
  VF_ASSERT(__CPROVER_r_ok(s, msize + 1), "the string's bytes are readable");
#endif

  VF_ASSERT(string_size(s) == msize, "size equals the model's");
  VF_ASSERT(string_empty(s) == (msize == 0), "empty means no bytes");
  VF_ASSERT(string_capacity(s) >= msize, "capacity covers the size");
  for (i = 0; i < 12; i++)
    if (i < msize)
      VF_ASSERT((unsigned char) s[i] == model[i], "contents equal the model's");
  VF_ASSERT(s[string_size(s)] == 0, "the string is terminated");
  VF_ASSERT(string_size(string_null()) == 0 && string_capacity(string_null()) == 0 && string_null()[0] == 0, "the shared empty string is never altered");
  VF_ASSERT(vf_mem_intact(), "nothing outside the blocks is touched");
}

/* sizes are constants of each case, so that the solver sees constant offsets into the blocks */
static void one(size_t size, size_t cap, size_t n, size_t m, size_t pos)
{
  string s, t;
  unsigned char d[D], e[D];
  size_t i, at;
  data r;

#if VF_CBMC
  for (i = 0; i < VF_MEM_BLOCKS; i++)
    vf_blk[i].p = NULL;
#endif

  msize = size;
  s = string_resize(string_allocate(string_null(), cap), msize);
  VF_ASSERT(string_capacity(s) >= cap, "the requested capacity is there");
  for (i = 0; i < S; i++)
  {
    unsigned char v = vf_u8();
    if (i < msize)
      s[i] = model[i] = v;
  }
  for (i = 0; i < D; i++)
  {
    d[i] = vf_u8();
    e[i] = vf_u8();
  }
  check(s);

  switch (OP)
  {
  case 0:
    i = pos == 0 && m == 1 ? 1 : pos == msize && m == 1 ? 2 : 0;
    if (i == 0)
      s = string_insert_data(s, pos, data_construct((char *) d, n));
    else if (i == 1)
      s = string_prepend_data(s, data_construct((char *) d, n));
    else
      s = string_append_data(s, data_construct((char *) d, n));
    minsert(pos, d, n);
    VF_COVER(i == 0 && pos == 1 && msize == n + 3 && n == 3, "0s3#insert in the middle");
    VF_COVER(msize == 0 && cap == 0, "0s0#insert nothing into nothing");
    break;
  case 1:
    if (pos + n > msize)
      n = msize - pos;
    s = string_erase_data(s, data_construct(s + pos, n));
    merase(pos, n);
    VF_COVER(n == 2 && pos == 1 && msize == 2, "1s4#erase in the middle");
    VF_COVER(n && msize == 0, "1s3#erase everything");
    break;
  case 2:
    r = string_find_at_data(s, pos, data_construct((char *) d, m));
    at = mfind(pos, d, m);
    VF_ASSERT(data_empty(r) == (at == (size_t) -1), "found exactly when it occurs at or after the position");
    if (!data_empty(r))
      VF_ASSERT(data_base(r) == s + at && data_size(r) == m, "the first occurrence is returned");
    r = string_find_data(s, data_construct((char *) d, m));
    at = mfind(0, d, m);
    VF_ASSERT(data_empty(r) == (at == (size_t) -1), "found exactly when it occurs");
    if (!data_empty(r))
      VF_ASSERT(data_base(r) == s + at && data_size(r) == m, "the first occurrence is returned");
    VF_COVER(at == 2 && m == 2, "2#found at the end");
    VF_COVER(at == (size_t) -1 && m == 2 && msize == S, "2#absent");
    break;
  case 3:
    s = string_replace_data(s, data_construct((char *) d, m), data_construct((char *) e, n));
    at = mfind(0, d, m);
    if (at != (size_t) -1)
    {
      merase(at, m);
      minsert(at, e, n);
    }
    VF_COVER(at == 1 && m == 1 && n == 2, "3s321#replaced by more");
    VF_COVER(at == 0 && m == 2 && n == 0, "3s302#replaced by nothing");
    break;
  case 4:
  {
    int times = 0;

    s = string_replace_all_data(s, data_construct((char *) d, m), data_construct((char *) e, n));
    /* reference: one scan of the original text */
    {
      unsigned char out[12] = {0};
      size_t o = 0, skip = 0, j;

      for (i = 0; i < size; i++)
      {
        if (skip)
        {
          skip--;
          continue;
        }
        for (j = 0; j < m; j++)
          if (i + j >= size || model[i + j] != d[j])
            break;
        if (m && j == m)
        {
          for (j = 0; j < n; j++)
            out[o++] = e[j];
          skip = m - 1;
          times++;
        }
        else
          out[o++] = model[i];
      }
      msize = o;
      for (i = 0; i < 12; i++)
        model[i] = out[i];
    }
    VF_COVER(times == 2 && m == 1 && n == 2 && e[0] == d[0], "4s321#replacement contains the match");
    VF_COVER(times == 2 && m == 2 && n == 1, "4s412#two replaced");
    break;
  }
  case 5:
    cap = n * 3 + m;
    if (ALC)
      s = string_allocate(s, cap);
    else
    {
      if (cap < msize)
        msize = cap;
      s = string_resize(s, cap);
      for (i = 0; i < 12; i++)
        if (i >= msize && i < cap)
          s[i] = model[i] = 'x';
      msize = cap;
    }
    VF_ASSERT(string_capacity(s) >= cap, "the requested capacity is there");
    VF_COVER(msize == (ALC ? 2 : 9) && cap == 9, "5#grown");
    VF_COVER(msize == 1 && cap == 1, "5#shrunk");
    break;
  case 6:
    t = string_copy(s);
    check(t);
    VF_ASSERT(string_equal(s, t) && string_equal(t, s), "a copy is equal");
    if (msize && pos < msize)
    {
      t[pos] ^= 1;
      check(s);
      VF_ASSERT(!string_equal(s, t), "one byte makes the difference");
      t[pos] ^= 1;
    }
    t = string_append_data(t, data_construct((char *) d, m));
    check(s);
    VF_ASSERT(string_equal(s, t) == (m == 0) && string_equal(t, s) == (m == 0), "a prefix is not equal");
    VF_ASSERT(data_base(string_data(s)) == s && data_size(string_data(s)) == msize, "the data of a string are its bytes");
    VF_COVER(msize == 3 && cap > 3 && m == 2, "6#copied");
    VF_COVER(msize == 0 && cap == 2 && m == 2, "6#copy of an emptied string");
    string_free(t);
    break;
  }
#if OP != 6
  check(s);
#endif
  VF_COVER(1, "done");
  string_free(s);
}

void vf_main(void)
{
  size_t size, extra, n, m, pos;

#ifndef ELO
#define ELO 0
#endif
  for (size = SLO; size <= SHI; size++)
    for (extra = ELO; extra <= 2; extra += 2)
      for (n = NLO; n <= NHI; n++)
        for (m = MLO; m <= MHI; m++)
          for (pos = PLO; pos <= PHI; pos++)
            one(size, size + extra, n, m, pos < size ? pos : size);
}
