/* integer (KIND 1) and string (KIND 2) maps: two insertions of arbitrary keys, then one operation,
 * against an association model; the hash function is an arbitrary function of the key */
#define VF_MEM2_MAX 64
#include "mem2.h"
#include <string.h>
#include "reactor.h"

#define KEYS 3

static size_t H[KEYS], HX;
#if KIND == 1
typedef uintptr_t kt;
typedef mapi tmap;
typedef mapi_entry tentry;
#define F(f) mapi_##f
static kt keys[KEYS];
static int same(kt a, kt b) { return a == b; }
#else
typedef char *kt;
typedef maps tmap;
typedef maps_entry tentry;
#define F(f) maps_##f
#define LEN 2
static char text[KEYS][LEN + 1];
static kt keys[KEYS];
static int same(kt a, kt b)
{
  int i;

  for (i = 0; i <= LEN; i++)
  {
    if (a[i] != b[i])
      return 0;
    if (!a[i])
      break;
  }
  return 1;
}
#endif

static uint64_t hash_of(kt k)
{
  int i;

  for (i = 0; i < KEYS; i++)
    if (same(keys[i], k))
      return H[i];
  return HX;
}
uint64_t hash_uint64(uint64_t v) { return KIND == 1 ? hash_of((kt) v) : HX; }
uint64_t hash_string(char *s) { return KIND == 2 ? hash_of((kt) s) : HX; }
uint64_t hash_data(void *p, size_t n) { (void) p; (void) n; return HX; }

static kt mk[4];
static uintptr_t mval[4];
static size_t mn;

static uintptr_t lookup(kt k)
{
  size_t i;

  for (i = 0; i < 4; i++)
    if (i < mn && same(mk[i], k))
      return mval[i];
  return 0;
}
static int has(kt k)
{
  size_t i;

  for (i = 0; i < 4; i++)
    if (i < mn && same(mk[i], k))
      return 1;
  return 0;
}

static size_t releases;
static kt rkey;
static uintptr_t rvalue;
static void release(tentry *e)
{
  VF_ASSERT(e->key, "only entries are released");
  releases++;
  rkey = e->key;
  rvalue = e->value;
}

static void insert(tmap *m, kt k, uintptr_t v)
{
  int dup = has(k);

  releases = 0;
  F(insert)(m, k, v, release);
  VF_ASSERT(releases == (size_t) dup, "only a rejected duplicate is released");
  VF_ASSERT(!dup || (rkey == k && rvalue == v), "the rejected entry is the one offered");
  if (!dup)
  {
    mk[mn] = k;
    mval[mn++] = v;
  }
  VF_ASSERT(F(size)(m) == mn, "size counts the entries");
}

static void check(tmap *m)
{
  size_t i, seen = 0;
  tentry *e;

  VF_ASSERT(F(size)(m) == mn, "size counts the entries");
  for (i = 0; i < KEYS; i++)
    VF_ASSERT(F(at)(m, keys[i]) == lookup(keys[i]), "lookup gives the value inserted, 0 if absent");
  for (i = 0; i < m->map.elements_capacity && i < 8; i++)
  {
    e = (tentry *) m->map.elements + i;
    if (e->key)
    {
      VF_ASSERT(has(e->key) && lookup(e->key) == e->value, "iteration visits the entries");
      seen++;
    }
  }
  VF_ASSERT(m->map.elements_capacity <= 8 && seen == mn, "iteration visits every entry once");
}

void vf_main(void)
{
  tmap m;
  uintptr_t v;
  size_t i, j;
  int k, dup;

  HX = vf_u64();
  for (i = 0; i < KEYS; i++)
  {
    H[i] = vf_u64();
#if KIND == 1
    keys[i] = vf_u64();
    VF_ASSUME(keys[i] != 0);
#else
    for (j = 0; j < LEN; j++)
      text[i][j] = vf_u8();
    keys[i] = text[i];
#endif
  }
  for (i = 0; i < KEYS; i++)
    for (j = 0; j < i; j++)
      VF_ASSUME(!same(keys[i], keys[j]) || H[i] == H[j]);

  F(construct)(&m);
  check(&m);
  insert(&m, keys[0], vf_u64());
  m.map.elements_count = mn;
  k = vf_range(0, 1);
  VF_ASSUME(k == (OP == 3 ? 1 : k));
  insert(&m, keys[1], vf_u64());
  VF_ASSUME(mn == 2 || OP == 0);
  m.map.elements_count = OP == 0 ? mn : 2;
  releases = 0;

  switch (OP)
  {
  case 0:
    check(&m);
    VF_COVER(mn == 2, "0#two keys");
    VF_COVER(mn == 1, "0#a duplicate key");
    break;
  case 1:
    i = vf_range(0, 2);
    v = lookup(keys[i]);
    dup = has(keys[i]);
    F(erase)(&m, keys[i], release);
    VF_ASSERT(releases == (size_t) dup && (!dup || (same(rkey, keys[i]) && rvalue == v)), "exactly the erased entry is released");
    for (j = 0; j < 2; j++)
      if (same(mk[j], keys[i]))
      {
        mk[j] = mk[1];
        mval[j] = mval[1];
        mn--;
        break;
      }
    check(&m);
    VF_COVER(i == 0, "1#erase the first");
    VF_COVER(i == 2 && mn == 2, "1#erase an absent key");
    break;
  case 2:
    F(clear)(&m, release);
    VF_ASSERT(releases == 2, "clear releases every entry");
    mn = 0;
    check(&m);
    VF_COVER(1, "2#clear");
    break;
  case 3:
    F(reserve)(&m, 2);
    check(&m);
    VF_COVER(1, "3#reserve");
    break;
  }
  releases = 0;
  F(destruct)(&m, release);
  VF_ASSERT(releases == mn, "destruct releases every entry");
}
