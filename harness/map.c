/* N distinct keys with arbitrary hashes are inserted, then one operation on an arbitrary key:
 * lookups, iteration, size and release calls equal those of an association model */
#define VF_MEM2_MAX 32
#include "mem2.h"
#include "reactor.h"

#ifndef NUM
#define NUM 3
#endif
#define N NUM
#ifndef CAP
#define CAP 8
#endif
#define K (N + 1) /* keys 1..N are present, N + 1 is not */

typedef struct { uint8_t key, value; } element;

static size_t H[K + 2];
static uint8_t model[K + 2]; /* value + presence */
static uint8_t present[K + 2];
static size_t count;
static uint8_t released[K + 2], released_value[K + 2];

static size_t hash(void *p)
{
  return H[((element *) p)->key];
}
static void set(void *a, void *b)
{
  *(element *) a = b ? *(element *) b : (element) {0};
}
static int equal(void *a, void *b)
{
  return b ? ((element *) a)->key == ((element *) b)->key : ((element *) a)->key == 0;
}
static void release(void *p)
{
  element *e = p;

  VF_ASSERT(e->key >= 1 && e->key <= K, "only elements are released");
  VF_ASSERT(!released[e->key], "no element is released twice");
  released[e->key] = 1;
  released_value[e->key] = e->value;
}

static void check(map *m)
{
  size_t i, seen = 0, cap = m->elements_capacity;
  uint8_t k, visits[K + 2] = {0};
  element *e;

  VF_ASSERT(map_size(m) == count, "size counts the elements");
  VF_ASSERT(cap > count && (cap & (cap - 1)) == 0, "there is always an empty slot");
  for (k = 1; k <= K; k++)
  {
    e = map_at(m, &(element) {.key = k}, hash, equal);
    VF_ASSERT(e != NULL, "lookup always answers");
    VF_ASSERT(e->key == (present[k] ? k : 0), "a key is found exactly when it is present");
    VF_ASSERT(!present[k] || e->value == model[k], "the value is the one inserted");
  }
  for (i = 0; i < 32; i++)
    if (i < cap)
    {
      e = (element *) m->elements + i;
      if (e->key)
      {
        VF_ASSERT(e->key <= K && present[e->key] && !visits[e->key], "iteration visits each element once");
        visits[e->key] = 1;
        seen++;
      }
    }
  VF_ASSERT(seen == count, "iteration visits every element");
}

void vf_main(void)
{
  map m;
  element *table;
  uint8_t k, v;
  size_t i;
  int rel = vf_bool();

  for (i = 1; i <= K; i++)
    H[i] = vf_u64();
  map_construct(&m, sizeof(element), set);
  VF_ASSERT(map_size(&m) == 0 && m.elements_capacity >= 2, "a new map is empty");
  /* an arbitrary table of CAP slots in which N distinct keys are found */
  map_destruct(&m, equal, NULL);
  table = malloc(CAP * sizeof *table);
  for (i = 0; i < CAP; i++)
  {
    table[i].key = vf_range(0, N);
    table[i].value = table[i].key ? vf_u8() : 0;
    if (table[i].key)
    {
      VF_ASSUME(!present[table[i].key]);
      present[table[i].key] = 1;
      model[table[i].key] = table[i].value;
    }
  }
  m = (map) {.elements = table, .elements_count = N, .elements_capacity = CAP, .element_size = sizeof(element)};
  for (k = 1; k <= N; k++)
  {
    VF_ASSUME(present[k]);
    VF_ASSUME(((element *) map_at(&m, &(element) {.key = k}, hash, equal))->key == k);
  }
  count = N;
  k = vf_range(1, K);
  v = vf_u8();

  switch (OP)
  {
  case 0:
    check(&m);
    VF_COVER(table[0].key == 2 && table[CAP - 1].key == 1 && (H[1] & (CAP - 1)) == (H[2] & (CAP - 1)), "0#keys wrap around");
    break;
  case 1:
    map_erase(&m, &(element) {.key = k}, hash, set, equal, rel ? release : NULL);
    for (i = 1; i <= K; i++)
      VF_ASSERT(released[i] == (rel && i == k && present[k]), "exactly the erased element is released");
    VF_ASSERT(!released[k] || released_value[k] == model[k], "it is released with its value");
    count -= present[k];
    present[k] = 0;
    check(&m);
    VF_COVER(k == 1 && (H[1] & (CAP - 1)) == CAP - 1 && (H[2] & (CAP - 1)) == CAP - 1, "1#erase within a wrapped run");
    VF_COVER(k == K, "1#erase an absent key");
    break;
  case 2:
    map_insert(&m, &(element) {k, v}, hash, set, equal, rel ? release : NULL);
    for (i = 1; i <= K; i++)
      VF_ASSERT(released[i] == (rel && i == k && present[k]), "a duplicate is released, nothing else");
    VF_ASSERT(!released[k] || released_value[k] == v, "the rejected element is the one released");
    if (!present[k])
    {
      model[k] = v;
      present[k] = 1;
      count++;
    }
    check(&m);
    VF_COVER(k == 1, "2#insert a duplicate");
    VF_COVER(k == K, "2#insert a new key");
    break;
  case 3:
    map_clear(&m, set, equal, rel ? release : NULL);
    for (i = 1; i <= K; i++)
      VF_ASSERT(released[i] == (rel && present[i]), "clear releases every element");
    for (i = 1; i <= K; i++)
      present[i] = 0;
    count = 0;
    check(&m);
    VF_COVER(rel, "3#clear");
    break;
  case 4:
    map_reserve(&m, RES, hash, set, equal);
    VF_ASSERT(m.elements_capacity >= RES, "reserve provides the capacity");
    check(&m);
    VF_COVER((H[1] & 15) == (H[2] & 15), "4#reserve");
    break;
  case 5:
    /* the first elements of a new map */
    map_destruct(&m, equal, NULL);
    for (i = 1; i <= N; i++)
      present[i] = 0;
    count = 0;
    map_construct(&m, sizeof(element), set);
    check(&m);
    map_insert(&m, &(element) {.key = k, .value = v}, hash, set, equal, NULL);
    present[k] = 1;
    model[k] = v;
    count = 1;
    check(&m);
    VF_COVER(k == 2, "5#first insert");
    break;
  }
  for (i = 1; i <= K; i++)
    released[i] = 0;
  map_destruct(&m, equal, release);
  for (i = 1; i <= K; i++)
    VF_ASSERT(released[i] == present[i], "destruct releases every element once");
}
