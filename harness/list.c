/* one operation on a list of N objects: links, order, contents and release calls equal those of a
 * sequence model, forwards and backwards */
#include "vf.h"
#include "reactor.h"

#ifndef NUM
#define NUM 3
#endif
#define N NUM
#define MAX (N + 2)

typedef struct { uint32_t v; } object;

static object *m[MAX + 1];
static uint32_t mv[MAX + 1];
static size_t mn;
static object *released[MAX + 1];
static size_t releases;

static void minsert(size_t pos, object *o, uint32_t v)
{
  size_t i;

  for (i = MAX; i > 0; i--)
    if (i > pos)
    {
      m[i] = m[i - 1];
      mv[i] = mv[i - 1];
    }
  m[pos] = o;
  mv[pos] = v;
  mn++;
}

static void merase(size_t pos)
{
  size_t i;

  for (i = 0; i < MAX; i++)
    if (i >= pos)
    {
      m[i] = m[i + 1];
      mv[i] = mv[i + 1];
    }
  mn--;
}

static void release(void *p)
{
  uint32_t v = ((object *) p)->v;

  (void) v;
  VF_ASSERT(releases < MAX, "no object released twice");
  released[releases++] = p;
}

static int compare(void *a, void *b)
{
  return ((object *) a)->v == ((object *) b)->v ? 0 : 1;
}

static void check(list *l)
{
  void *p;
  size_t i;

  VF_ASSERT(list_empty(l) == (mn == 0), "empty means no objects");
  p = list_front(l);
  for (i = 0; i < MAX; i++)
    if (i < mn)
    {
      VF_ASSERT(p == (void *) m[i], "objects follow in order");
      VF_ASSERT(((object *) p)->v == mv[i], "contents are kept");
      p = list_next(p);
    }
  VF_ASSERT(p == list_end(l), "walking forwards ends at the end");
  p = list_end(l);
  for (i = MAX; i > 0; i--)
    if (i <= mn)
    {
      p = list_previous(p);
      VF_ASSERT(p == (void *) m[i - 1], "objects precede in reverse order");
    }
  VF_ASSERT(mn == 0 || p == list_front(l), "walking backwards ends at the front");
  VF_ASSERT(mn == 0 || list_back(l) == (void *) m[mn - 1], "back is the last object");
}

void vf_main(void)
{
  list l;
  size_t i, pos, to;
  object o, *p;
  int rel = vf_bool();

  list_construct(&l);
  check(&l);
  for (i = 0; i < N; i++)
  {
    o.v = vf_u32();
    p = vf_bool() ? list_push_back(&l, &o, sizeof o) : NULL;
    if (p)
      minsert(mn, p, o.v);
    else
    {
      p = list_push_front(&l, &o, sizeof o);
      minsert(0, p, o.v);
    }
  }
  check(&l);
  pos = vf_range(0, N);
  to = vf_range(0, N);
  o.v = vf_u32();

  switch (OP)
  {
  case 0:
    p = list_insert(pos < mn ? (void *) m[pos] : list_end(&l), &o, sizeof o);
    minsert(pos, p, o.v);
    VF_COVER(pos == 1, "0#insert in the middle");
    VF_COVER(pos == N, "0#insert at the end");
    break;
  case 1:
    VF_ASSUME(pos < mn);
    p = m[pos];
    list_erase(p, rel ? release : NULL);
    VF_ASSERT(releases == (size_t) rel && (!rel || released[0] == p), "the erased object is released once");
    merase(pos);
    VF_COVER(pos == 1 && rel, "1#erase in the middle");
    break;
  case 2:
    VF_ASSUME(pos < mn);
    p = m[pos];
    list_splice(to < mn ? (void *) m[to] : list_end(&l), p);
    if (to != pos)
    {
      uint32_t v = mv[pos];
      merase(pos);
      minsert(to > pos ? to - 1 : to, p, v);
    }
    VF_COVER(pos == 0 && to == 2, "2#splice forwards");
    VF_COVER(pos == 2 && to == 0, "2#splice backwards");
    VF_COVER(pos == to, "2#splice onto itself");
    VF_COVER(pos + 1 == to, "2#splice in place");
    break;
  case 3:
    list_clear(&l, rel ? release : NULL);
    VF_ASSERT(releases == (rel ? mn : 0), "clear releases each object once");
    for (i = 0; i < N; i++)
      VF_ASSERT(!rel || released[i] == m[i], "clear releases the objects in order");
    mn = 0;
    VF_COVER(rel, "3#clear");
    break;
  case 4:
    p = list_find(&l, compare, &o);
    for (i = 0; i < N; i++)
      if (mv[i] == o.v)
        break;
    VF_ASSERT(p == (i < N ? m[i] : NULL), "find returns the first matching object");
    VF_COVER(i == 1, "4#found");
    VF_COVER(i == N, "4#not found");
    break;
  case 5:
    p = list_push_back(&l, NULL, sizeof o);
    VF_ASSERT(p->v == 0, "an object pushed without contents is zeroed");
    minsert(mn, p, 0);
    VF_COVER(1, "5#push zeroed");
    break;
  case 6:
    /* two lists: move an object from one to the other */
    {
      list k;
      object *q;
      VF_ASSUME(pos < mn);
      list_construct(&k);
      q = list_push_back(&k, &o, sizeof o);
      list_splice(vf_bool() ? (void *) q : list_end(&k), m[pos]);
      VF_ASSERT(list_next(list_front(&k)) == list_back(&k) && list_next(list_back(&k)) == list_end(&k), "the other list has two objects");
      VF_ASSERT((list_front(&k) == q && list_back(&k) == (void *) m[pos]) || (list_front(&k) == (void *) m[pos] && list_back(&k) == q), "the object is in the other list");
      VF_COVER(list_back(&k) == (void *) m[pos] && pos == 0, "6#splice across");
      merase(pos);
      list_destruct(&k, NULL);
    }
    break;
  }
  check(&l);
  releases = 0;
  list_destruct(&l, release);
  VF_ASSERT(releases == mn, "destruct releases each remaining object once");
  mn = 0;
  check(&l);
}
