/* the event loop.  OP 0: one batch, callbacks remove and release sources, their own or others',
 * and add them again.  OP 1: whole loop with interrupted waits, signals, aborts.  OP 2: the clock within and across
 * iterations.  OP 3: one reading. */
#define VF_FDS (NH + 1)
#include "kernel.h"
#include "reactor.h"

#ifndef NH
#define NH 3
#endif
#ifndef WAITS
#define WAITS 1
#endif

static reactor_handler *h[NH];
static int calls[NH], live[NH], aborted, waits, position, expect[NH], nexpect, gone[NH], pending[NH], in_batch, spare_used;
static uint32_t mask[NH];
static int acts;

static void callback(reactor_event *);
static reactor_handler spare;

static void add(int i)
{
  h[i] = malloc(sizeof *h[i]);
  reactor_handler_construct(h[i], callback, (void *) (uintptr_t) (i + 1));
  live[i] = 1;
  reactor_add(h[i], FD0 + i, EPOLLIN);
}

static void del(int i)
{
  reactor_delete(h[i], FD0 + i);
  live[i] = 0;
  reactor_handler_destruct(h[i]);
  free(h[i]);
  h[i] = NULL;
}

static struct timespec ts;
static int fresh, reads;
int VF_STUB(clock_gettime)(clockid_t id, struct timespec *t)
{
  VF_ASSERT(id == CLOCK_REALTIME, "the system clock is read");
#if OP == 3
  ts.tv_sec = vf_u32();
#else
  static const time_t secs[] = {0, 1, 1700000000, 0x80000000};
  ts.tv_sec = secs[vf_u8() & 3];
#endif
  ts.tv_nsec = vf_range(0, 999999999);
  VF_ASSUME(ts.tv_sec || ts.tv_nsec);
  *t = ts;
  reads++;
  fresh = 1;
  return 0;
}
#if OP >= 2
static void clock_check(void)
{
  uint64_t a = reactor_now();
  VF_ASSERT(fresh, "an iteration has a fresh reading");
  VF_ASSERT(a == (uint64_t) ts.tv_sec * 1000000000 + (uint64_t) ts.tv_nsec, "the reading is the system clock's");
}
#endif

static void callback(reactor_event *event)
{
  int i = (int) (uintptr_t) event->state - 1, j;
  struct epoll_event *e = (struct epoll_event *) event->data;

  VF_ASSERT(i >= 0 && i < NH, "a callback gets its own state");
  VF_ASSERT(event->type == REACTOR_EPOLL_EVENT, "the event type is given");
  VF_ASSERT(live[i] && pending[i], "no event reaches a removed source");
  VF_ASSERT(e->events == mask[i], "the event is the one the kernel reported");
  calls[i]++;
  pending[i] = 0;
  for (j = 0; j < NH; j++)
    VF_ASSERT(!pending[j] || expect[j] > expect[i], "events are delivered in the order reported");
#if OP == 2
  clock_check();
  if (vf_bool())
    clock_check();
  VF_ASSERT(reads <= waits + 1, "one reading per iteration");
#else
  if (vf_bool())
  {
    j = vf_range(0, NH - 1);
    if (live[j])
    {
      del(j);
      if (pending[j])
        gone[j] = 1;
      pending[j] = 0;
      acts |= j == i ? 1 : gone[j] ? 2 : 4;
      if (vf_bool())
        add(j);
    }
    else if (!live[j])
      add(j);
  }
#if OP == 1
  if (vf_bool())
  {
    reactor_abort();
    aborted = 1;
  }
#endif
#endif
}

static void batch_done(void)
{
  int i;

  for (i = 0; i < NH; i++)
    VF_ASSERT(!pending[i], "every event of a batch is delivered");
}

static int vf_wait(struct epoll_event *e, int max)
{
  int i, n = 0, k;

  batch_done();
  waits++;
#if OP == 1
  VF_ASSERT(!aborted && k_registered(), "the loop runs only while sources are registered and it is not stopped");
  if (waits > WAITS)
  {
    VF_COVER(1, "still running");
    VF_ASSUME(0);
  }
  k = vf_range(0, 3);
  if (k == 1)
  {
    errno = EINTR;
    return -1;
  }
  if (k == 2)
  {
    aborted = 1;
    (vf_bool() ? k_term : k_int)(SIGTERM);
    errno = EINTR;
    return -1;
  }
#endif
#if OP == 2
  fresh = 0;
#endif
  /* the ready sources in an arbitrary order, each once */
  k = vf_range(1, NH);
  VF_ASSUME(k <= max);
  for (i = 0; i < NH; i++)
    calls[i] = 0;
  for (i = 0; i < NH; i++)
    if (i < k)
    {
      int f = vf_range(0, NH - 1);
      VF_ASSUME(K[f].reg && !pending[f]);
      e[i].events = mask[f] = vf_u32();
      e[i].data.ptr = K[f].ptr;
      pending[f] = 1;
      expect[f] = i;
    }
  VF_COVER(k == NH, "all#0");
  return k;
}

#if OP == 3
void vf_main(void)
{
  clock_check();
  VF_COVER(1, "read");
}
#else
void vf_main(void)
{
  int i, n;

  reactor_construct();
  VF_ASSERT(k_pipe == SIG_IGN, "a broken pipe is not fatal");
  for (i = 0; i < NH; i++)
    K[i].open = 1;
#if OP == 2
  if (vf_bool())
  {
    clock_check();
    clock_check();
  }
#endif
  n = OP == 1 ? vf_range(0, NH) : NH;
  for (i = 0; i < NH; i++)
    if (i < n)
      add(i);
#if OP == 1
  reactor_loop();
  VF_ASSERT(aborted || k_registered() == 0, "the loop ends only when stopped or without sources");
  batch_done();
  VF_COVER(aborted && k_registered(), "stopped#1");
  VF_COVER(!aborted && waits == WAITS, "drained#1");
#else
  for (i = 0; i < WAITS; i++)
    if (k_registered())
      reactor_loop_once();
  batch_done();
  VF_COVER(acts & 1, "removes itself#0");
  VF_COVER(acts & 2, "removes a ready one#0");
  VF_COVER(acts & 4, "removes one already served#0");
#endif
#if OP == 2
  VF_COVER(waits == WAITS, "ran#2");
#endif
  for (i = 0; i < NH; i++)
    if (live[i])
      del(i);
  reactor_destruct();
  VF_ASSERT(ep_closed == ep_open, "the reactor closes what it opened");
}
#endif
