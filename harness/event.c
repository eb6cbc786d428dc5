/* events over the real descriptor and event loop, against a model of eventfd with signals arriving at
 * any moment: between iterations, after the wait, and in callbacks; closing and reopening in callbacks */
#define VF_FDS 1
#include "kernel.h"
#include <sys/eventfd.h>
#include "reactor.h"

#ifndef WAITS
#define WAITS 3
#endif
#ifndef SIGNALS
#define SIGNALS 3
#endif

static event *ev;
static uint64_t count;
static int semaphore, edge, signals, delivered, waits, opened, close_at, final, in_read;

static void maybe_signal(void)
{
  if (opened && signals < SIGNALS && vf_bool())
  {
    signals++;
    event_signal(ev);
  }
}

int VF_STUB(eventfd)(unsigned int initial, int flags)
{
  VF_ASSERT(flags & EFD_NONBLOCK, "reading never blocks the loop");
  count = initial;
  semaphore = !!(flags & EFD_SEMAPHORE);
  edge = 1;
  return k_open();
}

ssize_t VF_STUB(write)(int f, const void *p, size_t n)
{
  VF_ASSERT(f >= FD0 && f < FD0 + VF_FDS && K[f - FD0].open, "an open event is signalled");
  VF_ASSERT(n == 8, "a whole count is written");
  count += *(uint64_t *) p;
  edge = 1;
  return 8;
}

ssize_t VF_STUB(read)(int f, void *p, size_t n)
{
  VF_ASSERT(f >= FD0 && f < FD0 + VF_FDS && K[f - FD0].open, "an open event is read");
  VF_ASSERT(n == 8, "a whole count is read");
  maybe_signal();
  if (count == 0)
  {
    errno = EAGAIN;
    return -1;
  }
  *(uint64_t *) p = semaphore ? 1 : count;
  count -= semaphore ? 1 : count;
  return 8;
}

static void callback(reactor_event *e)
{
  VF_ASSERT(e->type == EVENT_SIGNAL && e->state == &waits, "the receiver gets its state");
  VF_ASSERT(opened, "nothing is delivered after closing");
  delivered++;
  VF_ASSERT(delivered <= signals, "no delivery without a signal");
  maybe_signal();
  if (CLOSE && delivered == close_at)
  {
    if (CLOSE == 1)
      event_close(ev);
    else
    {
      event_destruct(ev);
      free(ev);
      ev = NULL;
    }
    opened = 0;
    if (CLOSE == 1 && vf_bool())
    {
      event_open(ev);
      opened = 1;
      signals = delivered = 0;
      close_at = -1;
    }
  }
}

static int vf_wait(struct epoll_event *e, int max)
{
  int i, f = -1;

  waits++;
  maybe_signal();
  for (i = 0; i < VF_FDS; i++)
    if (K[i].reg)
      f = i;
  VF_ASSERT(f >= 0 && (K[f].events & EPOLLIN), "an open event is waited for");
  if (count == 0 || ((K[f].events & EPOLLET) && !edge))
  {
    VF_ASSERT(count == 0, "a signal is never left undelivered");
    errno = EINTR;
    return -1;
  }
  edge = 0;
  e[0].events = EPOLLIN;
  e[0].data.ptr = K[f].ptr;
  return 1;
}

void vf_main(void)
{
  int i;

  reactor_construct();
  ev = malloc(sizeof *ev);
  event_construct(ev, callback, &waits);
  VF_ASSERT(!event_is_open(ev), "a new event is not open");
  event_open(ev);
  VF_ASSERT(event_is_open(ev), "it is open");
  opened = 1;
  close_at = vf_range(1, 2);
  for (i = 0; i < WAITS; i++)
  {
    if (!opened)
      break;
    maybe_signal();
    reactor_loop_once();
  }
  if (opened)
    VF_ASSERT(delivered + count == (uint64_t) signals, "every signal is delivered once or still waits");
  VF_COVER(signals == SIGNALS && delivered == SIGNALS && !CLOSE, "all delivered#all");
  VF_COVER(CLOSE && !opened, "closed#close");
  if (ev)
  {
    event_destruct(ev);
    free(ev);
  }
  for (i = 0; i < VF_FDS; i++)
    VF_ASSERT(!K[i].open && !K[i].reg, "nothing stays open or registered");
  reactor_destruct();
}
