/* descriptors over the real event loop.
 * OP 0: interest and lifecycle under arbitrary operations.  OP 1: delivery, callbacks that close,
 * free, reopen or change the interest of their own or the other descriptor (ACT, OTHER). */
#define VF_FDS 5
#include "kernel.h"
#include "reactor.h"

#ifndef OTHER
#define OTHER 0
#define FLIP 0
#define ACT 0
#endif
#ifndef STEPS
#define STEPS 3
#endif
#define ND (OP == 0 ? 1 : 2)

static descriptor *d[2];
static int fd[2], mask[2], alive[2], due[2], acts, seen;
static uint32_t reported[2];

static void callback(reactor_event *);

static void in_step(int i)
{
  uint32_t want;

  VF_ASSERT(descriptor_is_open(d[i]) == (fd[i] >= 0), "openness is known");
  if (fd[i] < 0)
    return;
  VF_ASSERT(descriptor_fd(d[i]) == fd[i], "the descriptor number is known");
  want = (mask[i] & DESCRIPTOR_READ ? EPOLLIN : 0) | (mask[i] & DESCRIPTOR_WRITE ? EPOLLOUT : 0) | (mask[i] & DESCRIPTOR_LEVEL ? 0 : EPOLLET) | EPOLLRDHUP;
  VF_ASSERT(K[fd[i] - FD0].open && K[fd[i] - FD0].reg, "an open descriptor is registered");
  VF_ASSERT((K[fd[i] - FD0].events & (EPOLLIN | EPOLLOUT | EPOLLET | EPOLLRDHUP | EPOLLONESHOT | EPOLLPRI)) == want, "the registered interest is the requested one");
}

static void d_new(int i)
{
  d[i] = malloc(sizeof *d[i]);
  descriptor_construct(d[i], callback, (void *) (uintptr_t) (i + 1));
  alive[i] = 1;
  fd[i] = -1;
}

static void d_open(int i)
{
  int f = k_open(), m = vf_range(0, 7);

  if (fd[i] >= 0)
  {
    VF_ASSUME(0);
  }
  fd[i] = f;
  mask[i] = m;
  descriptor_open(d[i], f, m);
  due[i] = 0;
}

static void closed(int i, int c)
{
  if (fd[i] >= 0)
    VF_ASSERT(!K[fd[i] - FD0].open && !K[fd[i] - FD0].reg && K[fd[i] - FD0].closed == c + 1, "a closed descriptor is unregistered and closed once");
  fd[i] = -1;
  due[i] = 0;
}

static void d_act(int i, int a)
{
  int c = fd[i] >= 0 ? K[fd[i] - FD0].closed : 0;

  switch (a)
  {
  case 0:
    if (fd[i] < 0)
      d_open(i);
    break;
  case 1:
    if (fd[i] >= 0)
    {
      mask[i] = vf_range(0, 7);
      descriptor_mask(d[i], mask[i]);
    }
    break;
  case 2:
    descriptor_close(d[i]);
    closed(i, c);
    break;
  case 3:
    descriptor_close(d[i]);
    closed(i, c);
    d_open(i);
    break;
  case 4:
    descriptor_destruct(d[i]);
    closed(i, c);
    free(d[i]);
    alive[i] = 0;
    d[i] = NULL;
    break;
  }
}

static void callback(reactor_event *event)
{
  int i = (int) (uintptr_t) event->state - 1, j, bit;

  VF_ASSERT(i >= 0 && i < ND, "a callback gets its own state");
  VF_ASSERT(alive[i] && fd[i] >= 0 && due[i], "nothing is reported for a closed descriptor");
  bit = event->type == DESCRIPTOR_READ ? 1 : event->type == DESCRIPTOR_WRITE ? 2 : event->type == DESCRIPTOR_CLOSE ? 4 : 0;
  VF_ASSERT(due[i] & bit, "exactly the signalled conditions are reported, once");
  VF_ASSERT((due[i] & (bit - 1)) == 0, "reading comes before writing, closing last");
  due[i] &= ~bit;
  seen |= bit;
  if (vf_bool())
  {
    j = i ^ OTHER;
    if (alive[j])
    {
      d_act(j, ACT);
      acts |= 1;
    }
  }
}

static int vf_wait(struct epoll_event *e, int max)
{
  int i, n, f = FLIP;

  n = vf_range(1, ND);
  for (i = 0; i < ND; i++)
    if (i < n)
    {
      int k = i ^ f;
      VF_ASSUME(fd[k] >= 0);
      reported[k] = vf_u32() & (EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | EPOLLERR);
      VF_ASSUME(reported[k]);
      e[i].events = reported[k];
      e[i].data.ptr = K[fd[k] - FD0].ptr;
      due[k] = (reported[k] & EPOLLIN ? 1 : 0) | (reported[k] & EPOLLOUT ? 2 : 0) | (reported[k] & (EPOLLHUP | EPOLLRDHUP | EPOLLERR) ? 4 : 0);
    }
  return n;
}

void vf_main(void)
{
  int i;

  reactor_construct();
  for (i = 0; i < ND; i++)
    d_new(i);
#if OP == 0
  for (i = 0; i < STEPS; i++)
  {
    int a = vf_range(0, 3);
    d_act(0, a);
    acts |= 1 << a;
    in_step(0);
  }
  VF_COVER(acts == 7 && fd[0] < 0, "opened, changed, closed#0");
  VF_COVER(acts == 11 && fd[0] >= 0, "reopened#0");
#else
  for (i = 0; i < ND; i++)
    d_open(i);
  reactor_loop_once();
  for (i = 0; i < ND; i++)
  {
    VF_ASSERT(!due[i], "every signalled condition is reported");
    if (alive[i])
      in_step(i);
  }
  VF_COVER(seen == 7 && acts == 0, "all conditions#1");
  VF_COVER(acts & 1, "acted#1");
#endif
  for (i = 0; i < ND; i++)
    if (alive[i])
      d_act(i, 4);
  for (i = 0; i < VF_FDS; i++)
    VF_ASSERT(!K[i].open && !K[i].reg, "nothing stays open or registered");
  reactor_destruct();
}
