/* timers over the real descriptor and event loop.
 * OP 0: programming of the kernel timer.  OP 1: one batch of two expired timers; callbacks clear,
 * set again or free a timer (ACT), their own or the other (OTHER). */
#define VF_FDS 3
#ifndef PART
#define PART 2
#endif
#include "kernel.h"
#include <sys/timerfd.h>
#include "reactor.h"

static timer *t[2];
static int fd[2] = {-1, -1}, alive[2], alerts, acted, settings, waits, started;
static uint64_t due[2], unread[2], told[2];
static struct itimerspec spec;
static int created;

int VF_STUB(timerfd_create)(clockid_t id, int flags)
{
  int f = k_open();

  created = f;
  unread[f - FD0] = 0;
  return f;
}

int VF_STUB(timerfd_settime)(int f, int flags, const struct itimerspec *v, struct itimerspec *old)
{
  VF_ASSERT(f >= FD0 && f < FD0 + VF_FDS && K[f - FD0].open, "an open timer is programmed");
  VF_ASSERT(flags == 0, "times are relative");
  VF_ASSERT((uint64_t) v->it_value.tv_nsec < 1000000000 && (uint64_t) v->it_interval.tv_nsec < 1000000000, "the kernel accepts the times");
  spec = *v;
  settings++;
#if OP == 1
  if (f - FD0 < 2)
    unread[f - FD0] = 0;
#endif
  return 0;
}

ssize_t VF_STUB(read)(int f, void *p, size_t n)
{
  uint64_t v;
  int i = f - FD0;

  VF_ASSERT(i >= 0 && i < 2 && K[i].open, "an open timer is read");
  VF_ASSERT(n == 8, "a whole count is read");
  if (unread[i] == 0)
  {
    errno = EAGAIN;
    return -1;
  }
  v = unread[i];
  unread[i] = 0;
  told[i] += v;
  *(uint64_t *) p = v;
  /* it may expire again at once */
  if (!waits && vf_bool())
    unread[i] = 1, waits = 1;
  return 8;
}

static void callback(reactor_event *event)
{
  int i = (int) (uintptr_t) event->state - 1, j = i ^ OTHER;

  VF_ASSERT(event->type == TIMER_EXPIRATION, "the event type is given");
  VF_ASSERT(i >= 0 && i < 2 && alive[i] && fd[i] >= 0, "no alert after the timer was cleared");
  VF_ASSERT(told[i] > 0 && event->data == told[i], "an alert stands for the expirations the kernel reported");
  told[i] = 0;
  due[i] = 0;
  alerts |= 1 << i;
  if (!alive[j] || !vf_bool())
    return;
  acted = 1;
  due[j] = 0;
  switch (ACT)
  {
  case 1:
    timer_clear(t[j]);
    fd[j] = -1;
    break;
  case 2:
    timer_set(t[j], 5, 0);
    if (fd[j] == -1)
      fd[j] = created;
    break;
  case 3:
    timer_destruct(t[j]);
    free(t[j]);
    t[j] = NULL;
    alive[j] = 0;
    fd[j] = -1;
    break;
  case 4:
    timer_clear(t[j]);
    timer_set(t[j], 5, 5);
    fd[j] = created;
    break;
  }
}

static int vf_wait(struct epoll_event *e, int max)
{
  int i, n = vf_range(1, 2);

  for (i = 0; i < 2; i++)
    if (i < n)
    {
      VF_ASSERT(K[i].reg && (K[i].events & EPOLLIN), "a set timer is waited for");
      due[i] = unread[i] = vf_range(1, 3);
      e[i].events = EPOLLIN;
      e[i].data.ptr = K[i].ptr;
    }
  return n;
}

void vf_main(void)
{
  int i;

  reactor_construct();
#if OP == 0
  {
    timer a;
    uint64_t t0, ti;

    timer_construct(&a, NULL, NULL);
    for (i = 0; i < (PART == 2 ? 2 : 1); i++)
    {
      t0 = PART == 0 ? SECS * 1000000000 + vf_range(0, 999999999) : 3000000007;
      ti = PART == 1 ? SECS * 1000000000 + vf_range(0, 999999999) : 5000000001;
      timer_set(&a, t0, ti);
      VF_ASSERT(settings == i + 1, "the kernel timer is programmed");
      if (t0)
        VF_ASSERT((uint64_t) spec.it_value.tv_sec == t0 / 1000000000 && (uint64_t) spec.it_value.tv_nsec == t0 % 1000000000, "the first expiry is the requested one");
      else
        VF_ASSERT(spec.it_value.tv_sec == 0 && spec.it_value.tv_nsec == 1, "no delay expires at once");
      VF_ASSERT((uint64_t) spec.it_interval.tv_sec == ti / 1000000000 && (uint64_t) spec.it_interval.tv_nsec == ti % 1000000000, "the interval is the requested one");
      VF_ASSERT(K[0].added == 1 && K[0].reg && !K[1].open, "one kernel timer is used");
    }
    VF_COVER(t0 == 0, "t0#at once");
    VF_COVER(1, "0#set");
    timer_destruct(&a);
  }
#else
  for (i = 0; i < 2; i++)
  {
    t[i] = malloc(sizeof *t[i]);
    alive[i] = 1;
    timer_construct(t[i], callback, (void *) (uintptr_t) (i + 1));
    timer_set(t[i], 1, 1);
    fd[i] = created;
  }
  reactor_loop_once();
  for (i = 0; i < 2; i++)
    VF_ASSERT(!due[i] && !told[i], "an expiration is alerted");
  VF_COVER(alerts == 3, "both#1");
  VF_COVER(acted, "acted#1");
  for (i = 0; i < 2; i++)
    if (alive[i])
    {
      timer_destruct(t[i]);
      free(t[i]);
    }
#endif
  for (i = 0; i < VF_FDS; i++)
    VF_ASSERT(!K[i].open && !K[i].reg, "nothing stays open or registered");
  reactor_destruct();
}
