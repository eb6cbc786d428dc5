/* the kernel as the reactor sees it: descriptors, registrations, waiting.
 * A harness supplies vf_wait(), which fills one batch. */
#ifndef VF_KERNEL_H
#define VF_KERNEL_H
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/epoll.h>
#include <time.h>
#include <unistd.h>
#include "vf.h"
#ifndef VF_FDS
#define VF_FDS 4
#endif
#define FD0 10
static struct { int open, reg; uint32_t events; void *ptr; int closed, added, modified, deleted; } K[VF_FDS];
static int ep_open, ep_closed, k_signals_ok;
static void (*k_term)(int), (*k_int)(int), (*k_pipe)(int);
static int vf_wait(struct epoll_event *, int);

static int k_registered(void)
{
  int i, n = 0;

  for (i = 0; i < VF_FDS; i++)
    n += K[i].reg;
  return n;
}

static int k_open(void)
{
  int i;

  for (i = 0; i < VF_FDS; i++)
    if (!K[i].open)
      break;
  VF_ASSUME(i < VF_FDS);
  K[i].open = 1;
  K[i].reg = 0;
  return FD0 + i;
}

int VF_STUB(epoll_create1)(int flags)
{
  ep_open++;
  return 9;
}

int VF_STUB(epoll_ctl)(int ep, int op, int fd, struct epoll_event *e)
{
  int i = fd - FD0;

  VF_ASSERT(ep == 9 && ep_open > ep_closed, "registration on the reactor's own descriptor");
  if (i < 0 || i >= VF_FDS || !K[i].open)
  {
    errno = EBADF;
    return -1;
  }
  if (op == EPOLL_CTL_ADD ? K[i].reg : !K[i].reg)
  {
    errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT;
    return -1;
  }
  if (op == EPOLL_CTL_DEL)
  {
    K[i].reg = 0;
    K[i].deleted++;
    return 0;
  }
  if (op == EPOLL_CTL_ADD)
    K[i].added++;
  else
    K[i].modified++;
  K[i].reg = 1;
  K[i].events = e->events;
  K[i].ptr = e->data.ptr;
#ifdef VF_ARM
  VF_ARM(i);
#endif
  return 0;
}

int VF_STUB(epoll_wait)(int ep, struct epoll_event *e, int max, int timeout)
{
  VF_ASSERT(ep == 9 && ep_open > ep_closed, "waiting on the reactor's own descriptor");
  VF_ASSERT(max > 0, "room for at least one event");
#if VF_CBMC
  VF_ASSERT(__CPROVER_w_ok(e, max * sizeof *e), "room for as many events as are asked for");
#endif
  VF_ASSERT(timeout == -1, "waiting does not time out or spin");
  return vf_wait(e, max);
}

int VF_STUB(epoll_pwait)(int ep, struct epoll_event *e, int max, int timeout, const sigset_t *set)
{
  return VF_STUB(epoll_wait)(ep, e, max, timeout);
}

int VF_STUB(close)(int fd)
{
  int i = fd - FD0;

  if (fd == 9)
  {
    VF_ASSERT(ep_open > ep_closed, "closed once");
    ep_closed++;
    return 0;
  }
  VF_ASSERT(i >= 0 && i < VF_FDS && K[i].open, "only an open descriptor is closed, and once");
  K[i].open = 0;
  K[i].reg = 0;
  K[i].closed++;
  return 0;
}

typedef void k_handler(int);
k_handler *VF_STUB(signal)(int sig, k_handler *h)
{
  if (sig == SIGTERM)
    k_term = h;
  if (sig == SIGINT)
    k_int = h;
  if (sig == SIGPIPE)
    k_pipe = h;
  return SIG_DFL;
}
#endif
