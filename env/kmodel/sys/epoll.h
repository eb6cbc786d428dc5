/* <sys/epoll.h> for the symbolic build: the same interface with an unpacked event, so that the
 * pointers stored in it stay whole for the solver (the replay build uses the system's header) */
#ifndef VF_EPOLL_H
#define VF_EPOLL_H
#include <stdint.h>
#include <signal.h>
enum EPOLL_EVENTS
{
  EPOLLIN = 0x001, EPOLLPRI = 0x002, EPOLLOUT = 0x004, EPOLLERR = 0x008, EPOLLHUP = 0x010, EPOLLRDNORM = 0x040, EPOLLRDBAND = 0x080,
  EPOLLWRNORM = 0x100, EPOLLWRBAND = 0x200, EPOLLMSG = 0x400, EPOLLRDHUP = 0x2000, EPOLLEXCLUSIVE = 1u << 28, EPOLLWAKEUP = 1u << 29,
  EPOLLONESHOT = 1u << 30, EPOLLET = 1u << 31
#define EPOLLIN EPOLLIN
#define EPOLLPRI EPOLLPRI
#define EPOLLOUT EPOLLOUT
#define EPOLLERR EPOLLERR
#define EPOLLHUP EPOLLHUP
#define EPOLLRDHUP EPOLLRDHUP
#define EPOLLEXCLUSIVE EPOLLEXCLUSIVE
#define EPOLLONESHOT EPOLLONESHOT
#define EPOLLET EPOLLET
};
enum { EPOLL_CLOEXEC = 02000000 };
#define EPOLL_CLOEXEC EPOLL_CLOEXEC
#define EPOLL_CTL_ADD 1
#define EPOLL_CTL_DEL 2
#define EPOLL_CTL_MOD 3
typedef union epoll_data
{
  void *ptr;
  int fd;
  uint32_t u32;
  uint64_t u64;
} epoll_data_t;
struct epoll_event
{
  uint32_t events;
  epoll_data_t data;
};
int epoll_create(int);
int epoll_create1(int);
int epoll_ctl(int, int, int, struct epoll_event *);
int epoll_wait(int, struct epoll_event *, int, int);
int epoll_pwait(int, struct epoll_event *, int, int, const sigset_t *);
#endif
