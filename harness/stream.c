/* streams over the real buffers, descriptors and event loop, plain and TLS.
 * SEQ is a constant sequence of steps:
 *   W write two bytes   A allocate one byte and fill it   F flush   N ask to be told when drained
 *   R two bytes arrive  B a whole receive block arrives   H the peer ends   E one loop iteration
 * The bytes, how much every transfer takes, refusals, errors and consumption are arbitrary.
 * ACT: what a callback may do (1 close, 2 destruct and free, 3 close and open again). */
#define VF_FDS 2
#define VF_ARM(i) (armed[i] = 1)
static int armed[2];
#include "kernel.h"
#define VF_MEM_MAX 8
#include "mem.h"
#include <fcntl.h>
#include <sys/stat.h>
#include "reactor.h"

#ifndef TLS
#define TLS 0
#endif
#ifndef ACT
#define ACT 0
#endif
#ifndef PROP
#define PROP 0
#endif
/* obligations of one property; the others are decided by the other properties' jobs */
#define MUST(p, c, m) do { if (PROP == p || !PROP) VF_ASSERT(c, m); else VF_ASSUME(c); } while (0)

#define MAX 12
#define BLOCK STREAM_RECEIVE_SIZE
static stream *s;
static int fd = -1, dead, freed, blocked, broken, hangup, notified, drains, want_drain, closes, acted, freecalls, sslnew, reopened, pre_eof, wcalls, rcalls, reads;
static unsigned char sent[MAX], out[MAX], arrived[MAX];
static size_t sn, on, an, avail_at, eaten, big;
static int ssl_object, ssl_error, ssl_eof;
static int unflushed;

#if VF_CBMC
#define OBJ 24
static void *slot[6];
static size_t room[6];
static int slots;
void *realloc(void *p, size_t n)
{
  int i;

  if (p == NULL)
  {
    p = malloc(OBJ);
    __CPROVER_assert(slots < 6, "MODEL: number of blocks");
    slot[slots] = p;
    room[slots++] = n;
    return p;
  }
  for (i = 0; i < 6; i++)
    if (i < slots && slot[i] == p)
      room[i] = n;
  return p;
}
static int has_room(void *p, size_t n)
{
  int i;

  for (i = 0; i < 6; i++)
    if (i < slots && __CPROVER_same_object(p, slot[i]))
      return __CPROVER_POINTER_OFFSET(p) + n <= room[i];
  return 0;
}
#else
static int has_room(void *p, size_t n) { return 1; }
#endif

/* output: the kernel (or the TLS layer) takes what it likes */
static ssize_t take(const void *p, size_t n)
{
  size_t i, k;
  int e = vf_range(0, 3);

  VF_ASSERT(n > 0, "something is written");
  MUST(11, n <= sn - on, "only unsent output is offered");
  if (broken || (e == 2 && vf_bool()))
  {
    broken = 1;
    return -1;
  }
  if (e == 1)
  {
    blocked = 1;
    armed[fd - FD0] &= ~2;
    return -2;
  }
  blocked = 0;
  k = ++wcalls < 3 ? vf_range(1, 4) : n;
  if (k > n)
    k = n;
  for (i = 0; i < 5; i++)
    if (i < k)
    {
      MUST(11, on + i < sn && ((const unsigned char *) p)[i] == sent[on + i], "the bytes sent are the bytes written, in order");
      MUST(14, on + i < sn && ((const unsigned char *) p)[i] == sent[on + i], "the bytes sent are the bytes written, in order");
    }
  on += k;
  return k;
}

/* input: what has arrived, up to the room given */
static ssize_t give(void *p, size_t n)
{
  size_t k = an - avail_at, i;

  VF_ASSERT(n > 0, "something is read");
  MUST(12, has_room(p, n), "there is room for what is asked for");
#ifdef BIGREAD
  if (big == 1)
  {
    big = 2;
    VF_ASSERT(n == BLOCK, "whole blocks are asked for");
#if !VF_CBMC
    memset(p, 'b', n);
#endif
    return BLOCK;
  }
  if (big == 2)
  {
    big = 3;
    armed[fd - FD0] &= ~1;
    errno = EAGAIN;
    return -1;
  }
#endif
  if (k == 0)
  {
    if (hangup)
      return 0;
    errno = EAGAIN;
    return -1;
  }
  if (TLS && vf_bool() && k > 1)
    k = 1;
  if (k > n)
    k = n;
  for (i = 0; i < 5; i++)
    if (i < k)
      ((unsigned char *) p)[i] = arrived[avail_at + i];
  avail_at += k;
  return k;
}

ssize_t VF_STUB(write)(int f, const void *p, size_t n)
{
  ssize_t r;

  VF_ASSERT(!TLS, "plain output bypasses the TLS layer");
  VF_ASSERT(f == fd && f >= 0, "the open descriptor is written");
  r = take(p, n);
  if (r < 0)
    errno = r == -1 ? EPIPE : EAGAIN;
  return r < 0 ? -1 : r;
}

ssize_t VF_STUB(read)(int f, void *p, size_t n)
{
  VF_ASSERT(!TLS, "plain input bypasses the TLS layer");
  VF_ASSERT(f == fd && f >= 0, "the open descriptor is read");
  return give(p, n);
}

int VF_STUB(fstat)(int f, struct stat *st)
{
  st->st_mode = S_IFSOCK;
  return 0;
}

/* the TLS layer */
SSL *VF_STUB(SSL_new)(SSL_CTX *ctx) { ssl_object = 1; sslnew++; return (SSL *) &ssl_object; }
void VF_STUB(SSL_free)(SSL *x)
{
  if (x == NULL)
    return;
  VF_ASSERT((void *) x == (void *) &ssl_object && sslnew == freecalls + 1, "the session is released once");
  freecalls++;
}
int VF_STUB(SSL_set_fd)(SSL *x, int f) { return 1; }
int VF_STUB(SSL_is_server)(const SSL *x) { return 1; }
void VF_STUB(SSL_set_accept_state)(SSL *x) { }
void VF_STUB(SSL_set_connect_state)(SSL *x) { }
long VF_STUB(SSL_ctrl)(SSL *x, int c, long v, void *p) { return 1; }
static void live(SSL *x) { VF_ASSERT((void *) x == (void *) &ssl_object && sslnew == freecalls + 1, "the session in use is the live one"); }
int VF_STUB(SSL_get_error)(const SSL *x, int r) { live((SSL *) x); return r > 0 ? 0 : ssl_error; }
int VF_STUB(SSL_write)(SSL *x, const void *p, int n)
{
  ssize_t r;

  live(x);
  if (n == 0)
  {
    ssl_error = SSL_ERROR_SYSCALL;
    return 0;
  }
  r = take(p, n);
  if (r == -2)
    ssl_error = SSL_ERROR_WANT_WRITE;
  if (r == -1)
    ssl_error = SSL_ERROR_SSL;
  return r < 0 ? -1 : r;
}
int VF_STUB(SSL_read)(SSL *x, void *p, int n)
{
  ssize_t r;

  live(x);
  r = give(p, n);
  ssl_error = r == 0 ? SSL_ERROR_ZERO_RETURN : r < 0 ? (vf_bool() ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE) : 0;
  return r;
}

static void callback(reactor_event *);

static void s_open(int mask)
{
  fd = k_open();
  stream_open(s, fd, mask, TLS ? (SSL_CTX *) &ssl_object : NULL);
}

static void content(void)
{
  data d = stream_read(s);
  size_t i;

  if (big)
    return;
  MUST(12, data_size(d) == avail_at - eaten, "the reader sees as many bytes as were received and not consumed");
  MUST(14, data_size(d) == avail_at - eaten, "the reader sees as many bytes as were received and not consumed");
  for (i = 0; i < 8; i++)
    if (i < avail_at - eaten)
    {
      MUST(12, ((unsigned char *) data_base(d))[i] == arrived[eaten + i], "the reader sees the bytes received, in order");
      MUST(14, ((unsigned char *) data_base(d))[i] == arrived[eaten + i], "the reader sees the bytes received, in order");
    }
}

static void finish(int a)
{
  int f = fd - FD0, c = K[f].closed;

  if (a == 2)
  {
    stream_destruct(s);
    free(s);
    freed = 1;
  }
  else
  {
    stream_close(s);
    if (vf_bool())
      stream_close(s);
  }
  MUST(15, !K[f].open && K[f].closed == c + 1, "the descriptor is closed once");
  MUST(14, !TLS || freecalls == sslnew, "the session is released with the stream");
  fd = -1;
  dead = 1;
  acted = 1;
  notified = 0;
  if (a == 3)
  {
    MUST(15, data_size(stream_read(s)) == 0, "a closed stream holds nothing");
    reopened = 1;
    sn = on = an = avail_at = eaten = 0;
    blocked = broken = hangup = wcalls = 0;
    s_open(STREAM_READ);
    dead = 0;
  }
}

static void callback(reactor_event *event)
{
  size_t c;

  VF_ASSERT(event->state == &fd, "the callback gets its state");
  MUST(15, !dead && !freed, "nothing is reported after closing");
  switch (event->type)
  {
  case STREAM_READ:
    reads++;
    content();
    MUST(12, !pre_eof, "the end is reported after all data");
    if (!big)
    {
      MUST(12, avail_at > eaten, "reading is reported when there is something");
      if (!ACT)
      {
        c = vf_range(0, 4);
        if (c > avail_at - eaten)
          c = avail_at - eaten;
        stream_consume(s, c);
        eaten += c;
        content();
      }
    }
    break;
  case STREAM_WRITE:
    drains++;
    MUST(13, notified && on == sn, "draining is reported once, to who asked, when all is sent");
    notified = 0;
    break;
  default:
    closes++;
    pre_eof = 1;
    MUST(12, hangup || broken, "the end is reported when the peer ends");
    MUST(12, TLS || big || avail_at == an, "the end is reported after all data");
    break;
  }
  if (ACT && !acted && vf_bool())
    finish(ACT);
}

static int vf_wait(struct epoll_event *e, int max)
{
  int i = fd - FD0;
  uint32_t ready;

  MUST(13, K[i].reg, "an open stream is registered");
  /* room appears for a refused write */
  if (blocked)
  {
    blocked = 0;
    armed[i] = 1;
  }
  if (broken)
    armed[i] = 1;
  ready = (an > avail_at || hangup || big == 1 ? EPOLLIN : 0) | EPOLLOUT | (hangup ? EPOLLRDHUP : 0) | (broken ? EPOLLERR | EPOLLHUP : 0);
  ready &= K[i].events | EPOLLERR | EPOLLHUP;
  if (!armed[i])
    ready = 0;
  MUST(13, broken || unflushed || on == sn || (ready & EPOLLOUT), "pending output is woken for when the peer can take it");
  MUST(13, broken || !notified || (ready & EPOLLOUT), "who asked is woken for when the output can drain");
  MUST(13, !(an > avail_at || big == 1) || (ready & EPOLLIN), "arrived input is woken for");
  armed[i] = 0;
  if (!ready)
  {
    errno = EINTR;
    return -1;
  }
  e[0].events = ready;
  e[0].data.ptr = K[i].ptr;
  return 1;
}

static void step(char c)
{
  unsigned char b[2];
  unsigned char *p;
  int n0;

  if (dead || freed)
    return;
  switch (c)
  {
  case 'W':
    unflushed = 1;
    sent[sn] = b[0] = vf_u8();
    sent[sn + 1] = b[1] = vf_u8();
    sn += 2;
    stream_write(s, data_construct(b, 2));
    b[0] = b[1] = 0;
    break;
  case 'A':
    unflushed = 1;
    p = stream_allocate(s, 1);
    p[0] = sent[sn++] = vf_u8();
    break;
  case 'F':
    unflushed = 0;
    stream_flush(s);
    break;
  case 'N':
    unflushed = 0;
    stream_notify(s);
    notified = 1;
    break;
  case 'R':
    arrived[an] = vf_u8();
    arrived[an + 1] = vf_u8();
    an += 2;
    armed[fd - FD0] = 1;
    break;
  case 'B':
    big = 1;
    armed[fd - FD0] = 1;
    break;
  case 'H':
    hangup = 1;
    armed[fd - FD0] = 1;
    break;
  case 'E':
    n0 = drains;
    wcalls = 0;
    reads = 0;
    reactor_loop_once();
    if (freed || dead)
      break;
    if (!reopened)
    {
      MUST(13, big || broken || avail_at == an, "all input is taken in");
      MUST(13, big == 0 || big == 3, "reading goes on after a whole block");
      MUST(13, broken || !notified || on != sn || blocked, "who asked is told when the output has drained");
      MUST(12, !big || data_size(stream_read(s)) == BLOCK, "a whole block is received");
    }
    content();
    break;
  }
  MUST(11, broken || on <= sn, "no output is invented");
}

void vf_main(void)
{
  static const char seq[] = SEQ;
  size_t i;

  reactor_construct();
  s = malloc(sizeof *s);
  stream_construct(s, callback, &fd);
  if (vf_bool())
    stream_close(s);
  s_open(STREAM_READ);
  for (i = 0; i + 1 < sizeof seq; i++)
    step(seq[i]);
  VF_COVER(on == sn && !broken && !ACT, "sent#sent");
  VF_COVER(on < sn && on > 0, "part sent#part");
  VF_COVER(drains, "drained#drain");
  VF_COVER(acted, "acted#act");
  VF_COVER(avail_at == an && eaten == 1, "consumed#input");
  VF_COVER(closes, "ended#end");
  if (!freed)
  {
    if (!dead && !broken && !acted)
      MUST(11, data_size(data_construct(buffer_data(&s->output), buffer_size(&s->output))) == sn - on, "what was not sent is still pending");
    stream_destruct(s);
    free(s);
  }
  for (i = 0; i < VF_FDS; i++)
    MUST(15, !K[i].open && !K[i].reg, "nothing stays open or registered");
  MUST(14, freecalls == sslnew, "every session is released once");
  reactor_destruct();
}
