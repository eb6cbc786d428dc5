/* string input and output under arbitrary short transfers */
#define VF_MEM_CAP 32
#define VF_MEM_BLOCKS 1
#define VF_MEM_CALLOC
#define VF_MEM_INPLACE
#define VF_MEM_MAX 5
#include "mem.h"
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include "reactor.h"

#define N 4
static unsigned char bytes[N], out[N];
static size_t total, at, calls, opened, closed, flags, fail;

ssize_t VF_STUB(read)(int fd, void *p, size_t n)
{
  size_t k, i;

  VF_ASSERT(fd == 7, "reads from the given descriptor");
  VF_ASSERT(n > 0, "asks for something");
  VF_ASSERT(opened > closed, "reads while open");
  if (at == total)
    return 0;
  k = ++calls < 3 ? vf_range(1, N) : N;
  if (k > total - at)
    k = total - at;
  if (k > n)
    k = n;
  for (i = 0; i < N; i++)
    if (i < k)
      ((unsigned char *) p)[i] = bytes[at + i];
  at += k;
  return k;
}

ssize_t VF_STUB(write)(int fd, const void *p, size_t n)
{
  size_t k, i;

  VF_ASSERT(fd == 7, "writes to the given descriptor");
  VF_ASSERT(opened > closed, "writes while open");
  VF_ASSERT(n > 0 && n <= total - at, "offers only what is left");
  k = ++calls < 3 ? vf_range(1, N) : n;
  if (k > n)
    k = n;
  for (i = 0; i < N; i++)
    if (i < k)
      out[at + i] = ((const unsigned char *) p)[i];
  at += k;
  return k;
}

int VF_STUB(open)(const char *path, int fl, ...)
{
  VF_ASSERT(path[0] == 'p' && path[1] == 0, "opens the given path");
  flags = fl;
  if (fail)
    return -1;
  opened++;
  return 7;
}

int VF_STUB(close)(int fd)
{
  VF_ASSERT(fd == 7 && opened > closed, "closes what it opened, once");
  closed++;
  return 0;
}

void vf_main(void)
{
  string s;
  size_t i;
  int r;

  total = vf_range(0, N);
  for (i = 0; i < N; i++)
    bytes[i] = vf_u8();
  fail = OP % 2 ? vf_bool() : 0;
  if (OP % 2 == 0)
    opened = 1;
#if OP < 2
  {
    s = OP == 0 ? string_read(7) : string_load("p");
    if (fail)
      VF_ASSERT(s == string_null(), "a file that cannot be opened reads as empty");
    else
    {
      VF_ASSERT(string_size(s) == total, "every byte is read");
      for (i = 0; i < N; i++)
        if (i < total)
          VF_ASSERT((unsigned char) s[i] == bytes[i], "bytes are read in order");
      VF_ASSERT(s[string_size(s)] == 0, "the string is terminated");
    }
    VF_ASSERT(vf_mem_intact(), "nothing outside the block is touched");
    VF_COVER(calls == 3 && total == N, "in three pieces");
    VF_COVER(!fail && total == 0, "nothing");
  }
#else
  {
    s = string_null();
    if (total)
      s = string_resize(s, total);
    for (i = 0; i < N; i++)
      if (i < total)
        s[i] = bytes[i];
    r = 0;
    if (OP == 2)
      string_write(s, 7);
    else
      r = string_save(s, "p");
    VF_ASSERT(r == (fail ? -1 : 0), "failure to open is reported");
    if (!fail)
    {
      VF_ASSERT(at == total, "every byte is written once");
      for (i = 0; i < N; i++)
        if (i < total)
          VF_ASSERT(out[i] == bytes[i], "bytes are written in order");
      if (OP == 3)
        VF_ASSERT((flags & O_ACCMODE) != O_RDONLY && (flags & O_TRUNC) && !(flags & O_APPEND), "the file holds only the string afterwards");
    }
    VF_COVER(calls == 3 && total == N, "in three pieces");
    VF_COVER(!fail && total == 0, "nothing");
  }
#endif
  if (OP % 2)
    VF_ASSERT(opened == closed, "every opened descriptor is closed");
  else
    VF_ASSERT(opened == 1 && closed == 0, "the caller's descriptor stays open");
  string_free(s);
}
