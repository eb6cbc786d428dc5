/* chunked decoding in segments against a reference that reads one byte at a time */
#include "vf.h"
#define VF_MEM_MAX (LAST + 1)
#include "mem.h"
#include <string.h>
#include "picohttpparser/picohttpparser.h"

#ifndef PREFIX
#define PREFIX ""
#endif
#define NP (sizeof(PREFIX) - 1)

/* reference */
enum { SIZE, EXT, DATA, AFTER, HEAD, LINE, DONE, BAD };
static int state = SIZE, digits;
static uint64_t left;
static unsigned char ref[TOTAL];
static size_t rn, used;

static int hex(int c)
{
  return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}

static void feed(int c, int trailer)
{
  int v;

  if (state == DONE || state == BAD)
    return;
  used++;
  switch (state)
  {
  case SIZE:
    v = hex(c);
    if (v >= 0)
    {
      if (digits == 16)
        state = BAD;
      left = left * 16 + v;
      digits++;
      break;
    }
    if (digits == 0)
    {
      state = BAD;
      break;
    }
    digits = 0;
    state = EXT;
    /* fallthrough */
  case EXT:
    if (c == '\n')
      state = left ? DATA : trailer ? HEAD : DONE;
    break;
  case DATA:
    ref[rn++] = c;
    left--;
    if (left == 0)
      state = AFTER;
    break;
  case AFTER:
    if (c != '\r')
      state = c == '\n' ? SIZE : BAD;
    break;
  case HEAD:
    if (c != '\r')
      state = c == '\n' ? DONE : LINE;
    break;
  case LINE:
    if (c == '\n')
      state = HEAD;
    break;
  }
}

void vf_main(void)
{
  struct phr_chunked_decoder d;
  unsigned char text[TOTAL];
  static const unsigned char prefix[] = PREFIX;
  static const size_t cuts[] = {CUTS};
  char *buf;
  size_t i, k, at = 0, n, size, got = 0;
  ssize_t r;

  d = (struct phr_chunked_decoder) {0};
#ifdef TRAILER
  d.consume_trailer = TRAILER;
#else
  d.consume_trailer = vf_bool();
#endif
  for (i = 0; i < TOTAL; i++)
    text[i] = i < NP ? prefix[i] : vf_u8();
  for (k = 0; k < sizeof cuts / sizeof cuts[0]; k++)
  {
    n = cuts[k] - at;
    buf = malloc(n);
    for (i = 0; i < n; i++)
      buf[i] = text[at + i];
    for (i = 0; i < n; i++)
      feed(text[at + i], d.consume_trailer);
    size = n;
    r = phr_decode_chunked(&d, buf, &size);
    if (state == BAD)
    {
      VF_ASSERT(r == -1, "a malformed body is rejected as soon as it shows");
      VF_COVER(1, "bad#bad");
      free(buf);
      return;
    }
    VF_ASSERT(size <= n && got + size == rn, "the decoded length is the length of the payload");
    for (i = 0; i < n; i++)
      if (i < size)
        VF_ASSERT((unsigned char) buf[i] == ref[got + i], "the decoded bytes are the payload");
    got += size;
    if (state == DONE)
    {
      VF_ASSERT(r == (ssize_t) (at + n - used), "the end of the body is found and the bytes after it are counted");
      for (i = 0; i < n; i++)
        if (size + i < n && i < at + n - used)
          VF_ASSERT((unsigned char) buf[size + i] == text[used + i], "the bytes after the body follow it unchanged");
      VF_COVER(1, "done#done");
      free(buf);
      return;
    }
    VF_ASSERT(r == -2, "an unfinished body asks for more");
    VF_ASSERT(!!phr_decode_chunked_is_in_data(&d) == (state == DATA), "being within chunk data is reported");
    free(buf);
    at += n;
  }
  VF_COVER(1, "incomplete");
}
