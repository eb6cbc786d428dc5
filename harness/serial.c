/* messages written to a stream: exact bytes after whatever was pending and exact size.  Sizes are constants of the job, the bytes are arbitrary.
 * OP 0: request, 1: response */
#include <string.h>
#include "vf.h"
#include "reactor.h"

#define MAX 700
static unsigned char want[MAX];
static size_t wn;

#if VF_CBMC
#define CAP 2056
/* the block is one object of constant size; what lies beyond the requested size must survive */
static unsigned char block[CAP];
static size_t block_n, block_live;
static unsigned char canary[8];
static void plant(void)
{
  int i;
  for (i = 0; i < 8; i++)
    canary[i] = block[block_n + i] = nondet_vf_u8();
}
static int intact(void)
{
  int i;
  for (i = 0; i < 8; i++)
    if (block[block_n + i] != canary[i])
      return 0;
  return 1;
}
void *realloc(void *p, size_t n)
{
  __CPROVER_assert(n + 8 <= CAP, "MODEL: realloc within the modelled size");
  VF_ASSERT(p == (block_live ? block : NULL), "realloc of the live block");
  VF_ASSERT(!block_live || intact(), "nothing is written beyond the allocation");
  block_n = n;
  block_live = 1;
  plant();
  return block;
}
void free(void *p)
{
  VF_ASSERT(p == NULL || (block_live && p == block), "free of the live block");
  VF_ASSERT(!p || intact(), "nothing is written beyond the allocation");
  if (p)
    block_live = 0;
}
#endif

static void w(const void *p, size_t n)
{
  size_t i;
  for (i = 0; i < n; i++)
    want[wn++] = ((const unsigned char *) p)[i];
}
#define WS(s) w(s, sizeof(s) - 1)
static void wfield(const char *name, size_t nn, const char *value, size_t vn)
{
  w(name, nn);
  WS(": ");
  w(value, vn);
  WS("\r\n");
}
#define WFIELD(name, v, n) wfield(name, sizeof(name) - 1, v, n)

#define STR_(x) #x
#define STR(x) STR_(x)
#ifndef BODY
#define BODY 3
#endif
#ifndef PEND
#define PEND 0
#endif
static char method[MN + 1], target[TN + 1], host[HN + 1], type[YN + 1], body[BODY + 1], date[30], status[SN + 1], pend[PEND + 1];

static void fill(char *p, size_t n)
{
  size_t i;
  for (i = 0; i < n; i++)
  {
    unsigned char c = vf_u8();
    p[i] = c;
  }
}

void vf_main(void)
{
  stream s;
  size_t i;
  data out;

  stream_construct(&s, NULL, NULL);
  fill(method, MN);
  fill(target, TN);
  fill(host, HN);
  fill(type, YN);
  fill(status, SN);
  fill(date, 29);
  fill(pend, PEND);
  for (i = 0; i < BODY; i++)
    body[i] = i < 4 || i + 2 > BODY ? vf_u8() : 'b';
  if (PEND)
    stream_write(&s, data_construct(pend, PEND));
  w(pend, PEND);
#if OP == 0
  w(method, MN);
  WS(" ");
  w(target, TN);
  WS(" HTTP/1.1\r\n");
  WFIELD("Host", host, HN);
  if (BODY)
  {
    WFIELD("Content-Type", type, YN);
    WFIELD("Content-Length", STR(BODY), sizeof(STR(BODY)) - 1);
  }
  WS("\r\n");
  w(body, BODY);
  http_write_request(&s, data_construct(method, MN), data_construct(target, TN), data_construct(host, HN), data_construct(type, YN), data_construct(body, BODY));
#else
  WS("HTTP/1.1 ");
  w(status, SN);
  WS("\r\n");
  WFIELD("Server", "reactor", 7);
  WFIELD("Date", date, 29);
  if (YN)
    WFIELD("Content-Type", type, YN);
  WFIELD("Content-Length", STR(BODY), sizeof(STR(BODY)) - 1);
  WS("\r\n");
  w(body, BODY);
  http_write_response(&s, data_construct(status, SN), data_construct(date, 29), data_construct(type, YN), data_construct(body, BODY));
#endif
  out = data_construct(buffer_data(&s.output), buffer_size(&s.output));
  VF_ASSERT(data_size(out) == wn, "the message has exactly the specified length");
  for (i = 0; i < wn; i++)
    VF_ASSERT(((const unsigned char *) data_base(out))[i] == want[i], "the message has exactly the specified bytes");
#if VF_CBMC
  VF_ASSERT(intact(), "nothing is written beyond the allocation");
#endif
  VF_COVER(1, "written");
  stream_destruct(&s);
}
