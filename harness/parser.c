/* one message head of arbitrary bytes, compared with the reference reading */
#include <string.h>
#include "vf.h"
#include "reactor.h"
#include "httpref.h"

#ifndef PREFIX
#define PREFIX ""
#endif
#define P (sizeof PREFIX - 1)
#ifndef NSYM
#define NSYM 24
#endif
#define N (P + NSYM)
#ifndef CUT
#define CUT N      /* bytes that have arrived; the reference reads all N */
#endif

static int is(data d, const unsigned char *text, span s)
{
  return data_size(d) == s.to - s.from && (s.to == s.from || data_base(d) == text + s.from);
}

static int inside(data d, const unsigned char *text, size_t n)
{
  return data_size(d) == 0 || (data_size(d) <= n && (const unsigned char *) data_base(d) >= text && (const unsigned char *) data_base(d) + data_size(d) <= text + n);
}

void vf_main(void)
{
  unsigned char *text, all[N + 1];
  data method = {0}, target = {0};
  http_field fields[RMAX + 1];
  size_t i, n, max, count;
  stream st = {0};
  ssize_t r;
  int status = 0;
  ref ref = {.state = R_START, .dead = -1};

#ifdef RESPONSE
  ref.state = R_VERSION;
#endif
  /* a block of exactly the bytes that have arrived, so that any other byte is out of bounds */
  n = CUT;
  max = MAXF;
  text = malloc(n);
  for (i = 0; i < N; i++)
    all[i] = i < P ? PREFIX[i] : vf_u8();
  for (i = 0; i < n; i++)
    text[i] = all[i];
  /* what an earlier attempt may have left */
  method = data_construct((char *) text, vf_range(0, n));
  target = data_construct((char *) text, vf_range(0, n));
  for (i = 0; i < max; i++)
    fields[i] = http_field_construct(data_construct((char *) text, vf_range(0, n)), data_construct((char *) text, vf_range(0, n)));
  status = vf_u8();
#ifndef NOREF
  for (i = 0; i < N; i++)
    r_step(&ref, all[i], i, max);
#endif

  fields[max] = http_field_construct(data_construct("?", 1), data_construct("!", 1));
  count = max;
#ifdef RESPONSE
  st.input.data = text;
  st.input.size = n;
  r = http_read_response(&st, &status, &target, fields, &count);
#else
  r = http_read_request_data(data_construct((char *) text, n), &method, &target, fields, &count);
#endif

  VF_ASSERT(r == -1 || r == -2 || (r > 0 && r <= n), "malformed, incomplete, or the length of the head");
#ifdef NOREF
  if (r > 0)
  {
    VF_ASSERT(inside(method, text, n) && inside(target, text, n), "slices lie inside the text");
    VF_ASSERT(count <= max, "no more fields than there is room for");
    for (i = 0; i < max; i++)
      if (i < count)
        VF_ASSERT(inside(fields[i].name, text, n) && inside(fields[i].value, text, n), "slices lie inside the text");
  }
#else
  VF_ASSERT((r > 0) == (ref.state == R_DONE && ref.end <= n), "accepted exactly when the grammar matches");
  if (r > 0)
  {
    VF_ASSERT(r == ref.end, "the head ends where the grammar says");
#ifdef RESPONSE
    VF_ASSERT(status == ref.code, "status code");
    VF_ASSERT(is(target, text, ref.text), "status text");
#else
    VF_ASSERT(is(method, text, ref.method), "method");
    VF_ASSERT(is(target, text, ref.target), "target");
#endif
    VF_ASSERT(count == ref.fields, "number of fields");
    for (i = 0; i < RMAX; i++)
      if (i < ref.fields)
        VF_ASSERT(is(fields[i].name, text, ref.name[i]) && is(fields[i].value, text, ref.value[i]), "field name and value");
  }
#endif
  VF_ASSERT(count <= max, "no more fields than there is room for");
#ifndef NOREF
  if (r == -1)
    VF_ASSERT(ref.state == R_DEAD || ref.empty, "called malformed only when no continuation could be accepted");
  if (r == -2)
    VF_ASSERT(ref.state != R_DEAD || n < ref.dead + 10, "malformed text is reported once a few more bytes are there");
#endif
  VF_ASSERT(data_size(fields[max].name) == 1 && data_size(fields[max].value) == 1, "nothing is written beyond the field array");
  VF_COVER(r > 0 && count == 0, "none#no fields");
  VF_COVER(r > 0 && count == MAXF && data_size(fields[0].value) > 0, "fields#all fields");
  VF_COVER(r > 0 && r < n, "more#more follows");
  VF_COVER(r == -1, "bad#malformed");
  VF_COVER(r == -2, "incomplete");
  free(text);
}
