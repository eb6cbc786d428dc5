/* hashes of arbitrary bytes, for each length in [LO, HI]: reads stay inside the block, the value does
 * not depend on where the bytes lie, and it is the published one (FarmHash64 for blocks and strings,
 * the MurmurHash3 finalizer for integers) */
#include <string.h>
#include "vf.h"
#include "reactor.h"

static const uint64_t k0 = 0xc3a5c85c97cb3127ULL, k1 = 0xb492b66fbe98f273ULL, k2 = 0x9ae16a3b2f90404fULL;

static uint64_t f64(const unsigned char *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static uint64_t f32(const unsigned char *p) { uint32_t v; memcpy(&v, p, 4); return v; }
static uint64_t rot(uint64_t v, int n) { return (v >> n) | (v << (64 - n)); }
static uint64_t mix(uint64_t v) { return v ^ (v >> 47); }
static uint64_t h16(uint64_t u, uint64_t v, uint64_t mul)
{
  uint64_t a = (u ^ v) * mul, b;
  a ^= a >> 47;
  b = (v ^ a) * mul;
  b ^= b >> 47;
  return b * mul;
}
static void weak(const unsigned char *s, uint64_t a, uint64_t b, uint64_t *first, uint64_t *second)
{
  uint64_t w = f64(s), x = f64(s + 8), y = f64(s + 16), z = f64(s + 24), c;
  a += w;
  b = rot(b + a + z, 21);
  c = a;
  a += x;
  a += y;
  b += rot(a, 44);
  *first = a + z;
  *second = b + c;
}
static uint64_t reference(const unsigned char *s, size_t n)
{
  uint64_t mul = k2 + n * 2, a, b, c, d, e, f, g, h, x, y, z, v1 = 0, v2 = 0, w1 = 0, w2 = 0, t;
  size_t i;

  if (n == 0)
    return k2;
  if (n < 4)
  {
    uint32_t yy = (uint32_t) s[0] + ((uint32_t) s[n >> 1] << 8), zz = (uint32_t) n + ((uint32_t) s[n - 1] << 2);
    return mix(yy * k2 ^ zz * k0) * k2;
  }
  if (n < 8)
    return h16(n + (f32(s) << 3), f32(s + n - 4), mul);
  if (n <= 16)
  {
    a = f64(s) + k2;
    b = f64(s + n - 8);
    return h16(rot(b, 37) * mul + a, (rot(a, 25) + b) * mul, mul);
  }
  if (n <= 32)
  {
    a = f64(s) * k1;
    b = f64(s + 8);
    c = f64(s + n - 8) * mul;
    d = f64(s + n - 16) * k2;
    return h16(rot(a + b, 43) + rot(c, 30) + d, a + rot(b + k2, 18) + c, mul);
  }
  if (n <= 64)
  {
    a = f64(s) * k2;
    b = f64(s + 8);
    c = f64(s + n - 8) * mul;
    d = f64(s + n - 16) * k2;
    y = rot(a + b, 43) + rot(c, 30) + d;
    z = h16(y, a + rot(b + k2, 18) + c, mul);
    e = f64(s + 16) * mul;
    f = f64(s + 24);
    g = (y + f64(s + n - 32)) * mul;
    h = (z + f64(s + n - 24)) * mul;
    return h16(rot(e + f, 43) + rot(g, 30) + h, e + rot(f + a, 18) + g, mul);
  }
  x = 81;
  y = 81 * k1 + 113;
  z = mix(y * k2 + 113) * k2;
  x = x * k2 + f64(s);
  for (i = 0; i < (n - 1) / 64; i++)
  {
    const unsigned char *p = s + 64 * i;
    x = rot(x + y + v1 + f64(p + 8), 37) * k1;
    y = rot(y + v2 + f64(p + 48), 42) * k1;
    x ^= w2;
    y += v1 + f64(p + 40);
    z = rot(z + w1, 33) * k1;
    weak(p, v2 * k1, x + w1, &v1, &v2);
    weak(p + 32, z + w2, y + f64(p + 16), &w1, &w2);
    t = z;
    z = x;
    x = t;
  }
  mul = k1 + ((z & 0xff) << 1);
  s += n - 64;
  w1 += (n - 1) & 63;
  v1 += w1;
  w1 += v1;
  x = rot(x + y + v1 + f64(s + 8), 37) * mul;
  y = rot(y + v2 + f64(s + 48), 42) * mul;
  x ^= w2 * 9;
  y += v1 * 9 + f64(s + 40);
  z = rot(z + w1, 33) * mul;
  weak(s, v2 * mul, x + w1, &v1, &v2);
  weak(s + 32, z + w2, y + f64(s + 16), &w1, &w2);
  t = z;
  z = x;
  x = t;
  return h16(h16(v1, w1, mul) + mix(y) * k0 + z, h16(v2, w2, mul) + x, mul);
}

#if VF_CBMC && OP == 1
/* keeps the length a constant for the solver */
size_t strlen(const char *p)
{
  size_t i;

  for (i = 0; i < LO; i++)
    VF_ASSERT(p[i] != 0, "no NUL inside the string");
  VF_ASSERT(p[LO] == 0, "the string ends here");
  return LO;
}
#endif

void vf_main(void)
{
#if OP == 0
  unsigned char bytes[HI + 1], *p, *q;
  size_t n, i;
  uint64_t h;

#ifdef SPARSE
  /* two fixed contents: decided by constant propagation, so a counterexample never waits for the multiplications */
  unsigned char b = vf_bool();

  for (i = 0; i < HI; i++)
    bytes[i] = b ? i * 37 + 201 : 255 - i;
#else
  for (i = 0; i < HI; i++)
    bytes[i] = vf_u8();
#endif
  for (n = LO; n <= HI; n++)
  {
    p = malloc(n);
    q = malloc(n + 5);
    for (i = 0; i < n; i++)
      q[i + 3] = p[i] = bytes[i];
    q[0] = q[1] = q[2] = vf_u8();
    q[n + 3] = q[n + 4] = vf_u8();
    h = hash_data(p, n);
    VF_ASSERT(h == hash_data(q + 3, n), "the same bytes elsewhere have the same hash");
    VF_ASSERT(h == reference(bytes, n), "the hash is the published one");
    free(p);
    free(q);
  }
  VF_COVER(1, "0#done");
#elif OP == 1
  char s[HI + 1];
  size_t n = LO, i;

  for (i = 0; i < n; i++)
  {
    s[i] = vf_u8();
    VF_ASSUME(s[i]);
  }
  s[n] = 0;
  VF_ASSERT(hash_string(s) == reference((unsigned char *) s, n), "a string hashes as its bytes");
  VF_COVER(1, "1#done");
#else
  uint64_t v = vf_u64(), r = v;

  r ^= r >> 33;
  r *= 0xff51afd7ed558ccdULL;
  r ^= r >> 33;
  r *= 0xc4ceb9fe1a85ec53ULL;
  r ^= r >> 33;
  VF_ASSERT(hash_uint64(v) == r, "an integer hashes to the published value");
  VF_COVER(1, "2#done");
#endif
}
