// XXH32 written from its specification, to check checksums against.
#ifndef XXH_H
#define XXH_H
#include <stdint.h>
#include <stddef.h>
namespace xxh {
static inline uint32_t rotl(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static inline uint32_t h32(const void *data, size_t n, uint32_t seed = 0)
{
  const uint32_t P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
  const uint8_t *p = (const uint8_t *)data, *e = p + n;
  auto rd = [](const uint8_t *q) { return (uint32_t)q[0] | (uint32_t)q[1] << 8 | (uint32_t)q[2] << 16 | (uint32_t)q[3] << 24; };
  uint32_t h;
  if (n >= 16) {
    uint32_t v[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
    for (; e - p >= 16; p += 16)
      for (int i = 0; i < 4; ++i) v[i] = rotl(v[i] + rd(p + 4 * i) * P2, 13) * P1;
    h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18);
  } else h = seed + P5;
  h += (uint32_t)n;
  for (; e - p >= 4; p += 4) h = rotl(h + rd(p) * P3, 17) * P4;
  for (; p < e; ++p) h = rotl(h + *p * P5, 11) * P1;
  h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16;
  return h;
}
}
#endif
