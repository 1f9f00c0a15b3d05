// Stands in for the submodule kanon/protobuf/kvarint (github.com/Conzxy/kvarint),
// which is not part of this tree: the part of its interface that
// protobuf_codec2.cc uses, base 128 varints as in protobuf.
#ifndef KVARINT_STUB_H
#define KVARINT_STUB_H
#include <stddef.h>
#include <stdint.h>
enum { KVARINT_OK = 0, KVARINT_DECODE_BUF_INVALID, KVARINT_DECODE_BUF_SHORT };
struct kvarint_buf32_t { uint8_t buf[5]; uint8_t len; };
static inline void kvarint_encode32(uint32_t v, kvarint_buf32_t *b)
{
  b->len = 0;
  while (v >= 0x80) { b->buf[b->len++] = (uint8_t)(v | 0x80); v >>= 7; }
  b->buf[b->len++] = (uint8_t)v;
}
static inline int kvarint_decode32(void const *buf, size_t n, size_t *used, uint32_t *value)
{
  uint8_t const *p = (uint8_t const *)buf;
  uint64_t v = 0;
  for (size_t i = 0; i < 5; ++i) {
    if (i == n) return KVARINT_DECODE_BUF_SHORT;
    v |= (uint64_t)(p[i] & 0x7f) << (7 * i);
    if (!(p[i] & 0x80)) {
      if (v > UINT32_MAX) return KVARINT_DECODE_BUF_INVALID;
      *used = i + 1; *value = (uint32_t)v;
      return KVARINT_OK;
    }
  }
  return KVARINT_DECODE_BUF_INVALID;
}
#endif
