// What the protobuf codecs put on the wire, encoded and decoded independently.
#ifndef PBUTIL_H
#define PBUTIL_H
#include "../engine_b/xxh.h"
#include <string>
static inline std::string be32(uint32_t v) { std::string s; for (int i = 24; i >= 0; i -= 8) s += (char)(v >> i); return s; }
static inline std::string varint(uint32_t v) { std::string s; while (v >= 128) { s += (char)(v | 128); v >>= 7; } s += (char)v; return s; }
// kind 0: a size of four bytes; 1: a size as a varint
static inline std::string frame(int kind, std::string const &tag, std::string const &payload)
{
  std::string b = tag + payload;
  uint32_t n = (uint32_t)b.size() + 4;
  return (kind ? varint(n) : be32(n)) + b + be32(xxh::h32(b.data(), b.size()));
}
#endif
