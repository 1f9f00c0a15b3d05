// An element type that knows whether it is alive and owns heap memory, so that
// double construction, double destruction and use after destruction show up.
#ifndef TRACKED_H
#define TRACKED_H
#include "enumer.h"
struct Tracked {
  static long live;
  enum { ALIVE = 0x51ab3c0f, DEAD = 0x0ddba11 };
  unsigned tag; int key; int id; int *heap;
  void chk() const { EN_CHECK(tag == ALIVE, "element used while not alive"); EN_CHECK(!heap || *heap == key, "element content damaged"); }
  Tracked(int k = 0, int i = 0) : tag(ALIVE), key(k), id(i), heap(new int(k)) { ++live; }
  Tracked(Tracked const &o) : tag(ALIVE), key(o.key), id(o.id), heap(nullptr) { o.chk(); heap = new int(key); ++live; }
  Tracked(Tracked &&o) noexcept : tag(ALIVE), key(o.key), id(o.id), heap(o.heap) { o.chk(); o.heap = nullptr; o.key = -1; ++live; }
  Tracked &operator=(Tracked const &o) { chk(); o.chk(); if (this != &o) { key = o.key; id = o.id; delete heap; heap = o.heap ? new int(key) : nullptr; } return *this; }
  Tracked &operator=(Tracked &&o) noexcept { chk(); o.chk(); if (this != &o) { delete heap; key = o.key; id = o.id; heap = o.heap; o.heap = nullptr; o.key = -1; } return *this; }
  ~Tracked() { EN_CHECK(tag == ALIVE, "element destroyed twice or never constructed"); delete heap; heap = nullptr; tag = DEAD; --live; }
  friend bool operator==(Tracked const &a, Tracked const &b) { a.chk(); b.chk(); return a.key == b.key; }
  friend bool operator<(Tracked const &a, Tracked const &b) { a.chk(); b.chk(); return a.key < b.key; }
};
#endif
