// Allocators under the harness' control: counting, and failing at a chosen allocation.
#pragma once
#include "mfast.h"
#include <cstring>
#include <new>
#include <string>
#include <unordered_map>
namespace cc {
struct CountingAlloc : mfast::allocator {
  std::unordered_map<void *, size_t> live;
  uint64_t calls = 0;
  uint64_t fail_at = 0;       // 1-based; 0 = never
  bool fail_after = false;    // also every later one
  bool bad_free = false;
  std::string bad;
  void *allocate(std::size_t n) override {
    ++calls;
    if (fail_at && (calls == fail_at || (fail_after && calls > fail_at))) throw std::bad_alloc();
    void *p = ::malloc(n ? n : 1);
    live[p] = n;
    return p;
  }
  std::size_t reallocate(void *&pointer, std::size_t old_size, std::size_t new_size) override {
    void *p = allocate(new_size);
    if (pointer) {
      memcpy(p, pointer, old_size < new_size ? old_size : new_size);
      deallocate(pointer, old_size);
    }
    pointer = p;
    return new_size;
  }
  void deallocate(void *p, std::size_t) override {
    if (!p) return;
    auto it = live.find(p);
    if (it == live.end()) { bad_free = true; bad = "block released that is not live"; return; }
    live.erase(it);
    ::free(p);
  }
  size_t outstanding() const { return live.size(); }
  ~CountingAlloc() { for (auto &x : live) ::free(x.first); }
};
}
