// The global allocation functions, replaced so that the blocks of
// std::allocator are kept in the ledger like those of any other allocator.
#include <cstdlib>
#include <new>

#include "ledger.hpp"

namespace {
void* get(std::size_t n, std::size_t align) {
  if (vp::L.global && vp::L.window)
    return vp::L.allocate(1, n, align < 128 ? 128 : align, 0, nullptr);
  void* p = nullptr;
  if (posix_memalign(&p, align < 16 ? 16 : align, n ? n : 1)) std::abort();
  return p;
}
void put(void* p, std::size_t n) {
  if (!p) return;
  if (vp::L.global) {
    auto it = vp::L.blocks.find(reinterpret_cast<std::uintptr_t>(p));
    if (it != vp::L.blocks.end()) {
      vp::L.deallocate(p, 1, n ? n : it->second.bytes, 0, true, nullptr);
      return;
    }
  }
  std::free(p);
}
}  // namespace
void* operator new(std::size_t n) { return get(n, 16); }
void* operator new[](std::size_t n) { return get(n, 16); }
void operator delete(void* p) noexcept { put(p, 0); }
void operator delete[](void* p) noexcept { put(p, 0); }
void operator delete(void* p, std::size_t n) noexcept { put(p, n); }
void operator delete[](void* p, std::size_t n) noexcept { put(p, n); }
#if __cpp_aligned_new
void* operator new(std::size_t n, std::align_val_t a) { return get(n, std::size_t(a)); }
void operator delete(void* p, std::align_val_t) noexcept { put(p, 0); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { put(p, n); }
#endif
