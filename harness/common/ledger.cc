#include "ledger.hpp"
#include <cstdlib>
#include <cstring>
#include <sstream>

namespace vp {
Ledger L;
const char* const how_name[H_N] = {
    "default-construct", "value-construct", "value2-construct",
    "ilist-construct",   "copy-construct",  "move-construct",
    "nonconst-copy-construct", "greedy-construct",
    "copy-assign", "move-assign", "value-assign", "nonconst-assign"};

void Ledger::error(unsigned cat, const std::string& m) {
  // Keep every category seen in this step but only the first few messages.
  err_cat |= cat;
  if (err.size() < 2000) {
    if (!err.empty()) err += "; ";
    err += m;
  }
}
void Ledger::reset() {
  for (auto& b : blocks) std::free(reinterpret_cast<void*>(b.first));
  *this = Ledger();
}
void Ledger::fault_point(bool is_alloc) {
  if (!window) return;
  ++fault_points;
  bool fire = always_fail;
  if (fault_left > 0 && --fault_left == 0) fire = true;
  if (!fire) return;
  fired_id = next_id++;
  if (is_alloc) throw InjectedAlloc(fired_id);
  throw Injected{fired_id};
}
const Block* Ledger::block_of(const void* p, std::uintptr_t* base) const {
  auto a = reinterpret_cast<std::uintptr_t>(p);
  auto it = blocks.upper_bound(a);
  if (it == blocks.begin()) return nullptr;
  --it;
  if (a >= it->first && a < it->first + it->second.bytes) {
    if (base) *base = it->first;
    return &it->second;
  }
  return nullptr;
}
void* Ledger::allocate(std::size_t n, std::size_t size, std::size_t align,
                       int arena, const void* type, bool arrays) {
  if (n != 1 && !arrays) error(AUSE, "allocate called with n != 1");
  fault_point(true);
  void* p = nullptr;
  std::size_t a = align < sizeof(void*) ? sizeof(void*) : align;
  std::size_t bytes = n * size;
  if (posix_memalign(&p, a, bytes ? bytes : 1)) std::abort();
  std::memset(p, 0xA5, bytes);
  blocks[reinterpret_cast<std::uintptr_t>(p)] =
      Block{bytes, n, align, arena, type};
  if (window) ++win.alloc;
  return p;
}
void Ledger::deallocate(void* p, std::size_t n, std::size_t size, int arena,
                        bool any_arena, const void* type) {
  auto it = blocks.find(reinterpret_cast<std::uintptr_t>(p));
  if (window) ++win.dealloc;
  if (it == blocks.end()) {
    error(RES, "deallocate of a pointer that is not an allocated block");
    return;
  }
  const Block& b = it->second;
  if (b.n != n || b.bytes != n * size)
    error(RES, "deallocate with a different size than allocated");
  if (b.type != type)
    error(RES, "deallocate through a different value type than allocated");
  if (!any_arena && b.arena != arena) {
    std::ostringstream o;
    o << "block from arena " << b.arena << " deallocated by arena " << arena;
    error(RES | ALLOC, o.str());
  }
  auto lo = objects.lower_bound(it->first);
  if (lo != objects.end() && lo->first < it->first + b.bytes)
    error(RES, "block deallocated while it contains a live object");
  while (lo != objects.end() && lo->first < it->first + b.bytes)
    lo = objects.erase(lo);
  std::memset(p, 0xDD, b.bytes);
  std::free(p);
  blocks.erase(it);
}
void Ledger::born(const void* p, std::size_t size, int kind, How how) {
  auto a = reinterpret_cast<std::uintptr_t>(p);
  std::uintptr_t base = 0;
  const Block* b = block_of(p, &base);
  if (b && a + size > base + b->bytes)
    error(RES | AUSE, "object constructed across the end of its block");
  if (objects.count(a)) error(RES, "object constructed over a live object");
  bool by_alloc = acons_at == p;
  objects[a] = Object{kind, size, b != nullptr, by_alloc};
  if (window) {
    if (b)
      ++win.how[how];
    else
      ++win.out_ctor;
  }
  if (b && spy_construct && !by_alloc)
    error(AUSE, "owned object not constructed through the allocator");
}
void Ledger::died(const void* p, int kind) {
  auto it = objects.find(reinterpret_cast<std::uintptr_t>(p));
  if (it == objects.end()) {
    error(RES, "destruction of an object that is not alive");
    return;
  }
  if (it->second.kind != kind)
    error(RES | VALUE, "destructor of the wrong dynamic type");
  bool in_block = it->second.in_block;
  if (in_block && spy_construct && acons_at != p)
    error(AUSE, "owned object not destroyed through the allocator");
  objects.erase(it);
  if (window) {
    if (in_block)
      ++win.dtor;
    else
      ++win.out_dtor;
  }
}
void Ledger::assigned(const void* p, How how) {
  if (window) {
    if (block_of(p))
      ++win.how[how];
    else
      ++win.out_assign;
  }
}
void Ledger::check_live(const void* p, int kind, const char* what) {
  auto it = objects.find(reinterpret_cast<std::uintptr_t>(p));
  if (it == objects.end()) {
    error(RES, std::string(what) + ": object is not alive");
  } else if (it->second.kind != kind) {
    error(RES | VALUE, std::string(what) + ": object has a different type");
  }
}
}  // namespace vp
