// C10: allocators of many shapes. A short model-checked history is run over each
// (allocator, owned type) pair; storage and allocator hand-over are verified.
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <scoped_allocator>
#include <string>
#include <vector>
#if __cplusplus >= 201703L
#include <memory_resource>
#define PMR 1
#else
#define PMR 0
#endif

#include "alloc.hpp"
#include "hdr.hpp"
#include "prop.hpp"

namespace vp {
namespace {

// --- Allocators --------------------------------------------------------------

// Nothing but what is required: no default constructor, and not assignable.
template <class T>
struct MinAlloc {
  using value_type = T;
  const int arena;
  explicit MinAlloc(int a) : arena(a) {}
  template <class U>
  MinAlloc(const MinAlloc<U>& o) : arena(o.arena) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(L.allocate(n, sizeof(T), alignof(T), arena, &TypeId<T>::id));
  }
  void deallocate(T* p, std::size_t n) {
    L.deallocate(p, n, sizeof(T), arena, false, &TypeId<T>::id);
  }
  template <class U>
  bool operator==(const MinAlloc<U>& o) const { return arena == o.arena; }
  template <class U>
  bool operator!=(const MinAlloc<U>& o) const { return arena != o.arena; }
};

// A final, stateful one that may propagate everything.
template <class T>
struct FinalAlloc final {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::true_type;
  using propagate_on_container_move_assignment = std::true_type;
  using propagate_on_container_swap = std::true_type;
  int arena;
  explicit FinalAlloc(int a) : arena(a) {}
  template <class U>
  FinalAlloc(const FinalAlloc<U>& o) : arena(o.arena) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(L.allocate(n, sizeof(T), alignof(T), arena, &TypeId<T>::id));
  }
  void deallocate(T* p, std::size_t n) {
    L.deallocate(p, n, sizeof(T), arena, false, &TypeId<T>::id);
  }
  template <class U>
  bool operator==(const FinalAlloc<U>& o) const { return arena == o.arena; }
  template <class U>
  bool operator!=(const FinalAlloc<U>& o) const { return arena != o.arena; }
};

// Propagates on swap only: it is swappable, by its own swap, but not assignable.
template <class T>
struct SwapAlloc {
  using value_type = T;
  using propagate_on_container_swap = std::true_type;
  int arena;
  explicit SwapAlloc(int a) : arena(a) {}
  SwapAlloc(const SwapAlloc&) = default;
  SwapAlloc& operator=(const SwapAlloc&) = delete;
  template <class U>
  SwapAlloc(const SwapAlloc<U>& o) : arena(o.arena) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(L.allocate(n, sizeof(T), alignof(T), arena, &TypeId<T>::id));
  }
  void deallocate(T* p, std::size_t n) {
    L.deallocate(p, n, sizeof(T), arena, false, &TypeId<T>::id);
  }
  friend void swap(SwapAlloc& a, SwapAlloc& b) noexcept { std::swap(a.arena, b.arena); }
  template <class U>
  bool operator==(const SwapAlloc<U>& o) const { return arena == o.arena; }
  template <class U>
  bool operator!=(const SwapAlloc<U>& o) const { return arena != o.arena; }
};

// Propagates on move assignment only: it is move assignable but not copy
// assignable.
template <class T>
struct MoveAlloc {
  using value_type = T;
  using propagate_on_container_move_assignment = std::true_type;
  int arena;
  explicit MoveAlloc(int a) : arena(a) {}
  MoveAlloc(const MoveAlloc&) = default;
  MoveAlloc& operator=(MoveAlloc&&) = default;
  template <class U>
  MoveAlloc(const MoveAlloc<U>& o) : arena(o.arena) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(L.allocate(n, sizeof(T), alignof(T), arena, &TypeId<T>::id));
  }
  void deallocate(T* p, std::size_t n) {
    L.deallocate(p, n, sizeof(T), arena, false, &TypeId<T>::id);
  }
  template <class U>
  bool operator==(const MoveAlloc<U>& o) const { return arena == o.arena; }
  template <class U>
  bool operator!=(const MoveAlloc<U>& o) const { return arena != o.arena; }
};

// Rebinds through a nested member template, takes explicit conversions, and has
// construct/destroy that count.
struct CountCD {
  long construct = 0, destroy = 0;
};
CountCD cd;
template <class T, int Tag>
struct TagAlloc {
  using value_type = T;
  template <class U>
  struct rebind {
    using other = TagAlloc<U, Tag>;
  };
  int arena;
  explicit TagAlloc(int a) : arena(a) {}
  template <class U>
  TagAlloc(const TagAlloc<U, Tag>& o) : arena(o.arena) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(L.allocate(n, sizeof(T), alignof(T), arena, &TypeId<T>::id,
                                      std::is_same<T, int>::value));
  }
  void deallocate(T* p, std::size_t n) {
    L.deallocate(p, n, sizeof(T), arena, false, &TypeId<T>::id);
  }
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    AllocScope scope(p);
    ::new (static_cast<void*>(p)) U(std::forward<As>(as)...);
    if (is_tracked<U>::value) ++cd.construct;
  }
  template <class U>
  void destroy(U* p) {
    AllocScope scope(p);
    if (is_tracked<U>::value) ++cd.destroy;
    p->~U();
  }
  template <class U>
  bool operator==(const TagAlloc<U, Tag>& o) const { return arena == o.arena; }
  template <class U>
  bool operator!=(const TagAlloc<U, Tag>& o) const { return arena != o.arena; }
};

#if PMR
struct Resource : std::pmr::memory_resource {
  int id = 0;
  long allocs = 0, live = 0;
  std::map<void*, std::pair<std::size_t, std::size_t>> blocks;
  void* do_allocate(std::size_t n, std::size_t a) override {
    ++allocs;
    ++live;
    void* p = nullptr;
    if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) std::abort();
    std::memset(p, 0xA5, n);
    blocks[p] = {n, a};
    return p;
  }
  void do_deallocate(void* p, std::size_t n, std::size_t a) override {
    auto it = blocks.find(p);
    if (it == blocks.end()) {
      L.error(RES | ALLOC, "block returned to a resource that did not provide it");
      return;
    }
    if (it->second != std::make_pair(n, a))
      L.error(RES | ALLOC, "block returned with a different size or alignment");
    --live;
    blocks.erase(it);
    std::free(p);
  }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
Resource resources[3];
// Anything that goes to the default resource was not given the allocator.
struct TrapResource : std::pmr::memory_resource {
  void* do_allocate(std::size_t n, std::size_t) override {
    L.error(AUSE, "owned type allocated from the default resource");
    return std::malloc(n ? n : 1);
  }
  void do_deallocate(void* p, std::size_t, std::size_t) override { std::free(p); }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
TrapResource trap;
#endif

// --- Owned types -------------------------------------------------------------

struct Base {
  static constexpr bool vp_tracked = true;
  virtual ~Base() = default;
  Base() = default;
  Base(const Base&) = default;
  virtual int value() const = 0;
  virtual void set(int) = 0;
  virtual bool intact() const = 0;
  virtual int nested_arena() const { return -1; }  // allocator held by the value
};

template <int Size, int Align>
struct alignas(Align) Sized
#if VP_POLY
    : Base
#endif
{
  static constexpr bool vp_tracked = true;
  unsigned char fill[Size];
  int v;
  explicit Sized(int x) : v(x) {
    std::memset(fill, x & 0xff, Size);
    L.born(this, sizeof *this, Size, H_VAL);
    if (reinterpret_cast<std::uintptr_t>(this) % Align)
      L.error(AUSE, "owned object is not aligned");
  }
  Sized(const Sized& o)
#if VP_POLY
      : Base(o)
#endif
  {
    L.check_live(&o, Size, "copy");
    v = o.v;
    std::memcpy(fill, o.fill, Size);
    L.born(this, sizeof *this, Size, H_COPY);
    if (reinterpret_cast<std::uintptr_t>(this) % Align)
      L.error(AUSE, "owned object is not aligned");
  }
  Sized& operator=(const Sized& o) {
    v = o.v;
    std::memcpy(fill, o.fill, Size);
    return *this;
  }
  ~Sized() { L.died(this, Size); }
  int value() const { return v; }
  void set(int x) {
    v = x;
    std::memset(fill, x & 0xff, Size);
  }
  bool intact() const {
    for (unsigned char ch : fill)
      if (ch != static_cast<unsigned char>(v & 0xff)) return false;
    return true;
  }
  int nested_arena() const { return -1; }
};

// A value that is itself allocator aware (uses-allocator construction).
template <class VecAlloc>
struct Aware
#if VP_POLY
    : Base
#endif
{
  static constexpr bool vp_tracked = true;
  using allocator_type = VecAlloc;
  std::vector<int, VecAlloc> d;
  Aware(int x, const VecAlloc& a) : d(a) { set(x); }
  Aware(const Aware& o, const VecAlloc& a) : d(o.d, a) {}
  Aware(Aware&& o, const VecAlloc& a) : d(std::move(o.d), a) {}
  // Used for type checks only: constructing without an allocator is an error.
  explicit Aware(int x) : Aware(x, L_bad()) {}
  Aware(const Aware& o)
#if VP_POLY
      : Base(o),
        d(o.d.get_allocator())
#else
      : d(o.d.get_allocator())
#endif
  {
    L.error(AUSE, "allocator-aware owned type was copied without the allocator");
  }
  Aware& operator=(const Aware&) = default;
  static VecAlloc L_bad() {
    L.error(AUSE, "allocator-aware owned type was built without the allocator");
    return VecAlloc(0);
  }
  int value() const { return d.empty() ? -2 : d[0]; }
  void set(int x) { d.assign(static_cast<std::size_t>(3 + x % 5), x); }
  bool intact() const {
    for (int x : d)
      if (x != d[0]) return false;
    return true;
  }
  int nested_arena() const { return d.get_allocator().arena; }
};
#if PMR
struct PmrAware
#if VP_POLY
    : Base
#endif
{
  static constexpr bool vp_tracked = true;
  using allocator_type = std::pmr::polymorphic_allocator<char>;
  std::pmr::string s;
  std::pmr::vector<int> d;
  explicit PmrAware(int x, allocator_type a = {}) : s(a), d(a) { set(x); }
  PmrAware(const PmrAware& o, allocator_type a = {}) : s(o.s, a), d(o.d, a) {}
  PmrAware(PmrAware&& o, allocator_type a)
      : s(std::move(o.s), a), d(std::move(o.d), a) {}
  PmrAware& operator=(const PmrAware&) = default;
  int value() const { return d.empty() ? -2 : d[0]; }
  void set(int x) {
    s = "a string that does not fit into the small buffer";
    d.assign(3, x);
  }
  bool intact() const { return d.size() == 3 && d[0] == d[2] && s.size() > 20; }
  int nested_arena() const {
    auto* r = dynamic_cast<Resource*>(d.get_allocator().resource());
    auto* q = dynamic_cast<Resource*>(s.get_allocator().resource());
    return r && r == q ? r->id : -9;
  }
};
#endif

// --- Handles -----------------------------------------------------------------

#if VP_POLY
template <class T>
using Static = Base;
template <class T, class A>
using Handle = xyz::polymorphic<Base, A>;
template <class T, class A>
Handle<T, A>* make_handle(const A& a, int v) {
  return new Handle<T, A>(std::allocator_arg, a, VP_IN_PLACE_TYPE(T), v);
}
#else
template <class T>
using Static = T;
template <class T, class A>
using Handle = xyz::indirect<T, A>;
template <class T, class A>
Handle<T, A>* make_handle(const A& a, int v) {
  return new Handle<T, A>(std::allocator_arg, a, VP_IN_PLACE, v);
}
#endif

template <class A>
struct AllocOf {
  static A make(int i) { return A(i); }
  static int arena(const A& a) { return a.arena; }
};
template <class A>
struct AllocOf<std::scoped_allocator_adaptor<A>> {
  using S = std::scoped_allocator_adaptor<A>;
  static S make(int i) { return S(A(i)); }
  static int arena(const S& a) { return a.outer_allocator().arena; }
};
#if PMR
template <class T>
struct AllocOf<std::pmr::polymorphic_allocator<T>> {
  using S = std::pmr::polymorphic_allocator<T>;
  static S make(int i) { return S(&resources[i]); }
  static int arena(const S& a) {
    auto* r = dynamic_cast<Resource*>(a.resource());
    return r ? r->id : -9;
  }
};
#endif

template <class T, class A, bool Aware_>
void zoo(Ctx& c, const char* name) {
  using H = Handle<T, A>;
  using AT = std::allocator_traits<A>;
  struct Slot {
    std::unique_ptr<H> h;
    bool full = false;
    int v = 0, arena = 0;
  };
  Slot s[4];
  auto any = [&](int i) { return s[i].h != nullptr; };
  auto verify = [&](int i) {
    Slot& x = s[i];
    if (!any(i)) return;
    const H& h = *x.h;
    A got = h.get_allocator();
    if (!c.check(AllocOf<A>::arena(got) == x.arena, "handle's allocator")) return;
    if (!c.check(h.valueless_after_move() == !x.full, "valueless state")) return;
    if (!x.full) return;
    c.check(h->value() == x.v, "value");
    c.check(h->intact(), "object is intact");
    if (Aware_)
      c.check(h->nested_arena() == x.arena,
              "allocator-aware value holds the handle's allocator",
              [&](std::ostream& o) { o << h->nested_arena() << " not " << x.arena; });
  };
  const long c0 = cd.construct, d0 = cd.destroy;
  int n = 2 + c.below(20), interesting = 0;
  for (int k = 0; k < n && !c.failed; ++k) {
    int i = c.below(4), j = c.below(4), op = c.below(9), arena = c.below(3),
        v = c.below(100);
    if (!any(i)) op = 0;
    if (op >= 1 && op <= 6 && !any(j)) continue;
    switch (op) {
      case 0:
        s[i].h.reset(make_handle<T, A>(AllocOf<A>::make(arena), v));
        s[i].full = true;
        s[i].v = v;
        s[i].arena = arena;
        break;
      case 1: {
        if (i == j) break;
        const H& src = *s[j].h;
        s[i].h.reset(new H(std::allocator_arg, AllocOf<A>::make(arena), src));
        s[i].full = s[j].full;
        s[i].v = s[j].v;
        s[i].arena = arena;
        interesting += arena != s[j].arena;
        break;
      }
      case 2: {
        if (i == j) break;
        bool same = arena == s[j].arena;
        s[i].h.reset(new H(std::allocator_arg, AllocOf<A>::make(arena),
                           std::move(*s[j].h)));
        s[i].full = s[j].full;
        s[i].v = s[j].v;
        s[i].arena = arena;
        interesting += !same;
        // After an unequal transfer the source's value is unspecified.
        if (same) s[j].full = false;
        else if (s[j].full) {
          s[j].h.reset();
          s[j].full = false;
        }
        break;
      }
      case 3: {
        if (i == j) break;
        s[i].h.reset(new H(std::move(*s[j].h)));
        s[i].full = s[j].full;
        s[i].v = s[j].v;
        s[i].arena = s[j].arena;
        s[j].full = false;
        break;
      }
      case 4: {
        const H& src = *s[j].h;
        *s[i].h = src;
        s[i].full = s[j].full;
        s[i].v = s[j].v;
        interesting += s[i].arena != s[j].arena;
        if (AT::propagate_on_container_copy_assignment::value) s[i].arena = s[j].arena;
        break;
      }
      case 5: {
        if (i == j) break;
        bool same = s[i].arena == s[j].arena;
        *s[i].h = std::move(*s[j].h);
        s[i].full = s[j].full;
        s[i].v = s[j].v;
        interesting += !same;
        if (AT::propagate_on_container_move_assignment::value) s[i].arena = s[j].arena;
        if (same) s[j].full = false;
        else if (s[j].full) {
          s[j].h.reset();
          s[j].full = false;
        }
        break;
      }
      case 6: {
        if (s[i].arena != s[j].arena && !AT::propagate_on_container_swap::value) break;
        using std::swap;
        swap(*s[i].h, *s[j].h);
        if (i != j) {
          std::swap(s[i].full, s[j].full);
          std::swap(s[i].v, s[j].v);
          std::swap(s[i].arena, s[j].arena);
        }
        break;
      }
      case 7:
        if (!s[i].full) break;
        (**s[i].h).set(v);
        s[i].v = v;
        break;
      default:
        s[i].h.reset();
        s[i].full = false;
    }
    for (int q = 0; q < 4; ++q) verify(q);
  }
  for (auto& x : s) x.h.reset();
  c.check(cd.construct - c0 == cd.destroy - d0,
          "as many objects destroyed as constructed through the allocator");
  c << name << " operations " << n << " with differing allocators " << interesting;
  if (interesting) c.nontrivial();
#if PMR
  for (auto& r : resources)
    if (!c.check(r.live == 0, "memory resource still owns blocks")) r.live = 0;
#endif
}

}  // namespace
}  // namespace vp
using namespace vp;

VP_SUITE(minimal_sizes, 6) {
  const int pick = c.below(7);
  switch (pick) {
    case 0: zoo<Sized<1, VP_POLY ? 8 : 4>, MinAlloc<Static<Sized<1, VP_POLY ? 8 : 4>>>, false>(c, "minimal 1"); break;
    case 1: zoo<Sized<7, 8>, MinAlloc<Static<Sized<7, 8>>>, false>(c, "minimal 7/8"); break;
    case 2: zoo<Sized<16, 16>, MinAlloc<Static<Sized<16, 16>>>, false>(c, "minimal 16/16"); break;
    case 3: zoo<Sized<33, 32>, MinAlloc<Static<Sized<33, 32>>>, false>(c, "minimal 33/32"); break;
    case 4: zoo<Sized<100, 64>, MinAlloc<Static<Sized<100, 64>>>, false>(c, "minimal 100/64"); break;
    case 5: zoo<Sized<5, 1024>, MinAlloc<Static<Sized<5, 1024>>>, false>(c, "minimal 5/1024"); break;
    default: zoo<Sized<3000, 8>, MinAlloc<Static<Sized<3000, 8>>>, false>(c, "minimal 3000/8");
  }
}
VP_SUITE(final_propagating, 3) {
  if (c.below(2)) zoo<Sized<24, 8>, FinalAlloc<Static<Sized<24, 8>>>, false>(c, "final 24/8");
  else zoo<Sized<5, 128>, FinalAlloc<Static<Sized<5, 128>>>, false>(c, "final 5/128");
}
VP_SUITE(partly_propagating, 3) {
  switch (c.below(4)) {
    case 0: zoo<Sized<24, 8>, SwapAlloc<Static<Sized<24, 8>>>, false>(c, "swap 24/8"); break;
    case 1: zoo<Sized<40, 16>, SwapAlloc<Static<Sized<40, 16>>>, false>(c, "swap 40/16"); break;
    case 2: zoo<Sized<24, 8>, MoveAlloc<Static<Sized<24, 8>>>, false>(c, "move 24/8"); break;
    default: zoo<Sized<40, 16>, MoveAlloc<Static<Sized<40, 16>>>, false>(c, "move 40/16");
  }
}
VP_SUITE(counted_construct, 3) {
  L.spy_construct = true;  // every owned object must go through the allocator
  if (c.below(2)) zoo<Sized<24, 8>, TagAlloc<Static<Sized<24, 8>>, 7>, false>(c, "tag 24/8");
  else zoo<Sized<2, 256>, TagAlloc<Static<Sized<2, 256>>, 9>, false>(c, "tag 2/256");
}
VP_SUITE(scoped, 4) {
  using W = Aware<TagAlloc<int, 3>>;
  zoo<W, std::scoped_allocator_adaptor<TagAlloc<Static<W>, 3>>, true>(c, "scoped");
}
#if PMR
VP_SUITE(pmr, 5) {
  for (int i = 0; i < 3; ++i) resources[i].id = i;
  std::pmr::memory_resource* old = std::pmr::set_default_resource(&trap);
  if (c.below(3))
    zoo<PmrAware, std::pmr::polymorphic_allocator<Static<PmrAware>>, true>(c, "pmr aware");
  else
    zoo<Sized<24, 64>, std::pmr::polymorphic_allocator<Static<Sized<24, 64>>>, false>(c, "pmr sized");
  std::pmr::set_default_resource(old);
}
#endif
#if __cplusplus >= 201703L
VP_SUITE(std_allocator_overaligned, 2) {
  struct G {
    static Handle<Sized<9, 64>, std::allocator<Static<Sized<9, 64>>>> a(int v) {
#if VP_POLY
      return Handle<Sized<9, 64>, std::allocator<Base>>(VP_IN_PLACE_TYPE(Sized<9, 64>), v);
#else
      return Handle<Sized<9, 64>, std::allocator<Sized<9, 64>>>(VP_IN_PLACE, v);
#endif
    }
  };
  int n = 1 + c.below(6);
  using H = decltype(G::a(0));
  std::vector<H> v;
  std::vector<int> m;
  for (int i = 0; i < n; ++i) {
    int x = c.below(200);
    m.push_back(x);
    v.push_back(G::a(x));
    if (c.below(3) == 0) {
      v.push_back(H(v[static_cast<std::size_t>(c.below(static_cast<int>(v.size())))]));
      m.push_back(v.back()->value());
    }
  }
  for (std::size_t i = 0; i < v.size(); ++i)
    c.check(v[i]->value() == m[i] && v[i]->intact(), "value");
  c << "std::allocator over-aligned x" << v.size();
  if (v.size() > 1) c.nontrivial();
}
#endif
