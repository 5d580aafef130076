// C14: what is promised not to throw is noexcept and does not throw.
#include <memory>
#include <type_traits>
#include <vector>

#include "alloc.hpp"
#include "hdr.hpp"
#include "prop.hpp"

namespace vp {
namespace {
bool armed = false;
long thrown = 0;
struct Boom {};
void maybe() {
  if (armed) {
    ++thrown;
    throw Boom{};
  }
}
// Everything but the destructor throws when armed, and nothing is noexcept.
struct Fragile {
  int v;
  explicit Fragile(int x = 0) noexcept(false) : v(x) { maybe(); }
  Fragile(const Fragile& o) noexcept(false) : v(o.v) { maybe(); }
  Fragile(Fragile&& o) noexcept(false) : v(o.v) {
    maybe();
    o.v = -1;
  }
  Fragile& operator=(const Fragile& o) noexcept(false) {
    maybe();
    v = o.v;
    return *this;
  }
  Fragile& operator=(Fragile&& o) noexcept(false) {
    maybe();
    v = o.v;
    o.v = -1;
    return *this;
  }
  virtual ~Fragile() { v = -2; }
  friend bool operator==(const Fragile& a, const Fragile& b) {
    maybe();
    return a.v == b.v;
  }
  Fragile* operator&() noexcept(false) {
    maybe();
    return this;
  }
};
void swap(Fragile& a, Fragile& b) noexcept(false) {
  maybe();
  std::swap(a.v, b.v);
}
struct Solid {  // nothing throws: noexcept must not depend on the owned type
  int v = 0;
  virtual ~Solid() = default;
};

// All propagation traits; allocation throws when armed.
template <class T, bool CA, bool MA, bool S, bool AE>
struct FailAlloc {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, CA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, MA>;
  using propagate_on_container_swap = std::integral_constant<bool, S>;
  using is_always_equal = std::integral_constant<bool, AE>;
  template <class U>
  struct rebind {
    using other = FailAlloc<U, CA, MA, S, AE>;
  };
  int id = 0;
  FailAlloc() = default;
  explicit FailAlloc(int i) : id(i) {}
  template <class U>
  FailAlloc(const FailAlloc<U, CA, MA, S, AE>& o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) {
    maybe();
    return std::allocator<T>().allocate(n);
  }
  void deallocate(T* p, std::size_t n) noexcept { std::allocator<T>().deallocate(p, n); }
  friend bool operator==(const FailAlloc& a, const FailAlloc& b) noexcept {
    return AE || a.id == b.id;
  }
  friend bool operator!=(const FailAlloc& a, const FailAlloc& b) noexcept { return !(a == b); }
};

#if VP_POLY
template <class T, class A>
using Handle = xyz::polymorphic<T, A>;
#else
template <class T, class A>
using Handle = xyz::indirect<T, A>;
#endif

#define FACT(...) c.check((__VA_ARGS__), "noexcept fact", [&](std::ostream& o) { \
  o << what << ": " << #__VA_ARGS__; })
template <class T, class A>
void facts_for(Ctx& c, const char* what) {
  using H = Handle<T, A>;
  using Tr = std::allocator_traits<A>;
  const bool ae = Tr::is_always_equal::value;
  const bool ma = Tr::propagate_on_container_move_assignment::value;
  const bool sw = Tr::propagate_on_container_swap::value;
  using std::declval;
  using std::swap;
  FACT(noexcept(*declval<H&>()) && noexcept(*declval<const H&>()));
  FACT(noexcept(*declval<H>()) && noexcept(*declval<const H>()));
  FACT(noexcept(declval<H&>().operator->()) && noexcept(declval<const H&>().operator->()));
  FACT(noexcept(declval<const H&>().valueless_after_move()));
  FACT(noexcept(declval<const H&>().get_allocator()));
  FACT(std::is_nothrow_destructible<H>::value);
  if (ae) {
    FACT(std::is_nothrow_move_constructible<H>::value);
    FACT(std::is_nothrow_constructible<H, std::allocator_arg_t, const A&, H>::value);
  } else {
    FACT(!std::is_nothrow_constructible<H, std::allocator_arg_t, const A&, H>::value);
  }
  FACT(std::is_nothrow_move_assignable<H>::value == (ma || ae));
  if (sw || ae) {
    FACT(noexcept(declval<H&>().swap(declval<H&>())));
    FACT(noexcept(swap(declval<H&>(), declval<H&>())));
  }
  FACT(!std::is_nothrow_copy_constructible<H>::value);
  FACT(!std::is_nothrow_copy_assignable<H>::value);
  FACT(!std::is_nothrow_constructible<H, std::allocator_arg_t, const A&, const H&>::value);
}
template <class T>
void matrix(Ctx& c) {
  facts_for<T, FailAlloc<T, false, false, false, false>>(c, "no propagation");
  facts_for<T, FailAlloc<T, true, false, false, false>>(c, "pocca");
  facts_for<T, FailAlloc<T, false, true, false, false>>(c, "pocma");
  facts_for<T, FailAlloc<T, false, false, true, false>>(c, "pocs");
  facts_for<T, FailAlloc<T, true, true, false, false>>(c, "pocca pocma");
  facts_for<T, FailAlloc<T, true, false, true, false>>(c, "pocca pocs");
  facts_for<T, FailAlloc<T, false, true, true, false>>(c, "pocma pocs");
  facts_for<T, FailAlloc<T, true, true, true, false>>(c, "all propagate");
  facts_for<T, FailAlloc<T, false, false, false, true>>(c, "always equal");
  facts_for<T, FailAlloc<T, true, false, false, true>>(c, "always equal pocca");
  facts_for<T, FailAlloc<T, false, true, false, true>>(c, "always equal pocma");
  facts_for<T, FailAlloc<T, false, false, true, true>>(c, "always equal pocs");
  facts_for<T, FailAlloc<T, true, true, true, true>>(c, "always equal, all propagate");
  facts_for<T, std::allocator<T>>(c, "std::allocator");
}
VP_SUITE(facts, 0) {
  c.nontrivial();
  c << "noexcept facts over the allocator matrix";
  matrix<Fragile>(c);
  matrix<Solid>(c);
}

struct Armed {
  Armed() { armed = true; }
  ~Armed() { armed = false; }
};

template <class A>
void histories(Ctx& c, bool always_equal) {
  using H = Handle<Fragile, A>;
  // Plain values and allocator ids; -1000: valueless.
  struct Slot {
    std::unique_ptr<H> h;
    int v;
  };
  std::vector<Slot> s;
  const int n = c.range(2, 4);
  for (int i = 0; i < n; ++i) {
    const int id = always_equal ? c.below(3) : 1;
#if VP_POLY
    s.push_back({std::unique_ptr<H>(new H(std::allocator_arg, A(id), VP_IN_PLACE_TYPE(Fragile), i * 10)), i * 10});
#else
    s.push_back({std::unique_ptr<H>(new H(std::allocator_arg, A(id), VP_IN_PLACE, i * 10)), i * 10});
#endif
  }
  const int ops = c.range(3, 25);
  c << ops << " moves and swaps over " << n << " handles, everything throws";
  thrown = 0;
  bool used_valueless = false;
  std::vector<std::unique_ptr<H>> spare;
  spare.reserve(64);
  for (int k = 0; k < ops && !c.failed; ++k) {
    const int a = c.below(n), b = c.below(n), op = c.below(6), id = c.below(3);
    used_valueless = used_valueless || s[a].v == -1000 || s[b].v == -1000;
    void* room = ::operator new(sizeof(H));
    try {
      Armed on;
      switch (op) {
        case 0:
          *s[a].h = std::move(*s[b].h);
          if (a != b) {
            s[a].v = s[b].v;
            s[b].v = -1000;
          }
          break;
        case 1:
          s[a].h->swap(*s[b].h);
          std::swap(s[a].v, s[b].v);
          break;
        case 2: {
          using std::swap;
          swap(*s[a].h, *s[b].h);
          std::swap(s[a].v, s[b].v);
          break;
        }
        case 3: {  // move construct and move back
          H t(std::move(*s[a].h));
          c.check(s[a].h->valueless_after_move(), "moved-from is valueless");
          *s[a].h = std::move(t);
          break;
        }
        case 4: {
          H t(std::allocator_arg, A(always_equal ? id : 1), std::move(*s[a].h));
          c.check(s[a].h->valueless_after_move(), "moved-from is valueless");
          if (a != b) s[b].v = s[a].v, s[a].v = -1000;
          *s[b].h = std::move(t);
          break;
        }
        default: {  // a new handle replaces the old one, which is destroyed
          H* t = ::new (room) H(std::move(*s[a].h));
          room = nullptr;
          s[a].h.reset(t);
        }
      }
    } catch (const Boom&) {
      armed = false;
      c.fail("an operation promised not to throw threw");
    }
    ::operator delete(room);
    c.check(thrown == 0, "an operation of the owned type or an allocation was attempted");
    for (auto& x : s) {
      const H& h = *x.h;
      c.check(h.valueless_after_move() == (x.v == -1000) && (x.v == -1000 || h->v == x.v),
              "values after moves and swaps", [&](std::ostream& o) { o << "operation " << op; });
    }
  }
  if (used_valueless) c.nontrivial(), c.cls("valueless handles took part");
}
VP_SUITE(failing_environment, 8) {
  switch (c.below(6)) {
    case 0: histories<FailAlloc<Fragile, false, false, false, true>>(c, true); break;
    case 1: histories<FailAlloc<Fragile, true, true, true, true>>(c, true); break;
    case 2: histories<FailAlloc<Fragile, false, false, false, false>>(c, false); break;
    case 3: histories<FailAlloc<Fragile, false, true, false, false>>(c, false); break;
    case 4: histories<FailAlloc<Fragile, false, false, true, false>>(c, false); break;
    default: histories<FailAlloc<Fragile, true, true, true, false>>(c, false); break;
  }
}

// Containers move such handles, because moving is known not to throw.
VP_SUITE(growth, 3) {
  using H = Handle<Fragile, std::allocator<Fragile>>;
  const int n = c.range(1, 40);
  c << "a vector growing to " << n;
  if (n > 2) c.nontrivial();
  std::vector<H> v;
  for (int i = 0; i < n; ++i) {
#if VP_POLY
    v.emplace_back(VP_IN_PLACE_TYPE(Fragile), i);
#else
    v.emplace_back(VP_IN_PLACE, i);
#endif
  }
  thrown = 0;
  try {
    Armed on;
    const std::size_t cap = v.capacity();
    v.reserve(cap * 2 + 1);
    if (n > 1) v.erase(v.begin() + c.below(n - 1));
  } catch (const Boom&) {
    armed = false;
    c.fail("growing a vector of handles copied or moved owned objects");
  }
  c.check(thrown == 0, "growing a vector of handles copied or moved owned objects");
}

}  // namespace
}  // namespace vp
