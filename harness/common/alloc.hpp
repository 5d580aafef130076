// A spying allocator whose propagation traits are template parameters.
// Two allocators are equal iff they have the same arena; the label is carried
// along but never compared, so that "equal but distinguishable" is observable.
#ifndef VP_ALLOC_HPP
#define VP_ALLOC_HPP
#include <memory>
#include <type_traits>
#include <utility>

#include "ledger.hpp"

namespace vp {

template <bool CA, bool MA, bool S, bool AE, bool SC, bool K>
struct Cfg {
  static constexpr bool pocca = CA, pocma = MA, pocs = S, ae = AE, socc = SC,
                        cons = K;
};

template <class T>
struct TypeId {
  static const char id;
};
template <class T>
const char TypeId<T>::id = 0;

template <class U, class = void>
struct is_tracked : std::false_type {};
template <class U>
struct is_tracked<U, typename std::enable_if<U::vp_tracked>::type>
    : std::true_type {};

// Types whose construct and destroy calls are counted. (The handle's own
// structures may or may not be built through the allocator.)
template <class U>
struct counts_calls : is_tracked<U> {};

template <class T, class C>
struct SpyAlloc;

// construct/destroy members, present only in some configurations.
template <class Derived, bool On>
struct SpyConstruct {};
template <class Derived>
struct SpyConstruct<Derived, true> {
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    AllocScope s(p);
    ::new (static_cast<void*>(p)) U(std::forward<As>(as)...);
    if (counts_calls<U>::value && L.window) ++L.win.acons;
  }
  template <class U>
  void destroy(U* p) {
    AllocScope s(p);
    if (counts_calls<U>::value && L.window) ++L.win.adest;
    p->~U();
  }
};

// select_on_container_copy_construction, present only in some configurations.
template <class Derived, bool On>
struct SpySelect {};
template <class Derived>
struct SpySelect<Derived, true> {
  Derived select_on_container_copy_construction() const {
    const Derived& d = static_cast<const Derived&>(*this);
    Derived r(d);
    r.label = d.label + 1000;
    if (!Derived::config::ae) r.arena = d.arena % 3 + 7;
    return r;
  }
};

template <class T, class C>
struct SpyAlloc : SpyConstruct<SpyAlloc<T, C>, C::cons>,
                  SpySelect<SpyAlloc<T, C>, C::socc> {
  using value_type = T;
  using config = C;
  using propagate_on_container_copy_assignment =
      std::integral_constant<bool, C::pocca>;
  using propagate_on_container_move_assignment =
      std::integral_constant<bool, C::pocma>;
  using propagate_on_container_swap = std::integral_constant<bool, C::pocs>;
  using is_always_equal = std::integral_constant<bool, C::ae>;
  template <class U>
  struct rebind {
    using other = SpyAlloc<U, C>;
  };

  int arena = 0;
  int label = 0;

  SpyAlloc() = default;
  SpyAlloc(int a, int l) : arena(C::ae ? 0 : a), label(l) {}
  SpyAlloc(const SpyAlloc&) = default;
  SpyAlloc& operator=(const SpyAlloc&) = default;
  template <class U>
  SpyAlloc(const SpyAlloc<U, C>& o) noexcept : arena(o.arena), label(o.label) {}

  T* allocate(std::size_t n) {
    return static_cast<T*>(
        L.allocate(n, sizeof(T), alignof(T), arena, &TypeId<T>::id));
  }
  void deallocate(T* p, std::size_t n) {
    L.deallocate(p, n, sizeof(T), arena, C::ae, &TypeId<T>::id);
  }
  friend bool operator==(const SpyAlloc& a, const SpyAlloc& b) noexcept {
    return C::ae || a.arena == b.arena;
  }
  friend bool operator!=(const SpyAlloc& a, const SpyAlloc& b) noexcept {
    return !(a == b);
  }
};

// Always equal and without state, so that handles are as small as a pointer.
template <bool CA, bool MA, bool S, bool K>
struct EmptyCfg {
  static constexpr bool pocca = CA, pocma = MA, pocs = S, ae = true, socc = false,
                        cons = K;
};
template <class T, class C>
struct EmptyAlloc : SpyConstruct<EmptyAlloc<T, C>, C::cons> {
  using value_type = T;
  using propagate_on_container_copy_assignment =
      std::integral_constant<bool, C::pocca>;
  using propagate_on_container_move_assignment =
      std::integral_constant<bool, C::pocma>;
  using propagate_on_container_swap = std::integral_constant<bool, C::pocs>;
  using is_always_equal = std::true_type;
  template <class U>
  struct rebind {
    using other = EmptyAlloc<U, C>;
  };
  EmptyAlloc() = default;
  template <class U>
  EmptyAlloc(const EmptyAlloc<U, C>&) noexcept {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(L.allocate(n, sizeof(T), alignof(T), 0, &TypeId<T>::id));
  }
  void deallocate(T* p, std::size_t n) {
    L.deallocate(p, n, sizeof(T), 0, true, &TypeId<T>::id);
  }
  friend bool operator==(const EmptyAlloc&, const EmptyAlloc&) noexcept { return true; }
  friend bool operator!=(const EmptyAlloc&, const EmptyAlloc&) noexcept { return false; }
};
// std::allocator itself; its blocks are seen through operator new (new_hook.cc).
struct StdCfg {
  static constexpr bool pocca = false, pocma = true, pocs = false, ae = true,
                        socc = false, cons = false;
};

template <class T, class C>
struct AllocFor_ {
  using type = SpyAlloc<T, C>;
};
template <class T, bool CA, bool MA, bool S, bool K>
struct AllocFor_<T, EmptyCfg<CA, MA, S, K>> {
  using type = EmptyAlloc<T, EmptyCfg<CA, MA, S, K>>;
};
template <class T>
struct AllocFor_<T, StdCfg> {
  using type = std::allocator<T>;
};
template <class T, class C>
using AllocFor = typename AllocFor_<T, C>::type;

template <class A, bool Empty = std::is_empty<A>::value>
struct AllocMake {
  static A get(int arena, int label) { return A(arena, label); }
  static int arena(const A& a) { return a.arena; }
  static int label(const A& a) { return a.label; }
};
template <class A>
struct AllocMake<A, true> {
  static A get(int, int) { return A(); }
  static int arena(const A&) { return 0; }
  static int label(const A&) { return 0; }
};
}  // namespace vp
#endif
