// Binds the engine to one header of the code under test.
//   VP_HEADER  "indirect.h" ...   VP_POLY 0/1   VP_CXX14 0/1
//   VP_PART    which slice of the configuration list to instantiate (optional)
#include "engine.hpp"

#include <cmath>
#include <cstring>
#include <memory>
#include <utility>

#include VP_HEADER

#include "alloc.hpp"
#include "payload.hpp"
#include "plain.hpp"

namespace vp {

template <class H>
struct Slots {
  alignas(H) unsigned char raw[SLOTS][sizeof(H)];
  Slots() { std::memset(raw, 0xC3, sizeof raw); }
  void* at(int i) { return raw[i]; }
  H& h(int i) { return *reinterpret_cast<H*>(raw[i]); }
  void gone(int i) { std::memset(raw[i], 0xC3, sizeof raw[i]); }
};

#if VP_CXX14
#define VP_IN_PLACE xyz::in_place_t{}
#define VP_IN_PLACE_TYPE(U) xyz::in_place_type_t<U>{}
#else
#define VP_IN_PLACE std::in_place
#define VP_IN_PLACE_TYPE(U) std::in_place_type<U>
#endif

template <class H, class A, class C, bool Copyable = true, bool Assignable = Copyable>
struct Common : Iface {
  Slots<H> S;

  Traits base_traits() const {
    Traits t;
    t.pocca = C::pocca;
    t.pocma = C::pocma;
    t.pocs = C::pocs;
    t.ae = C::ae;
    t.socc = C::socc;
    t.cons = C::cons;
    t.stateless = std::is_empty<A>::value;
    t.global = std::is_same<C, StdCfg>::value;
    return t;
  }
  void copy_ctor(int d, int s, bool ext, int arena, int label) override {
    copy_ctor_(d, s, ext, arena, label, std::integral_constant<bool, Copyable>());
  }
  bool copy_assign(int d, int s) override {
    return copy_assign_(d, s, std::integral_constant<bool, Assignable>());
  }
  void copy_ctor_(int, int, bool, int, int, std::false_type) {}
  bool copy_assign_(int, int, std::false_type) { return true; }
  void copy_ctor_(int d, int s, bool ext, int arena, int label, std::true_type) {
    const H& src = S.h(s);
    if (ext) {
      A a = AllocMake<A>::get(arena, label);
      Window w;
      ::new (S.at(d)) H(std::allocator_arg, a, src);
    } else if (label == 0) {
      Window w;
      ::new (S.at(d)) H(src);
    }
  }
  void move_ctor(int d, int s, bool ext, int arena, int label) override {
    H& src = S.h(s);
    if (ext) {
      A a = AllocMake<A>::get(arena, label);
      Window w;
      ::new (S.at(d)) H(std::allocator_arg, a, std::move(src));
    } else {
      Window w;
      ::new (S.at(d)) H(std::move(src));
    }
  }
  bool copy_assign_(int d, int s, std::true_type) {
    H& t = S.h(d);
    const H& src = S.h(s);
    Window w;
    return std::addressof(t = src) == std::addressof(t);
  }
  bool move_assign(int d, int s) override {
    H& t = S.h(d);
    H& src = S.h(s);
    Window w;
    return std::addressof(t = std::move(src)) == std::addressof(t);
  }
  void swap(int x, int y, int how) override {
    H& a = S.h(x);
    H& b = S.h(y);
    Window w;
    if (how == 0) {
      a.swap(b);
    } else {
      using std::swap;
      swap(a, b);
    }
  }
  void destroy(int d) override {
    H& t = S.h(d);
    {
      Window w;
      t.~H();
    }
    S.gone(d);
  }
};

#if !VP_POLY
template <int K, class Cf>
struct Bind : Common<xyz::indirect<Tr<K>, AllocFor<Tr<K>, Cf>>,
                     AllocFor<Tr<K>, Cf>, Cf> {
  using T = Tr<K>;
  using A = AllocFor<T, Cf>;
  using H = xyz::indirect<T, A>;
  using Base = Common<H, A, Cf>;
  using Base::S;

  Traits traits() const override {
    Traits t = this->base_traits();
    t.indirect = true;
    t.kinds = 1;
    t.kind0 = K;
    return t;
  }
  void create(int d, int how, int, int v, bool ext, int arena,
              int label) override {
    A a = AllocMake<A>::get(arena, label);
    void* at = S.at(d);
    switch (how) {
      case C_DEF: {
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a);
        else ::new (at) H();
        return;
      }
      case C_RVALUE: {
        T x(v);
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, std::move(x));
        else ::new (at) H(std::move(x));
        return;
      }
      case C_LVALUE: {
        T x(v);
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, x);
        else ::new (at) H(x);
        return;
      }
      case C_CLVALUE: {
        const T x(v);
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, x);
        else ::new (at) H(x);
        return;
      }
      case C_INPLACE1: {
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, VP_IN_PLACE, v);
        else ::new (at) H(VP_IN_PLACE, v);
        return;
      }
      case C_INPLACE2: {
        int u = v ^ 5;
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, VP_IN_PLACE, v, u);
        else ::new (at) H(VP_IN_PLACE, v, u);
        return;
      }
      default: {
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, VP_IN_PLACE, {v, 2, v + 3});
        else ::new (at) H(VP_IN_PLACE, {v, 2, v + 3});
        return;
      }
    }
  }
  void mutate(int d, int how, int v) override {
    H& h = S.h(d);
    Window w;
    if (how == 0) (*h).set(v);
    else h->set(v);
  }
  bool value_assign(int d, int how, int v, int s) override {
    H& h = S.h(d);
    if (how >= 4) {
      T& x = *S.h(how == 4 ? d : s);
      const T& y = x;
      Window w;
      if (how == 6) return std::addressof(h = std::move(x)) == std::addressof(h);
      return std::addressof(h = y) == std::addressof(h);
    }
    switch (how) {
      case 0: {
        const T x(v);
        Window w;
        return std::addressof(h = x) == std::addressof(h);
      }
      case 1: {
        T x(v);
        Window w;
        return std::addressof(h = std::move(x)) == std::addressof(h);
      }
      case 2: {
        Window w;
        return std::addressof(h = v) == std::addressof(h);
      }
      default: {
        T x(v);
        Window w;
        return std::addressof(h = x) == std::addressof(h);
      }
    }
  }
  void take(int s) override { T x(*std::move(S.h(s))); }
  int compare(int x, int y) override {
    const H& a = S.h(x);
    const H& b = S.h(y);
    return (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 |
           (a <= b) << 4 | (a >= b) << 5;
  }
  Snap snap(int s) override {
    H& h = S.h(s);
    const H& c = h;
    Snap q;
    q.empty = c.valueless_after_move();
    A a = c.get_allocator();
    q.arena = AllocMake<A>::arena(a);
    q.label = AllocMake<A>::label(a);
    if (q.empty) return q;
    q.addr = std::addressof(*c);
    q.kind = K;
    q.value = (*c).get("read");
    T& r1 = *h;
    const T& r2 = *c;
    T&& r3 = *std::move(h);
    const T&& r4 = *std::move(c);
    const void* p = q.addr;
    if (std::addressof(r1) != p || std::addressof(r2) != p ||
        std::addressof(r3) != p || std::addressof(r4) != p ||
        std::addressof(*h.operator->()) != p ||
        std::addressof(*c.operator->()) != p)
      L.error(ACCESS, "access paths designate different objects");
    return q;
  }
};

// Ordinary owned types (plain.hpp).
template <int K, class Cf>
struct PlainBind
    : Common<xyz::indirect<typename Plain<K>::T, AllocFor<typename Plain<K>::T, Cf>>,
             AllocFor<typename Plain<K>::T, Cf>, Cf,
             std::is_copy_constructible<typename Plain<K>::T>::value,
             std::is_copy_assignable<typename Plain<K>::T>::value> {
  using P = Plain<K>;
  using T = typename P::T;
  using A = AllocFor<T, Cf>;
  using H = xyz::indirect<T, A>;
  static constexpr bool copyable = std::is_copy_constructible<T>::value;
  using Base = Common<H, A, Cf, copyable, std::is_copy_assignable<T>::value>;
  using Base::S;

  Traits traits() const override {
    Traits t = this->base_traits();
    t.indirect = true;
    t.kinds = 1;
    t.kind0 = K;
    return t;
  }
  template <class U>
  void from(int d, int how, bool ext, const A& a, U&& u) {
    void* at = S.at(d);
    Window w;
    if (how == C_INPLACE1) {
      if (ext) ::new (at) H(std::allocator_arg, a, VP_IN_PLACE, std::forward<U>(u));
      else ::new (at) H(VP_IN_PLACE, std::forward<U>(u));
    } else {
      if (ext) ::new (at) H(std::allocator_arg, a, std::forward<U>(u));
      else ::new (at) H(std::forward<U>(u));
    }
  }
  void from_copy(int d, int how, bool ext, const A& a, T& x, std::true_type) {
    if (how == C_LVALUE) from(d, how, ext, a, x);
    else from(d, how, ext, a, static_cast<const T&>(x));
  }
  void from_copy(int, int, bool, const A&, T&, std::false_type) {}
  void create(int d, int how, int, int v, bool ext, int arena, int label) override {
    A a = AllocMake<A>::get(arena, label);
    if (how == C_DEF) {
      void* at = S.at(d);
      Window w;
      if (ext) ::new (at) H(std::allocator_arg, a);
      else ::new (at) H();
      return;
    }
    T x(P::make(v));
    if (how == C_RVALUE || how == C_INPLACE1) from(d, how, ext, a, std::move(x));
    else from_copy(d, how, ext, a, x, std::integral_constant<bool, copyable>());
  }
  template <class TT>
  void mutate_(TT& t, int v, std::true_type) { t = P::make(v); }
  template <class TT>
  void mutate_(TT&, int, std::false_type) {}
  void mutate(int d, int how, int v) override {
    H& h = S.h(d);
    Window w;
    mutate_(how == 0 ? *h : *h.operator->(), v, std::is_move_assignable<T>());
  }
  template <class HH>
  bool assign_(HH& h, int, T& x, std::false_type, std::true_type) {
    Window w;
    return std::addressof(h = std::move(x)) == std::addressof(h);
  }
  template <class HH>
  bool assign_(HH& h, int how, T& x, std::true_type, std::true_type) {
    if (how == 1) return assign_(h, how, x, std::false_type(), std::true_type());
    Window w;
    if (how == 3) return std::addressof(h = x) == std::addressof(h);
    return std::addressof(h = static_cast<const T&>(x)) == std::addressof(h);
  }
  template <class HH, class Any>
  bool assign_(HH&, int, T&, Any, std::false_type) { return true; }
  bool value_assign(int d, int how, int v, int s) override {
    H& h = S.h(d);
    if (how >= 4)
      return assign_(h, how == 6, *S.h(how == 4 ? d : s),
                     std::integral_constant<bool, copyable>(),
                     std::is_move_assignable<T>());
    T x(P::make(v));
    return assign_(h, how, x, std::integral_constant<bool, copyable>(),
                   std::is_move_assignable<T>());
  }
  void take(int s) override { T x(*std::move(S.h(s))); (void)x; }
  int compare(int x, int y) override {
    const H& a = S.h(x);
    const H& b = S.h(y);
    return (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 |
           (a >= b) << 5;
  }
  Snap snap(int s) override {
    H& h = S.h(s);
    const H& c = h;
    Snap q;
    q.empty = c.valueless_after_move();
    A a = c.get_allocator();
    q.arena = AllocMake<A>::arena(a);
    q.label = AllocMake<A>::label(a);
    if (q.empty) return q;
    q.addr = std::addressof(*c);
    q.kind = K;
    q.value = P::get(*c);
    if (std::addressof(*h) != q.addr || std::addressof(*h.operator->()) != q.addr ||
        std::addressof(*c.operator->()) != q.addr)
      L.error(ACCESS, "access paths designate different objects");
    return q;
  }
};
#else
template <int K, class Cf>
struct Bind
    : Common<xyz::polymorphic<PB, AllocFor<PB, Cf>>, AllocFor<PB, Cf>, Cf> {
  using A = AllocFor<PB, Cf>;
  using H = xyz::polymorphic<PB, A>;
  using Base = Common<H, A, Cf>;
  using Base::S;

  Traits traits() const override {
    Traits t = this->base_traits();
    t.indirect = false;
    t.kinds = NKIND;
    t.kind0 = 10;
    return t;
  }
  template <class D>
  void create_(int d, int how, int v, bool ext, int arena, int label) {
    A a = AllocMake<A>::get(arena, label);
    void* at = S.at(d);
    switch (how) {
      case C_RVALUE: {
        D x(v);
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, std::move(x));
        else ::new (at) H(std::move(x));
        return;
      }
      case C_LVALUE: {
        D x(v);
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, x);
        else ::new (at) H(x);
        return;
      }
      case C_CLVALUE: {
        const D x(v);
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, x);
        else ::new (at) H(x);
        return;
      }
      case C_INPLACE1: {
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, VP_IN_PLACE_TYPE(D), v);
        else ::new (at) H(VP_IN_PLACE_TYPE(D), v);
        return;
      }
      case C_INPLACE2: {
        int u = v ^ 5;
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, VP_IN_PLACE_TYPE(D), v, u);
        else ::new (at) H(VP_IN_PLACE_TYPE(D), v, u);
        return;
      }
      default: {
        Window w;
        if (ext)
          ::new (at)
              H(std::allocator_arg, a, VP_IN_PLACE_TYPE(D), {v, 2, v + 3});
        else
          ::new (at) H(VP_IN_PLACE_TYPE(D), {v, 2, v + 3});
        return;
      }
    }
  }
  void create(int d, int how, int kind, int v, bool ext, int arena,
              int label) override {
    switch (kind) {
      case 10: create_<D0>(d, how, v, ext, arena, label); return;
      case 11: create_<D1>(d, how, v, ext, arena, label); return;
      case 12: create_<D2>(d, how, v, ext, arena, label); return;
      case 13: create_<D3>(d, how, v, ext, arena, label); return;
      case 14: create_<D4>(d, how, v, ext, arena, label); return;
      default: create_<D5>(d, how, v, ext, arena, label); return;
    }
  }
  void mutate(int d, int how, int v) override {
    H& h = S.h(d);
    Window w;
    if (how == 0) (*h).set(v);
    else h->set(v);
  }
  bool value_assign(int, int, int, int) override { return true; }
  template <class D>
  static void take_(PB& b) {
    D x(std::move(dynamic_cast<D&>(b)));
  }
  void take(int s) override {
    PB& b = *S.h(s);
    switch (b.kind()) {
      case 10: take_<D0>(b); return;
      case 11: take_<D1>(b); return;
      case 12: take_<D2>(b); return;
      case 13: take_<D3>(b); return;
      case 14: take_<D4>(b); return;
      default: take_<D5>(b); return;
    }
  }
  int compare(int, int) override { return 0; }
  Snap snap(int s) override {
    H& h = S.h(s);
    const H& c = h;
    Snap q;
    q.empty = c.valueless_after_move();
    A a = c.get_allocator();
    q.arena = AllocMake<A>::arena(a);
    q.label = AllocMake<A>::label(a);
    if (q.empty) return q;
    const PB& r = *c;
    q.addr = r.whole();
    q.kind = r.kind();
    q.value = r.get("read");
    const PB* p = std::addressof(r);
    if (std::addressof(*h) != p || std::addressof(*h.operator->()) != p ||
        std::addressof(*c.operator->()) != p)
      L.error(ACCESS, "access paths designate different objects");
    if ((*h).access() != 1 || h->access() != 1 || (*c).access() != 2 ||
        c->access() != 2)
      L.error(ACCESS, "constness is not propagated by access");
    auto lo = reinterpret_cast<std::uintptr_t>(q.addr);
    auto at = reinterpret_cast<std::uintptr_t>(p);
    auto it = L.objects.find(lo);
    if (it != L.objects.end() && (at < lo || at >= lo + it->second.size))
      L.error(VALUE | ALIAS, "base sub-object is not inside the owned object");
    return q;
  }
};

template <int Fam, class Cf>
struct PlainBind
    : Common<xyz::polymorphic<typename Family<Fam>::T, AllocFor<typename Family<Fam>::T, Cf>>,
             AllocFor<typename Family<Fam>::T, Cf>, Cf> {
  using P = Family<Fam>;
  using T = typename P::T;
  using A = AllocFor<T, Cf>;
  using H = xyz::polymorphic<T, A>;
  using Base = Common<H, A, Cf>;
  using Base::S;

  Traits traits() const override {
    Traits t = this->base_traits();
    t.indirect = false;
    t.kinds = P::KINDS;
    t.kind0 = P::KIND0;
    return t;
  }
  template <class D>
  void create_(int d, int how, int kind, int v, bool ext, const A& a) {
    D x(P::template make<D>(kind, v));
    void* at = S.at(d);
    switch (how) {
      case C_RVALUE: {
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, std::move(x));
        else ::new (at) H(std::move(x));
        return;
      }
      case C_LVALUE: {
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, x);
        else ::new (at) H(x);
        return;
      }
      case C_CLVALUE: {
        const D& y = x;
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, y);
        else ::new (at) H(y);
        return;
      }
      default: {
        Window w;
        if (ext) ::new (at) H(std::allocator_arg, a, VP_IN_PLACE_TYPE(D), std::move(x));
        else ::new (at) H(VP_IN_PLACE_TYPE(D), std::move(x));
        return;
      }
    }
  }
  void create(int d, int how, int kind, int v, bool ext, int arena, int label) override {
    A a = AllocMake<A>::get(arena, label);
    switch (kind - P::KIND0) {
      case 0: create_<typename P::K0>(d, how, kind, v, ext, a); return;
      case 1: create_<typename P::K1>(d, how, kind, v, ext, a); return;
      default: create_<typename P::K2>(d, how, kind, v, ext, a); return;
    }
  }
  void mutate(int d, int how, int v) override {
    H& h = S.h(d);
    Window w;
    P::set(how == 0 ? *h : *h.operator->(), v);
  }
  bool value_assign(int, int, int, int) override { return true; }
  template <class D>
  static void take_(T& t) {
    D x(std::move(static_cast<D&>(t)));
    (void)x;
  }
  void take(int s) override {
    T& t = *S.h(s);
    switch (P::kind(t) - P::KIND0) {
      case 0: take_<typename P::K0>(t); return;
      case 1: take_<typename P::K1>(t); return;
      default: take_<typename P::K2>(t); return;
    }
  }
  int compare(int, int) override { return 0; }
  Snap snap(int s) override {
    H& h = S.h(s);
    const H& c = h;
    Snap q;
    q.empty = c.valueless_after_move();
    A a = c.get_allocator();
    q.arena = AllocMake<A>::arena(a);
    q.label = AllocMake<A>::label(a);
    if (q.empty) return q;
    q.addr = std::addressof(*c);
    q.kind = P::kind(*c);
    q.value = P::get(*c);
    if (std::addressof(*h) != q.addr || std::addressof(*h.operator->()) != q.addr ||
        std::addressof(*c.operator->()) != q.addr)
      L.error(ACCESS, "access paths designate different objects");
    return q;
  }
};
#endif

template <int K, class Cf>
Iface* make() {
  return new Bind<K, Cf>();
}
template <int K, class Cf>
Iface* make_plain() {
  return new PlainBind<K, Cf>();
}

#if VP_POLY
#define E(I, K, name, ...) \
  static const Registrar reg##I(I, "poly-" name, &make<0, Cfg<__VA_ARGS__>>);
#else
#define E(I, K, name, ...) \
  static const Registrar reg##I(I, "ind" #K "-" name, &make<K, Cfg<__VA_ARGS__>>);
#endif
#if VP_POLY
#define G(I, K, name, ...) \
  static const Registrar reg##I(I, "family" #K "-" name, &make_plain<K, Cfg<__VA_ARGS__>>);
#else
#define G(I, K, name, ...) \
  static const Registrar reg##I(I, "plain" #K "-" name, &make_plain<K, Cfg<__VA_ARGS__>>);
#endif
#define F false
#define Y true
#ifndef VP_PART
#define VP_PART -1
#endif
//                              pocca pocma pocs ae socc construct
#if VP_PART == -1 || VP_PART == 0
E(0, 0, "none",           F, F, F, F, F, Y)
E(1, 3, "pocca",          Y, F, F, F, F, F)
E(2, 1, "pocma",          F, Y, F, F, F, Y)
E(3, 2, "pocs",           F, F, Y, F, F, F)
E(4, 0, "all",            Y, Y, Y, F, F, Y)
#endif
#if VP_PART == -1 || VP_PART == 1
E(5, 1, "pocca-pocma",    Y, Y, F, F, F, F)
E(6, 3, "pocma-pocs-socc",F, Y, Y, F, Y, Y)
E(7, 2, "pocca-pocs",     Y, F, Y, F, F, F)
E(8, 3, "ae",             F, F, F, Y, F, Y)
#if !VP_POLY
E(9, 0, "ae-pocma",       F, Y, F, Y, F, F)
#endif
#endif
#if VP_PART == -1 || VP_PART == 2
#if VP_POLY
E(9, 0, "ae-pocma",       F, Y, F, Y, F, F)
#endif
E(10, 1, "ae-pocca-pocs", Y, F, Y, Y, Y, F)
E(11, 2, "none-socc",     F, F, F, F, Y, Y)
#if !VP_POLY
E(12, 1, "none",          F, F, F, F, F, F)
E(13, 3, "all",           Y, Y, Y, F, Y, F)
#endif
#endif
#if VP_PART == -1 || VP_PART == 3
#if VP_POLY
G(20, 0, "none",          F, F, F, F, F, F)
G(21, 0, "ae",            F, F, F, Y, F, Y)
G(22, 1, "none",          F, F, F, F, F, Y)
G(23, 1, "all",           Y, Y, Y, F, F, F)
G(24, 2, "none",          F, F, F, F, F, Y)
G(25, 3, "ae",            F, F, F, Y, F, F)
#else
G(20, 20, "none",         F, F, F, F, F, Y)
G(21, 20, "pocs",         F, F, Y, F, F, F)
G(22, 21, "none",         F, F, F, F, F, F)
G(23, 21, "ae",           F, F, F, Y, F, F)
G(24, 22, "none",         F, F, F, F, F, Y)
G(25, 22, "pocca",        Y, F, F, F, F, F)
G(26, 23, "none",         F, F, F, F, F, F)
G(27, 23, "all",          Y, Y, Y, F, F, F)
#endif
#endif
#if VP_PART == -1 || VP_PART == 4
#if VP_POLY
G(26, 3, "none",          F, F, F, F, F, F)
G(27, 2, "all",           Y, Y, Y, F, F, F)
G(28, 1, "ae",            F, F, F, Y, F, F)
G(29, 0, "socc",          F, F, F, F, Y, F)
#else
G(28, 24, "none",         F, F, F, F, F, F)
G(29, 25, "none",         F, F, F, F, F, F)
G(30, 26, "none",         F, F, F, F, F, Y)
G(31, 27, "none",         F, F, F, F, F, F)
G(32, 28, "ae",           F, F, F, Y, F, Y)
G(33, 29, "none",         F, F, F, F, F, F)
G(34, 30, "none",         F, F, F, F, F, Y)
G(35, 31, "none",         F, F, F, F, F, F)
#endif
#endif
#if VP_PART == -1 || VP_PART == 5
#define ES(I, K, name, Cf) \
  static const Registrar reg##I(I, name, &make<K, Cf>);
#define GS(I, K, name, Cf) \
  static const Registrar reg##I(I, name, &make_plain<K, Cf>);
using EmptyCons = EmptyCfg<false, false, false, true>;
using EmptyProp = EmptyCfg<true, true, true, false>;
using EmptyNone = EmptyCfg<false, false, false, false>;
#if VP_POLY
ES(40, 0, "poly-std", StdCfg)
ES(41, 0, "poly-empty-cons", EmptyCons)
GS(42, 1, "family1-empty-all", EmptyProp)
GS(43, 2, "family2-std", StdCfg)
#else
ES(40, 0, "ind0-std", StdCfg)
ES(41, 2, "ind2-empty-all", EmptyProp)
ES(42, 1, "ind1-empty-cons", EmptyCons)
GS(43, 20, "plain20-std", StdCfg)
GS(44, 21, "plain21-empty", EmptyNone)
GS(45, 26, "plain26-std", StdCfg)
GS(46, 24, "plain24-std", StdCfg)
#endif
#endif
}  // namespace vp
