#include "c17.hpp"

namespace c17 {

struct Base {
  int pad = 7;
  constexpr Base() = default;
  constexpr Base(const Base&) = default;
  constexpr virtual ~Base() = default;
  constexpr virtual int get() const { return pad; }
  constexpr virtual void set(int v) { pad = v; }
  constexpr virtual int kind() const { return 0; }
  constexpr Base(int v) : pad(v) {}
};
struct A1 : Base {
  Buf b;
  constexpr A1() : b(0) {}
  constexpr A1(int v) : b(v) {}
  constexpr A1(int x, int y) : b(x, y) {}
  constexpr A1(std::initializer_list<int> l, int k) : b(l, k) {}
  constexpr int get() const override { return b.get(); }
  constexpr void set(int v) override { b.set(v); }
  constexpr int kind() const override { return 1; }
};
struct Left {
  int left = 3;
  constexpr virtual ~Left() = default;
  constexpr virtual int l() const { return left; }
};
struct A2 : Left, Base {  // the base is not at the start
  Buf b, c;
  constexpr A2(int v) : b(v), c(v + 1) {}
  constexpr int get() const override {
    return b.get() + 1 == c.get() && left == 3 ? b.get() : -5;
  }
  constexpr void set(int v) override {
    b.set(v);
    c.set(v + 1);
  }
  constexpr int kind() const override { return 2; }
};
struct A3 final : A1 {
  int more[9] = {};
  constexpr A3(int v) : A1(v) { more[8] = v; }
  constexpr int get() const override { return more[8] == b.get() ? more[8] : -6; }
  constexpr void set(int v) override {
    b.set(v);
    more[8] = v;
  }
  constexpr int kind() const override { return 3; }
  constexpr A3(const A3&) = default;  // copied when moved
};

template <class A>
struct PP {
  using H = xyz::polymorphic<Base, A>;
  static constexpr int kinds = 4, forms = 4;
  static constexpr int kind(const Base& b) { return b.kind(); }
  static constexpr int value(const Base& b) { return b.get(); }
  static constexpr void set(Base& b, int v) { b.set(v); }

  template <class U>
  static constexpr H* form_of(const A& a, Slot& s, int form) {
    switch (form) {
      case 0: {
        U u(s.v);
        return new H(std::allocator_arg, a, std::as_const(u));
      }
      case 1:
        return new H(std::allocator_arg, a, U(s.v));
      case 2:
        if constexpr (std::is_same_v<U, A1>) {
          s.v = s.v + 14;
          return new H(std::allocator_arg, a, std::in_place_type<U>, {s.v - 14, 6}, 8);
        }
        [[fallthrough]];
      default:
        return new H(std::allocator_arg, a, std::in_place_type<U>, s.v);
    }
  }
  template <class W>
  static constexpr H* make(W&, const A& a, Slot& s, int form) {
    switch (s.kind) {
      case 0:
        if (form == 3) {
          s.v = 7;
          return new H(std::allocator_arg, a);
        }
        return form_of<Base>(a, s, form);
      case 1:
        return form_of<A1>(a, s, form);
      case 2:
        return form_of<A2>(a, s, form);
      default:
        return form_of<A3>(a, s, form);
    }
  }
  template <class U>
  static constexpr H* form_of(Slot& s, int form) {
    switch (form) {
      case 0: {
        U u(s.v);
        return new H(std::as_const(u));
      }
      case 1:
        return new H(U(s.v));
      case 2:
        if constexpr (std::is_same_v<U, A1>) {
          s.v = s.v + 14;
          return new H(std::in_place_type<U>, {s.v - 14, 6}, 8);
        }
        [[fallthrough]];
      default:
        return new H(std::in_place_type<U>, s.v);
    }
  }
  template <class W>
  static constexpr H* make(W&, Slot& s, int form) {
    switch (s.kind) {
      case 0:
        if (form == 3) {
          s.v = 7;
          return new H();
        }
        return form_of<Base>(s, form);
      case 1:
        return form_of<A1>(s, form);
      case 2:
        return form_of<A2>(s, form);
      default:
        return form_of<A3>(s, form);
    }
  }
  template <class W>
  static constexpr void extra(W& w, int code, int i, int, Slot& s, int) {
    if (!w.m[i].there || w.m[i].empty) return;
    if (code < 19) {  // through the derived type
      const H& q = *w.h[i];
      // Not dynamic_cast: gcc 13 evaluates it wrongly for objects in allocated
      // memory.
      if (w.m[i].kind == 1 || w.m[i].kind == 3) {
        const A1& d = static_cast<const A1&>(*q);
        if (d.kind() != w.m[i].kind || d.b.get() != w.m[i].v) w.fail(20);
      }
    } else if (code < 21) {  // replace by assigning a new handle
      A a = w.h[i]->get_allocator();
      s.arena = w.m[i].arena;
      s.label = w.m[i].label;
      H* q = make(w, a, s, 1);
      *w.h[i] = std::move(*q);
      delete q;
      s.there = true;
      w.m[i] = s;
    } else {
      (**w.h[i]).set(s.v);
      w.m[i].v = s.v;
    }
  }
};

#define VP_POLICIES(X) X(P0, PP<std::allocator<Base>>)
#define VP_POLICIES2(X)                                                  \
  X(P1, PP<Alloc<Base, Cfg<false, false, false, false, false, false>>>)  \
  X(P2, PP<Alloc<Base, Cfg<true, true, true, false, true, true>>>)       \
  X(P3, PP<Alloc<Base, Cfg<true, false, true, false, false, true>>>)     \
  X(P4, PP<Alloc<Base, Cfg<false, true, false, false, true, false>>>)    \
  X(P5, PP<Alloc<Base, Cfg<true, false, true, true, false, true>>>)

}  // namespace c17
