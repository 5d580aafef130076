#include "c17.hpp"

namespace c17 {

// A value some of whose values are not equal even to themselves and unordered.
struct Part {
  int v = 0;
  constexpr Part() = default;
  constexpr Part(int x) : v(x) {}
  static constexpr bool odd(int x) { return x >= 0 && x % 3 == 1; }
  constexpr int get() const { return v; }
  constexpr void set(int x) { v = x; }
  friend constexpr bool operator==(const Part& a, const Part& b) {
    return a.v == b.v && !odd(a.v);
  }
  friend constexpr std::partial_ordering operator<=>(const Part& a, const Part& b) {
    if (odd(a.v) || odd(b.v)) return std::partial_ordering::unordered;
    return a.v <=> b.v;
  }
};
// Only == and <; the three-way comparison is made from them.
struct Less {
  Buf b;
  constexpr Less() = default;
  constexpr Less(int x) : b(x) {}
  constexpr int get() const { return b.get(); }
  constexpr void set(int x) { b.set(x); }
  friend constexpr bool operator==(const Less& a, const Less& b) { return a.b == b.b; }
  friend constexpr bool operator<(const Less& a, const Less& b) { return a.get() < b.get(); }
};
template <class T>
constexpr bool odd(int x) {
  if constexpr (std::is_same_v<T, Part>)
    return Part::odd(x);
  else
    return false;
}

// Value types of indirect: an int, a Buf, a handle in a handle, and the two above.
template <class T>
constexpr int value_of(const T& t) {
  if constexpr (std::is_same_v<T, int>)
    return t;
  else if constexpr (requires { t.get(); })
    return t.get();
  else
    return t.valueless_after_move() ? -2 : value_of(*t);
}
template <class T>
constexpr void set_value(T& t, int v) {
  if constexpr (std::is_same_v<T, int>)
    t = v;
  else if constexpr (requires { t.set(v); })
    t.set(v);
  else
    t = typename T::value_type(v);
}
template <class T>
struct inner {
  static constexpr bool is = false;
};
template <class T, class A>
struct inner<xyz::indirect<T, A>> {
  static constexpr bool is = true;
};

template <class T, class A>
struct PI {
  using H = xyz::indirect<T, A>;
  static constexpr int kinds = 1, forms = 8;
  static constexpr int kind(const T&) { return 0; }
  static constexpr int value(const T& t) { return value_of(t); }
  static constexpr void set(T& t, int v) { set_value(t, v); }
  static constexpr T val(int v) { return T(v); }

  template <class W>
  static constexpr H* make(W&, const A& a, Slot& s, int form) {
    switch (form) {
      case 0:
        if constexpr (!inner<T>::is) {
          s.v = 0;
          if constexpr (std::is_same_v<T, int>) {
            H* q = new H(std::allocator_arg, a, 0);
            return q;
          } else {
            return new H(std::allocator_arg, a);
          }
        }
        [[fallthrough]];
      case 1: {
        T t = val(s.v);
        return new H(std::allocator_arg, a, t);
      }
      case 2:
        return new H(std::allocator_arg, a, val(s.v));
      case 3:
        return new H(std::allocator_arg, a, s.v);
      case 4:
        if constexpr (std::is_same_v<T, Buf>) {
          s.v = s.v + 30;
          return new H(std::allocator_arg, a, std::in_place, s.v - 30, 3);
        }
        [[fallthrough]];
      case 5:
        if constexpr (std::is_same_v<T, Buf>) {
          s.v = s.v + 9;
          return new H(std::allocator_arg, a, std::in_place, {s.v - 9, 4}, 5);
        }
        [[fallthrough]];
      default:
        return new H(std::allocator_arg, a, std::in_place, s.v);
    }
  }
  template <class W>
  static constexpr H* make(W&, Slot& s, int form) {
    switch (form) {
      case 0:
        if constexpr (!inner<T>::is) {
          s.v = 0;
          if constexpr (std::is_same_v<T, int>) return new H(0);
          return new H();
        }
        [[fallthrough]];
      case 1: {
        T t = val(s.v);
        return new H(t);
      }
      case 2:
        return new H(val(s.v));
      case 3:
        return new H(s.v);
      case 4:
        if constexpr (std::is_same_v<T, Buf>) {
          s.v = s.v + 30;
          return new H(std::in_place, s.v - 30, 3);
        }
        [[fallthrough]];
      case 5:
        if constexpr (std::is_same_v<T, Buf>) {
          s.v = s.v + 9;
          return new H(std::in_place, {s.v - 9, 4}, 5);
        }
        [[fallthrough]];
      default:
        return new H(std::in_place, s.v);
    }
  }

  template <class W>
  static constexpr void extra(W& w, int code, int i, int j, Slot& s, int form) {
    switch (code) {
      case 17:
      case 18: {  // assign a value
        if (!w.m[i].there) return;
        if (w.m[i].empty) ++w.r.hard;
        T t = val(s.v);
        H* q;
        if (form % 3 == 0)
          q = &(*w.h[i] = std::as_const(t));
        else if (form % 3 == 1)
          q = &(*w.h[i] = std::move(t));
        else
          q = &(*w.h[i] = s.v);
        if (q != w.h[i]) w.fail(9);
        w.m[i].empty = false;
        w.m[i].v = s.v;
        break;
      }
      case 19: {  // compare two handles
        if (!w.m[i].there || !w.m[j].there) return;
        const H &a = *w.h[i], &b = *w.h[j];
        int x = w.m[i].empty ? -1000 : w.m[i].v, y = w.m[j].empty ? -1000 : w.m[j].v;
        if (w.m[i].empty || w.m[j].empty) ++w.r.hard;
        const bool u = !w.m[i].empty && !w.m[j].empty && (odd<T>(x) || odd<T>(y));
        const bool eq = !u && x == y, lt = !u && x < y, gt = !u && x > y;
        if ((a == b) != eq || (a != b) != !eq) w.fail(20);
        if ((a < b) != lt || (a > b) != gt) w.fail(21);
        if ((a <= b) != (lt || eq) || (a >= b) != (gt || eq)) w.fail(22);
        auto c = a <=> b;
        if ((c < 0) != lt || (c > 0) != gt || (c == 0) != eq) w.fail(23);
        xyz::indirect<long> l(std::in_place, s.v);
        if constexpr (std::is_same_v<T, int>) {
          if ((a == l) != (x == s.v) || (l < a) != (s.v < x)) w.fail(24);
          if (((a <=> l) < 0) != (x < s.v)) w.fail(25);
        }
        w.mix(c < 0 ? 1 : c > 0 ? 2 : c == 0 ? 3 : 4);
        break;
      }
      case 20: {  // compare with a value
        if (!w.m[i].there) return;
        const H& a = *w.h[i];
        const T t = val(s.v);
        int x = w.m[i].empty ? -1000 : w.m[i].v, y = s.v;
        if (w.m[i].empty) ++w.r.hard;
        const bool u = !w.m[i].empty && (odd<T>(x) || odd<T>(y));
        const bool eq = !u && x == y, lt = !u && x < y, gt = !u && x > y;
        if ((a == t) != eq || (t == a) != eq) w.fail(30);
        if ((a != t) != !eq || (t != a) != !eq) w.fail(31);
        if ((a < t) != lt || (t < a) != gt) w.fail(32);
        if ((a >= t) != (gt || eq) || (t >= a) != (lt || eq)) w.fail(33);
        auto c = a <=> t;
        if ((c < 0) != lt || (c > 0) != gt) w.fail(34);
        break;
      }
      default: {  // take the value out, or copy it out through const&&
        if (!w.m[i].there || w.m[i].empty) return;
        if (form % 2) {
          T t = *std::move(*w.h[i]);
          if (value_of(t) != w.m[i].v) w.fail(40);
          w.m[i].v = value_of(std::as_const(**w.h[i]));
        } else {
          T t = *std::move(std::as_const(*w.h[i]));
          if (value_of(t) != w.m[i].v) w.fail(41);
        }
      }
    }
  }
};

#define VP_POLICIES(X)                                     \
  X(P0, PI<int, std::allocator<int>>)                      \
  X(P1, PI<Buf, std::allocator<Buf>>)                      \
  X(P2, PI<xyz::indirect<Buf>, std::allocator<xyz::indirect<Buf>>>)
#define VP_POLICIES2(X)                                                       \
  X(P3, PI<Buf, Alloc<Buf, Cfg<false, false, false, false, false, false>>>)   \
  X(P4, PI<Buf, Alloc<Buf, Cfg<true, true, true, false, true, true>>>)        \
  X(P5, PI<int, Alloc<int, Cfg<true, false, true, false, false, true>>>)      \
  X(P6, PI<Buf, Alloc<Buf, Cfg<false, true, false, false, true, false>>>)     \
  X(P7, PI<Buf, Alloc<Buf, Cfg<true, false, true, true, false, true>>>)       \
  X(P8, PI<Part, std::allocator<Part>>)                                       \
  X(P9, PI<Less, Alloc<Less, Cfg<false, true, true, false, false, true>>>)

}  // namespace c17
