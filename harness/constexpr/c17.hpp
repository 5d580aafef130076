// A constexpr interpreter of operation tapes over handles, with a plain-value
// model checked after every operation. The same tape is evaluated by the
// compiler and at run time. C++20.
#ifndef VP_C17_HPP
#define VP_C17_HPP
#include <compare>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>

#include VP_HEADER

namespace c17 {

struct Result {
  int fail = 0;      // 0, or which check failed
  int step = 0;      // the operation after which it failed
  int ops = 0;       // operations carried out
  int hard = 0;      // operations that met a valueless handle or another allocator
  int leaked = 0;    // blocks of the counting allocator still live
  std::uint64_t hash = 0;
  friend constexpr bool operator==(const Result&, const Result&) = default;
};

struct Tape {
  const unsigned char* p;
  int n;
  int pos = 0;
  constexpr int byte() { return pos < n ? p[pos++] : (++pos, 0); }
  constexpr int below(int k) { return byte() % k; }
  constexpr bool more() const { return pos < n; }
};

// Blocks per arena.
struct Stats {
  int live[16] = {};
  int cons = 0;
  bool bad = false;
};

template <bool CA, bool MA, bool S, bool AE, bool SC, bool K>
struct Cfg {
  static constexpr bool ca = CA, ma = MA, s = S, ae = AE, sc = SC, k = K;
};

template <class D, bool On>
struct Sel {};
template <class D>
struct Sel<D, true> {
  constexpr D select_on_container_copy_construction() const {
    D r(static_cast<const D&>(*this));
    r.label = (r.label + 100) % 1000;
    r.arena = (r.arena + 1) % 4;
    return r;
  }
};
template <class D, bool On>
struct Con {};
template <class D>
struct Con<D, true> {
  template <class U, class... As>
  constexpr void construct(U* p, As&&... as) {
    std::construct_at(p, std::forward<As>(as)...);
    if (static_cast<D*>(this)->st) ++static_cast<D*>(this)->st->cons;
  }
  template <class U>
  constexpr void destroy(U* p) {
    if (static_cast<D*>(this)->st) --static_cast<D*>(this)->st->cons;
    std::destroy_at(p);
  }
};

template <class T, class C>
struct Alloc : Sel<Alloc<T, C>, C::sc>, Con<Alloc<T, C>, C::k> {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::bool_constant<C::ca>;
  using propagate_on_container_move_assignment = std::bool_constant<C::ma>;
  using propagate_on_container_swap = std::bool_constant<C::s>;
  using is_always_equal = std::bool_constant<C::ae>;
  template <class U>
  struct rebind {
    using other = Alloc<U, C>;
  };
  Stats* st = nullptr;
  int arena = 0, label = 0;
  constexpr Alloc() = default;
  constexpr Alloc(Stats* s, int a, int l) : st(s), arena(a), label(l) {}
  constexpr Alloc(const Alloc&) = default;
  constexpr Alloc& operator=(const Alloc&) = default;
  template <class U>
  constexpr Alloc(const Alloc<U, C>& o) noexcept
      : st(o.st), arena(o.arena), label(o.label) {}
  constexpr int slot() const { return C::ae ? 0 : arena; }
  constexpr T* allocate(std::size_t n) {
    if (st) ++st->live[slot()];
    return std::allocator<T>{}.allocate(n);
  }
  constexpr void deallocate(T* p, std::size_t n) {
    if (st && --st->live[slot()] < 0) st->bad = true;
    std::allocator<T>{}.deallocate(p, n);
  }
  friend constexpr bool operator==(const Alloc& a, const Alloc& b) noexcept {
    return C::ae || a.arena == b.arena;
  }
};

// A value in memory of its own, so that sharing, leaking or destroying twice is
// an error of constant evaluation.
struct Buf {
  int* p;
  constexpr Buf() : p(new int(0)) {}
  constexpr Buf(int v) : p(new int(v)) {}
  constexpr Buf(int a, int b) : p(new int(a + 10 * b)) {}
  constexpr Buf(std::initializer_list<int> l, int k = 0) : p(new int(k)) {
    for (int x : l) *p += x;
  }
  constexpr Buf(const Buf& o) : p(new int(*o.p)) {}
  constexpr Buf(Buf&& o) : p(new int(*o.p)) { *o.p = -1; }
  constexpr Buf& operator=(const Buf& o) {
    *p = *o.p;
    return *this;
  }
  constexpr Buf& operator=(Buf&& o) {
    if (this != &o) {
      *p = *o.p;
      *o.p = -1;
    }
    return *this;
  }
  constexpr Buf& operator=(int v) {
    *p = v;
    return *this;
  }
  constexpr ~Buf() { delete p; }
  constexpr int get() const { return *p; }
  constexpr void set(int v) { *p = v; }
  friend constexpr bool operator==(const Buf& a, const Buf& b) {
    return *a.p == *b.p;
  }
  friend constexpr auto operator<=>(const Buf& a, const Buf& b) {
    return *a.p <=> *b.p;
  }
  friend constexpr bool operator==(const Buf& a, int b) { return *a.p == b; }
  friend constexpr auto operator<=>(const Buf& a, int b) { return *a.p <=> b; }
};

struct Slot {
  bool there = false, empty = false;
  int kind = 0, v = 0, arena = 0, label = 0;
};

template <class A>
struct is_counting : std::false_type {};
template <class T, class C>
struct is_counting<Alloc<T, C>> : std::true_type {
  using cfg = C;
};

// Handles in memory of their own; at most N.
template <class P>
struct World {
  using H = typename P::H;
  using A = typename H::allocator_type;
  using AT = std::allocator_traits<A>;
  static constexpr int N = 4;
  static constexpr bool counting = is_counting<A>::value;
  static constexpr bool ae = AT::is_always_equal::value;

  H* h[N] = {};
  Slot m[N];
  Stats st;
  Tape t;
  Result r;

  constexpr World(const unsigned char* p, int n) : t{p, n} {}
  constexpr ~World() {
    for (H* q : h) delete q;
  }
  constexpr A alloc(int arena, int label) {
    if constexpr (counting)
      return A(&st, arena, label);
    else
      return A();
  }
  constexpr void fail(int what) {
    if (!r.fail) {
      r.fail = what;
      r.step = r.ops;
    }
  }
  constexpr void mix(int x) {
    r.hash = (r.hash ^ static_cast<unsigned>(x)) * 1099511628211ull;
  }
  constexpr void put(int i, H* q, Slot s) {
    delete h[i];
    h[i] = q;
    s.there = true;
    if (!counting) s.arena = s.label = 0;
    m[i] = s;
  }
  constexpr bool same_alloc(const Slot& a, const Slot& b) const {
    return ae || a.arena == b.arena;
  }
  // What an operation leaves in its source is not specified when allocators
  // differ: take it from the source.
  constexpr void resync(int i) {
    m[i].empty = h[i]->valueless_after_move();
    if (!m[i].empty) m[i].v = P::value(**h[i]);
  }
  constexpr void verify() {
    for (int i = 0; i < N; ++i) {
      mix(m[i].there);
      if (!m[i].there) continue;
      const H& q = *h[i];
      if (q.valueless_after_move() != m[i].empty) return fail(1);
      mix(m[i].empty);
      if (!m[i].empty) {
        if (P::value(*q) != m[i].v) return fail(2);
        if (P::kind(*q) != m[i].kind) return fail(3);
        if (std::addressof(*q) != std::to_address(q.operator->())) return fail(4);
        mix(m[i].v);
        mix(m[i].kind);
      }
      if constexpr (counting) {
        A a = q.get_allocator();
        if (a.label != m[i].label) return fail(5);
        if (a.arena != m[i].arena) return fail(6);
        mix(a.label * 10 + a.arena);
      }
    }
    if constexpr (counting) {
      int want[16] = {};
      for (int i = 0; i < N; ++i)
        if (m[i].there && !m[i].empty)
          want[ae ? 0 : m[i].arena] += 1;
      // Only allocators that know the counters are counted.
      for (int k = 0; k < 16; ++k)
        if (st.live[k] != want[k]) return fail(7);
      if (st.bad) return fail(8);
    }
  }
  // The allocator a copy gets.
  constexpr void select(Slot& s) const {
    if constexpr (counting) {
      if constexpr (is_counting<A>::cfg::sc) {
        s.label = (s.label + 100) % 1000;
        s.arena = (s.arena + 1) % 4;
      }
    }
  }
  static constexpr bool prop(int which) {
    if constexpr (counting) {
      using C = typename is_counting<A>::cfg;
      return which == 0 ? C::ca : which == 1 ? C::ma : C::s;
    } else {
      return false;
    }
  }
  constexpr H passed(H q) { return q; }

  constexpr void step() {
    int code = t.below(22), i = t.below(N), j = t.below(N), v = t.below(50) + 1;
    Slot s;
    s.kind = t.below(P::kinds);
    s.v = v;
    s.arena = t.below(3);
    s.label = t.below(20);
    int form = t.below(P::forms);
    ++r.ops;
    mix(code);
    switch (code) {
      case 0:
      case 1:
      case 2: {  // construct a value, with an explicit allocator
        H* q = P::make(*this, alloc(s.arena, s.label), s, form);
        put(i, q, s);
        break;
      }
      case 3: {  // construct without an allocator
        if constexpr (!counting) {
          H* q = P::make(*this, s, form);
          put(i, q, s);
        }
        break;
      }
      case 4: {  // copy construct
        if (!m[j].there || i == j) break;
        s = m[j];
        select(s);
        put(i, new H(std::as_const(*h[j])), s);
        if (s.empty) ++r.hard;
        break;
      }
      case 5: {  // copy construct with an allocator
        if (!m[j].there || i == j) break;
        int a = s.arena, l = s.label;
        s = m[j];
        s.arena = a;
        s.label = l;
        put(i, new H(std::allocator_arg, alloc(a, l), std::as_const(*h[j])), s);
        ++r.hard;
        break;
      }
      case 6: {  // move construct
        if (!m[j].there || i == j) break;
        put(i, new H(std::move(*h[j])), m[j]);
        m[j].empty = true;
        break;
      }
      case 7: {  // move construct with an allocator
        if (!m[j].there || i == j) break;
        int a = s.arena, l = s.label;
        s = m[j];
        s.arena = a;
        s.label = l;
        bool eq = same_alloc(s, m[j]);
        put(i, new H(std::allocator_arg, alloc(a, l), std::move(*h[j])), s);
        if (eq)
          m[j].empty = true;
        else
          resync(j);
        ++r.hard;
        break;
      }
      case 8:
      case 9: {  // copy assign
        if (!m[i].there || !m[j].there) break;
        H& q = (*h[i] = std::as_const(*h[j]));
        if (&q != h[i]) fail(9);
        if (m[i].empty || m[j].empty || !same_alloc(m[i], m[j])) ++r.hard;
        s = m[j];
        if (!prop(0)) {
          s.arena = m[i].arena;
          s.label = m[i].label;
        }
        s.there = true;
        m[i] = s;
        break;
      }
      case 10:
      case 11: {  // move assign
        if (!m[i].there || !m[j].there) break;
        H& q = (*h[i] = std::move(*h[j]));
        if (&q != h[i]) fail(9);
        if (m[i].empty || m[j].empty || !same_alloc(m[i], m[j])) ++r.hard;
        if (i == j) break;
        s = m[j];
        if (!prop(1)) {
          s.arena = m[i].arena;
          s.label = m[i].label;
        }
        bool eq = same_alloc(m[i], m[j]);
        m[i] = s;
        if (eq)
          m[j].empty = true;
        else
          resync(j);
        break;
      }
      case 12: {  // swap
        if (!m[i].there || !m[j].there) break;
        if (!prop(2) && !same_alloc(m[i], m[j])) break;
        if (form % 2)
          h[i]->swap(*h[j]);
        else
          swap(*h[i], *h[j]);
        if (m[i].empty || m[j].empty) ++r.hard;
        std::swap(m[i], m[j]);
        if (!prop(2)) {
          std::swap(m[i].arena, m[j].arena);
          std::swap(m[i].label, m[j].label);
        }
        break;
      }
      case 13: {  // destroy
        delete h[i];
        h[i] = nullptr;
        m[i].there = false;
        break;
      }
      case 14:
      case 15: {  // mutate through an access path
        if (!m[i].there || m[i].empty) break;
        if (form % 2)
          P::set(**h[i], v);
        else
          P::set(*(h[i]->operator->()), v);
        m[i].v = v;
        break;
      }
      case 16: {  // by value through a function
        if (!m[j].there || i == j) break;
        if (form % 2) {
          s = m[j];
          put(i, new H(passed(std::move(*h[j]))), s);
          m[j].empty = true;
        } else {
          s = m[j];
          select(s);
          put(i, new H(passed(*h[j])), s);
        }
        break;
      }
      default:
        P::extra(*this, code, i, j, s, form);
    }
    verify();
  }
  constexpr Result run() {
    while (t.more() && !r.fail) step();
    for (H*& q : h) {
      delete q;
      q = nullptr;
    }
    for (Slot& s : m) s.there = false;
    for (int k = 0; k < 16; ++k) r.leaked += st.live[k];
    if (!r.fail && (r.leaked || st.bad || st.cons)) fail(10);
    return r;
  }
};

template <class P>
constexpr Result run(const unsigned char* p, int n) {
  World<P> w(p, n);
  return w.run();
}

struct Case {
  const char* name;
  const unsigned char* tape;
  int n;
  Result at_compile_time;
  Result (*fn)(const unsigned char*, int);
};

}  // namespace c17
#endif
