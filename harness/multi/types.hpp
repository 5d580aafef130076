// The types the generated programs of C21 share between their translation units. It comes
// after the headers of the library and brings its own standard headers.
#ifndef VP_MULTI_TYPES
#define VP_MULTI_TYPES
#include <cstddef>
#include <functional>
#include <memory>
#include <string>

// A user's own names, in the global namespace and in a namespace full of greedy templates:
// headers that bring names of std into scope or call the like unqualified do not compile.
struct optional {
  int in_place_t = 1;
};
struct in_place_t {};
struct in_place_type_t {};
struct allocator_traits {};
struct weak_ordering {};
struct control_block {};
struct unique_ptr {};
struct indirect {};
struct polymorphic {};
struct unreachable {};
namespace detail {
struct empty_base_optimization {};
struct synth_three_way {};
}  // namespace detail

namespace user {
template <class... Ts>
void move(Ts&&...) = delete;
template <class... Ts>
void forward(Ts&&...) = delete;
template <class... Ts>
void exchange(Ts&&...) = delete;
template <class... Ts>
void addressof(Ts&&...) = delete;
template <class... Ts>
void construct_at(Ts&&...) = delete;
template <class... Ts>
void destroy_at(Ts&&...) = delete;
template <class... Ts>
void construct(Ts&&...) = delete;
template <class... Ts>
void destroy(Ts&&...) = delete;
template <class... Ts>
void allocate(Ts&&...) = delete;
template <class... Ts>
void clone(Ts&&...) = delete;
template <class... Ts>
void reset(Ts&&...) = delete;
template <class... Ts>
void construct_from(Ts&&...) = delete;
template <class... Ts>
void synth_three_way(Ts&&...) = delete;
template <class... Ts>
void unreachable(Ts&&...) = delete;

extern int objects;  // alive; defined in the main translation unit

struct V {
  int v = 0;
  std::string s;
  V() { ++objects; }
  explicit V(int x) : v(x), s(std::to_string(x)) { ++objects; }
  V(const V& o) : v(o.v), s(o.s) { ++objects; }
  V(V&& o) : v(o.v), s(o.s) { ++objects; }
  V& operator=(const V&) = default;
  ~V() { --objects; }
  friend bool operator==(const V& a, const V& b) { return a.v == b.v && a.s == b.s; }
  friend bool operator!=(const V& a, const V& b) { return !(a == b); }
  friend bool operator<(const V& a, const V& b) { return a.v < b.v; }
  friend bool operator>(const V& a, const V& b) { return b < a; }
  friend bool operator<=(const V& a, const V& b) { return !(b < a); }
  friend bool operator>=(const V& a, const V& b) { return !(a < b); }
};

struct Pad {
  virtual ~Pad() {}
  int pad = 77;
};
struct Base {
  int b = 0;
  Base() { ++objects; }
  explicit Base(int x) : b(x) { ++objects; }
  Base(const Base& o) : b(o.b) { ++objects; }
  Base& operator=(const Base&) = default;
  virtual ~Base() { --objects; }
  virtual int get() const { return b; }
  virtual void set(int x) { b = x; }
  virtual int kind() const { return 0; }
};
struct D1 : Pad, Base {
  std::string s;
  D1() {}
  explicit D1(int x) : Base(x), s(std::to_string(x)) {}
  int get() const override { return pad == 77 && s == std::to_string(b) ? b : -1000; }
  void set(int x) override {
    b = x;
    s = std::to_string(x);
  }
  int kind() const override { return 1; }
};
struct D2 final : D1 {
  int more[40] = {};
  explicit D2(int x) : D1(x) { more[39] = x; }
  int get() const override { return more[39] == b ? D1::get() : -2000; }
  void set(int x) override {
    D1::set(x);
    more[39] = x;
  }
  int kind() const override { return 2; }
};
}  // namespace user

template <>
struct std::hash<user::V> {
  std::size_t operator()(const user::V& v) const { return static_cast<std::size_t>(v.v * 31 + 5); }
};

namespace vp {
extern unsigned allocs, deallocs;

template <class T>
struct Arena {  // told apart by a number
  using value_type = T;
  int id;
  explicit Arena(int i) : id(i) {}
  template <class U>
  Arena(const Arena<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) {
    ++allocs;
    return static_cast<T*>(::operator new(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t) {
    ++deallocs;
    ::operator delete(p);
  }
  friend bool operator==(const Arena& a, const Arena& b) { return a.id == b.id; }
  friend bool operator!=(const Arena& a, const Arena& b) { return a.id != b.id; }
};

using I0 = xyz::indirect<user::V>;
using I1 = xyz::indirect<user::V, Arena<user::V>>;
using P0 = xyz::polymorphic<user::Base>;
using P1 = xyz::polymorphic<user::Base, Arena<user::Base>>;

// What one translation unit can do with the handles.
template <class H>
struct Ops {
  H (*copy)(const H&);
  H (*move)(H&);
  void (*copy_assign)(H&, const H&);
  void (*move_assign)(H&, H&);
  void (*swap)(H&, H&);
  void (*member_swap)(H&, H&);
  void (*renew)(H&, int kind, int v);
  void (*set)(H&, int v);
  int (*get)(const H&);
  int (*kind)(const H&);
  bool (*valueless)(const H&);
  unsigned long (*size)();
  unsigned long (*align)();
};
struct Cmp {
  int (*compare)(const I0&, const I0&);
  unsigned long (*hash)(const I0&);
  int (*features)();
};

namespace {  // every translation unit instantiates its own
template <class H>
struct Make;
template <>
struct Make<I0> {
  static I0 go(int, int v) { return I0(user::V(v)); }
  static int get(const I0& h) { return h->v; }
  static int kind(const I0& h) { return std::to_string(h->v) == h->s ? 0 : 9; }
  static void set(I0& h, int v) { h = user::V(v); }
};
template <>
struct Make<I1> {
  static I1 go(int k, int v) { return I1(std::allocator_arg, Arena<user::V>(k), user::V(v)); }
  static int get(const I1& h) { return (*h).v; }
  static int kind(const I1& h) { return h.get_allocator().id; }
  static void set(I1& h, int v) { h = user::V(v); }
};
template <>
struct Make<P0> {
  static P0 go(int k, int v) {
    return k == 0 ? P0(user::Base(v)) : k == 1 ? P0(user::D1(v)) : P0(user::D2(v));
  }
  static int get(const P0& h) { return h->get(); }
  static int kind(const P0& h) { return (*h).kind(); }
  static void set(P0& h, int v) { h->set(v); }
};
template <>
struct Make<P1> {
  static P1 go(int k, int v) {
    Arena<user::Base> a(k);
    return k == 0 ? P1(std::allocator_arg, a, user::Base(v))
                  : k == 1 ? P1(std::allocator_arg, a, user::D1(v))
                           : P1(std::allocator_arg, a, user::D2(v));
  }
  static int get(const P1& h) { return h->get(); }
  static int kind(const P1& h) { return h->kind() + 10 * h.get_allocator().id; }
  static void set(P1& h, int v) { h->set(v); }
};

template <class H>
struct Do {
  static H copy(const H& h) { return h; }
  static H move_(H& h) { return std::move(h); }
  static void copy_assign(H& a, const H& b) { a = b; }
  static void move_assign(H& a, H& b) { a = std::move(b); }
  static void swap_(H& a, H& b) { swap(a, b); }
  static void member_swap(H& a, H& b) { a.swap(b); }
  static void renew(H& a, int k, int v) {
    H t(Make<H>::go(k, v));
    a.~H();
    ::new (static_cast<void*>(std::addressof(a))) H(std::move(t));
  }
  static void set(H& a, int v) { Make<H>::set(a, v); }
  static int get(const H& a) { return Make<H>::get(a); }
  static int kind(const H& a) { return Make<H>::kind(a); }
  static bool valueless(const H& a) { return a.valueless_after_move(); }
  static unsigned long size() { return sizeof(H); }
  static unsigned long align() { return alignof(H); }
  static Ops<H> ops() {
    return Ops<H>{copy, move_, copy_assign, move_assign, swap_, member_swap, renew,
                  set,  get,   kind,        valueless,   size,  align};
  }
};

int compare(const I0& a, const I0& b) {
  return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
}
unsigned long hash(const I0& a) { return std::hash<I0>()(a); }
}  // namespace
}  // namespace vp
#endif
