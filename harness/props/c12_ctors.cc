// C12: constructors forward their arguments once and unchanged.
#include <complex>
#include <map>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

#include "alloc.hpp"
#include "hdr.hpp"
#include "prop.hpp"

namespace vp {
namespace {
using C0 = Cfg<false, true, false, false, false, false>;
using C1 = Cfg<true, false, true, false, true, true>;

std::string trace;  // what the owned type saw
std::vector<const void*> originals;

std::string origin(const void* p) {
  for (std::size_t i = 0; i < originals.size(); ++i)
    if (originals[i] == p) return "@" + std::to_string(i);
  return "@elsewhere";
}

struct Arg {
  int v;
  explicit Arg(int x) : v(x) {}
  Arg(const Arg& o) : v(o.v) { trace += "[Arg copied]"; }
  Arg(Arg&& o) : v(o.v) { trace += "[Arg moved]"; }
  Arg& operator=(const Arg&) = delete;
  friend bool operator==(const Arg& a, const Arg& b) { return a.v == b.v; }
};
struct MoveOnly {
  int v;
  explicit MoveOnly(int x) : v(x) {}
  MoveOnly(MoveOnly&& o) : v(o.v) { trace += "[MoveOnly moved]"; }
};

// How an argument arrived: exact type and value category, and which object.
template <class X>
struct Name {
  static std::string get() { return "other"; }
};
#define VP_NAME(...)                                   \
  template <>                                          \
  struct Name<__VA_ARGS__> {                           \
    static std::string get() { return #__VA_ARGS__; } \
  }
VP_NAME(Arg&);
VP_NAME(const Arg&);
VP_NAME(Arg&&);
VP_NAME(const Arg&&);
VP_NAME(MoveOnly&&);
VP_NAME(int&);
VP_NAME(const int&);
VP_NAME(int&&);
VP_NAME(const char (&)[4]);
VP_NAME(std::string&);
VP_NAME(std::string&&);
VP_NAME(std::nullptr_t&&);
VP_NAME(std::initializer_list<int>&);
VP_NAME(std::initializer_list<int>&&);
#undef VP_NAME
int val(const Arg& a) { return a.v; }
int val(const MoveOnly& a) { return a.v; }
int val(int a) { return a; }
int val(const std::string& s) { return static_cast<int>(s.size()); }
int val(const char*) { return 5; }
int val(std::nullptr_t) { return 6; }
template <class X>
std::string seen(X&& x) {
  return Name<X&&>::get() + origin(std::addressof(x)) + " ";
}

struct Plain {
  bool operator==(const Plain&) const { return true; }
};
struct Poly0 {
  virtual ~Poly0() = default;
  virtual int value() const { return -1; }
};

template <class B>
struct Rec : B {
  int v;
  template <class X>
  using NotRec = typename std::enable_if<
      !std::is_base_of<Rec, typename std::decay<X>::type>::value, int>::type;
  Rec() : v(1) { trace += "Rec()"; }
  Rec(Rec& o) : B(), v(o.v) { trace += "Rec(Rec&)" + origin(&o); }
  Rec(const Rec& o) : B(), v(o.v) { trace += "Rec(const Rec&)" + origin(&o); }
  Rec(Rec&& o) : B(), v(o.v) { trace += "Rec(Rec&&)" + origin(&o); }
  Rec(const Rec&& o) : B(), v(o.v) { trace += "Rec(const Rec&&)" + origin(&o); }
  template <class X, NotRec<X> = 0>
  explicit Rec(X&& x) : v(val(x)) {
    trace += "Rec(X) " + seen(std::forward<X>(x));
  }
  template <class X, class Y>
  explicit Rec(X&& x, Y&& y) : v(val(x) * 31 + val(y)) {
    trace += "Rec(X,Y) " + seen(std::forward<X>(x)) + seen(std::forward<Y>(y));
  }
  template <class X, class Y, class Z>
  explicit Rec(X&& x, Y&& y, Z&& z) : v((val(x) * 31 + val(y)) * 31 + val(z)) {
    trace += "Rec(X,Y,Z) " + seen(std::forward<X>(x)) + seen(std::forward<Y>(y)) +
             seen(std::forward<Z>(z));
  }
  Rec(std::initializer_list<int> l) : v(0) { list("{int}", l); }
  Rec(std::initializer_list<Arg> l) : v(0) { list("{Arg}", l); }
  template <class X>
  Rec(std::initializer_list<int> l, X&& x) : v(val(x)) {
    list("{int},X", l);
    trace += seen(std::forward<X>(x));
  }
  template <class X, class Y>
  Rec(std::initializer_list<int> l, X&& x, Y&& y) : v(val(x) * 31 + val(y)) {
    list("{int},X,Y", l);
    trace += seen(std::forward<X>(x)) + seen(std::forward<Y>(y));
  }
  template <class X>
  Rec(std::initializer_list<Arg> l, X&& x) : v(val(x)) {
    list("{Arg},X", l);
    trace += seen(std::forward<X>(x));
  }
  Rec& operator=(const Rec&) = delete;
  template <class E>
  void list(const char* what, std::initializer_list<E> l) {
    trace += std::string("Rec(") + what + ") " + origin(l.begin()) + "x" +
             std::to_string(l.size()) + " ";
    for (const E& e : l) v = (v % 10007) * 31 + val(e);
  }
  virtual ~Rec() = default;
  virtual int value() const { return v; }
};

#if VP_POLY
template <class A>
using Handle = xyz::polymorphic<Poly0, typename std::allocator_traits<
                                           A>::template rebind_alloc<Poly0>>;
using R = Rec<Poly0>;
#define VP_TAG VP_IN_PLACE_TYPE(R)
#else
using R = Rec<Plain>;
template <class A>
using Handle = xyz::indirect<R, typename std::allocator_traits<
                                    A>::template rebind_alloc<R>>;
#define VP_TAG VP_IN_PLACE
#endif

struct Direct {  // the reference: the same arguments given to the type itself
  template <class... As>
  int operator()(As&&... as) const {
    alignas(R) unsigned char mem[sizeof(R)];
    R* r = ::new (static_cast<void*>(mem)) R(std::forward<As>(as)...);
    int v = r->v;
    r->~R();
    return v;
  }
};
template <class A>
struct InPlace {
  Ctx& c;
  template <class... As>
  int operator()(As&&... as) const {
    Handle<A> h(VP_TAG, std::forward<As>(as)...);
    c.check(h.get_allocator().arena == 0 && h.get_allocator().label == 0,
            "the allocator is default constructed");
    return h->value();
  }
};
template <class A>
struct AllocInPlace {
  Ctx& c;
  int arena;
  template <class... As>
  int operator()(As&&... as) const {
    Handle<A> h(std::allocator_arg, typename Handle<A>::allocator_type(arena, 40 + arena),
                VP_TAG, std::forward<As>(as)...);
    c.check(h.get_allocator().arena == arena && h.get_allocator().label == 40 + arena,
            "the allocator is the one given");
    return h->value();
  }
};

// Objects the arguments refer to; every way of building gets the same ones.
struct World {
  Arg a1{3}, a2{4}, a3{5}, a4{6};
  MoveOnly m1{7};
  int i1 = 8;
  const int i2 = 9;
  std::string s1{"strings"};
  World() {
    originals = {&a1, &a2, &a3, &a4, &m1, &i1, &i2, &s1};
  }
  ~World() { originals.clear(); }
};

// Picks the arguments by number and passes everything on to f. There are nine
// kinds of first argument, four of the second and two of the third.
const int kinds_of[3] = {9, 4, 2};
template <int Pos, int Max>
struct Pick;
template <int Max>
struct Pick<Max, Max> {
  template <class F, class... As>
  static int go(World&, const int*, int, const F& f, As&&... as) {
    return f(std::forward<As>(as)...);
  }
};
template <int Max>
struct Pick<2, Max> {
  template <class F, class... As>
  static int go(World& w, const int* kinds, int n, const F& f, As&&... as) {
    if (n <= 2) return f(std::forward<As>(as)...);
    if (kinds[2] == 0) return f(std::forward<As>(as)..., const_cast<const Arg&>(w.a2));
    return f(std::forward<As>(as)..., std::move(w.a3));
  }
};
template <>
struct Pick<2, 2> {
  template <class F, class... As>
  static int go(World&, const int*, int, const F& f, As&&... as) {
    return f(std::forward<As>(as)...);
  }
};
template <int Max>
struct Pick<1, Max> {
  template <class F, class... As>
  static int go(World& w, const int* kinds, int n, const F& f, As&&... as) {
    using P = Pick<2, Max>;
    if (n <= 1) return f(std::forward<As>(as)...);
    switch (kinds[1]) {
      case 0: return P::go(w, kinds, n, f, std::forward<As>(as)..., w.a1);
      case 1: return P::go(w, kinds, n, f, std::forward<As>(as)..., 78);
      case 2: return P::go(w, kinds, n, f, std::forward<As>(as)..., std::move(w.a4));
      default: return P::go(w, kinds, n, f, std::forward<As>(as)..., std::move(w.s1));
    }
  }
};
template <>
struct Pick<1, 1> {
  template <class F, class... As>
  static int go(World&, const int*, int, const F& f, As&&... as) {
    return f(std::forward<As>(as)...);
  }
};
template <int Max>
struct Pick<0, Max> {
  template <class F>
  static int go(World& w, const int* kinds, int n, const F& f) {
    using P = Pick<1, Max>;
    if (n == 0) return f();
    switch (kinds[0]) {
      case 0: return P::go(w, kinds, n, f, w.a1);
      case 1: return P::go(w, kinds, n, f, const_cast<const Arg&>(w.a2));
      case 2: return P::go(w, kinds, n, f, std::move(w.a3));
      case 3: return P::go(w, kinds, n, f, const_cast<const Arg&&>(w.a4));
      case 4: return P::go(w, kinds, n, f, std::move(w.m1));
      case 5: return P::go(w, kinds, n, f, w.i1);
      case 6: return P::go(w, kinds, n, f, 77);
      case 7: return P::go(w, kinds, n, f, "abc");
      default: return P::go(w, kinds, n, f, w.i2);
    }
  }
};

struct Seen {
  int v;
  std::string trace;
};
template <class F>
Seen run(const F& f) {
  trace.clear();
  Seen s;
  s.v = f();
  s.trace = trace;
  return s;
}
void same(Ctx& c, const char* form, const Seen& want, const Seen& got) {
  c.check(want.trace == got.trace && want.v == got.v,
          "the owned object is not built as from the arguments directly", [&](std::ostream& o) {
            o << form << ": directly " << want.trace << " = " << want.v << ", through the handle "
              << got.trace << " = " << got.v;
          });
}

template <class Call>
struct Bound {  // a niladic call of Pick
  World& w;
  const int* kinds;
  int n;
  Call call;
  int operator()() const { return Pick<0, 3>::go(w, kinds, n, call); }
};

template <class A>
void in_place_args(Ctx& c) {
  World w;
  const int n = c.below(4);
  int kinds[3] = {0, 0, 0};
  for (int i = 0; i < n; ++i) kinds[i] = c.below(kinds_of[i]);
  c << n << " arguments of kinds";
  for (int i = 0; i < n; ++i) c << " " << kinds[i];
  const int arena = 1 + c.below(3);
  const Seen want = run(Bound<Direct>{w, kinds, n, Direct{}});
  same(c, "in place", want, run(Bound<InPlace<A>>{w, kinds, n, InPlace<A>{c}}));
  same(c, "in place with an allocator", want,
       run(Bound<AllocInPlace<A>>{w, kinds, n, AllocInPlace<A>{c, arena}}));
  if (n) c.nontrivial();
  c.cls(n == 0 ? "no arguments" : n == 1 ? "one argument" : "more arguments");
}
VP_SUITE(in_place, 10) {
  in_place_args<SpyAlloc<int, C0>>(c);
}

// Initializer lists of ints (length 0 to 4) and of Args, with 0 to 2 more arguments.
template <class E>
struct WithList {
  template <class F>
  struct Front {
    const F& f;
    std::initializer_list<E> l;
    template <class... As>
    int operator()(As&&... as) const {
      return f(std::initializer_list<E>(l), std::forward<As>(as)...);
    }
  };
};
template <class E, class F>
int with_list(World& w, const int* kinds, int n, const F& f, std::initializer_list<E> l) {
  typename WithList<E>::template Front<F> g{f, l};
  return Pick<0, 1>::go(w, kinds, n, g);
}
template <class F>
int with_list2(World& w, const int* kinds, int n, const F& f, std::initializer_list<int> l) {
  typename WithList<int>::template Front<F> g{f, l};
  return Pick<0, 2>::go(w, kinds, n, g);
}
template <class F>
int int_list(World& w, const int* kinds, int n, const F& f, const int* e, int len) {
  // The backing array is a distinct object each time: not an original.
  switch (len) {
    case 0: return with_list2(w, kinds, n, f, std::initializer_list<int>{});
    case 1: return with_list2(w, kinds, n, f, {e[0]});
    case 2: return with_list2(w, kinds, n, f, {e[0], e[1]});
    case 3: return with_list2(w, kinds, n, f, {e[0], e[1], e[2]});
    default: return with_list2(w, kinds, n, f, {e[0], e[1], e[2], e[3]});
  }
}
template <class A>
void ilist(Ctx& c) {
  World w;
  const int arena = 1 + c.below(3);
  int kinds[2] = {0, 0};
  InPlace<A> in{c};
  AllocInPlace<A> ain{c, arena};
  Direct direct;
  if (c.chance(30)) {
    std::initializer_list<Arg> l = {Arg(c.below(9)), Arg(c.below(9)), Arg(3)};
    originals.push_back(l.begin());
    const int n = c.below(2);
    kinds[0] = c.below(kinds_of[0]);
    c << "list of three Args and " << n << " arguments";
    const Seen want = run([&] { return with_list(w, kinds, n, direct, l); });
    same(c, "list of class type", want, run([&] { return with_list(w, kinds, n, in, l); }));
    same(c, "list of class type with an allocator", want,
         run([&] { return with_list(w, kinds, n, ain, l); }));
    c.cls("list of class type");
  } else {
    int e[4];
    const int len = c.below(5), n = c.below(3);
    for (int& x : e) x = c.below(100);
    for (int i = 0; i < n; ++i) kinds[i] = c.below(kinds_of[i]);
    c << "list of " << len << " ints and " << n << " arguments";
    const Seen want = run([&] { return int_list(w, kinds, n, direct, e, len); });
    same(c, "list", want, run([&] { return int_list(w, kinds, n, in, e, len); }));
    same(c, "list with an allocator", want,
         run([&] { return int_list(w, kinds, n, ain, e, len); }));
    c.cls(n ? "list and arguments" : "list");
  }
  c.nontrivial();
}
VP_SUITE(initializer_list, 6) {
  ilist<SpyAlloc<int, C1>>(c);
}

// From a value of the owned type in every category, and the default constructor.
template <class A>
struct FromValue {
  Ctx& c;
  int arena;  // 0: no allocator given
  template <class X>
  int operator()(X&& x) const {
    if (!arena) {
      Handle<A> h(std::forward<X>(x));
      c.check(h.get_allocator().arena == 0, "the allocator is default constructed");
      return h->value();
    }
    Handle<A> h(std::allocator_arg, typename Handle<A>::allocator_type(arena, 9),
                std::forward<X>(x));
    c.check(h.get_allocator().arena == arena && h.get_allocator().label == 9,
            "the allocator is the one given");
    return h->value();
  }
};
template <class F>
int value_arg(R& r, int kind, const F& f) {
  switch (kind) {
    case 0: return f(r);
    case 1: return f(const_cast<const R&>(r));
    case 2: return f(std::move(r));
    default: return f(const_cast<const R&&>(r));
  }
}
template <class A>
void values(Ctx& c) {
  R r(c.below(50));
  originals = {&r};
  const int kind = c.below(4), arena = c.below(4);
  c << "value of category " << kind << (arena ? " with an allocator" : "");
  const Seen want = run([&] { return value_arg(r, kind, Direct{}); });
  same(c, "value", want,
       run([&] { return value_arg(r, kind, FromValue<A>{c, arena}); }));
  originals.clear();
#if !VP_POLY
  // The default constructors.
  const Seen def = run([&] { return Direct{}(); });
  same(c, "default", def, run([&] { return Handle<A>()->value(); }));
  same(c, "default with an allocator", def, run([&] {
         Handle<A> h(std::allocator_arg, typename Handle<A>::allocator_type(3, 4));
         c.check(h.get_allocator().arena == 3 && h.get_allocator().label == 4,
                 "the allocator is the one given");
         return h->value();
       }));
#else
  using HR = xyz::polymorphic<R, typename std::allocator_traits<A>::template rebind_alloc<R>>;
  const Seen def = run([&] { return Direct{}(); });
  same(c, "default", def, run([&] { return HR()->value(); }));
  same(c, "default with an allocator", def, run([&] {
         HR h(std::allocator_arg, typename HR::allocator_type(3, 4));
         c.check(h.get_allocator().arena == 3 && h.get_allocator().label == 4,
                 "the allocator is the one given");
         return h->value();
       }));
  // The owned type may be the static type itself, and derived types keep theirs.
  same(c, "value of the static type", want, run([&] {
         originals = {&r};
         int v = value_arg(r, kind, [&](auto&& x) {
           HR h(std::forward<decltype(x)>(x));
           c.check(typeid(*h) == typeid(R), "dynamic type");
           return h->value();
         });
         originals.clear();
         return v;
       }));
#endif
  c.nontrivial();
}
VP_SUITE(from_value, 6) {
  if (c.below(2))
    values<SpyAlloc<int, C1>>(c);
  else
    values<SpyAlloc<int, C0>>(c);
}

// Ordinary types: parentheses, not braces; value-initialisation; explicit and
// converting constructors.
#if VP_POLY
template <class T>
struct Own : Poly0, T {
  Own() = default;
  template <class... As, class = typename std::enable_if<
                             std::is_constructible<T, As&&...>::value>::type>
  explicit Own(As&&... as) : T(std::forward<As>(as)...) {}
  template <class E, class... As>
  Own(std::initializer_list<E> l, As&&... as) : T(l, std::forward<As>(as)...) {}
};
template <class T, class A = SpyAlloc<Poly0, C0>>
using H0 = xyz::polymorphic<Poly0, A>;
#define VP_TAGOF(...) VP_IN_PLACE_TYPE(Own<__VA_ARGS__>)
template <class T, class Hn>
const T& get(const Hn& h) {
  return static_cast<const T&>(dynamic_cast<const Own<T>&>(*h));
}
#else
template <class T, class A = SpyAlloc<T, C0>>
using H0 = xyz::indirect<T, A>;
#define VP_TAGOF(...) VP_IN_PLACE
template <class T, class Hn>
const T& get(const Hn& h) {
  return *h;
}
#endif
template <class T, class... As>
void std_type(Ctx& c, const char* what, As&&... as) {
  const T want(as...);
  {
    H0<T> h(VP_TAGOF(T), as...);
    c.check(get<T>(h) == want, what);
  }
  {
    using A = typename H0<T>::allocator_type;
    H0<T> h(std::allocator_arg, A(2, 2), VP_TAGOF(T), as...);
    c.check(get<T>(h) == want, what);
  }
}
template <class T, class E, class... As>
void std_list(Ctx& c, const char* what, std::initializer_list<E> l, As&&... as) {
  const T want(l, as...);
  {
    H0<T> h(VP_TAGOF(T), l, as...);
    c.check(get<T>(h) == want, what);
  }
  {
    using A = typename H0<T>::allocator_type;
    H0<T> h(std::allocator_arg, A(2, 2), VP_TAGOF(T), l, as...);
    c.check(get<T>(h) == want, what);
  }
}
VP_SUITE(standard_types, 6) {
  const int n = c.below(6), x = c.below(200);
  c << "n " << n << " x " << x;
  std_type<std::vector<int>>(c, "vector(n)", n);
  std_type<std::vector<int>>(c, "vector(n, x)", n, x);
  std_type<std::string>(c, "string(n, ch)", static_cast<std::size_t>(n),
                        static_cast<char>('a' + x % 20));
  std_type<std::string>(c, "string(const char*)", "some text");
  std_type<std::string>(c, "string(const char*, n)", "some text", n);
  const std::vector<int> src(static_cast<std::size_t>(n), x);
  std_type<std::vector<int>>(c, "vector(first, last)", src.begin(), src.end());
  std_type<std::vector<int>>(c, "vector(copy)", src);
  std_list<std::vector<int>>(c, "vector{list}", {n, x, 3});
  std_list<std::vector<int>>(c, "vector{one}", {n});
  std_list<std::vector<std::string>>(c, "vector{strings}", {std::string("a"), std::string("b")});
  std_list<std::string>(c, "string{list}", {'x', 'y'});
  std_list<std::vector<int>>(c, "vector{list}, allocator", {n, x}, std::allocator<int>());
  std_type<std::complex<double>>(c, "complex", n * 0.5, x * 1.0);
  std_type<std::tuple<int, std::string>>(c, "tuple", n, "t");
  std_type<std::pair<std::string, std::vector<int>>>(
      c, "pair, piecewise", std::piecewise_construct,
      std::make_tuple(static_cast<std::size_t>(n), 'q'), std::make_tuple(n, x));
  std_list<std::map<int, int>>(c, "map{list}", {std::pair<const int, int>(n, x),
                                                std::pair<const int, int>(n + 1, 2)});
  if (n > 1) c.nontrivial();
}

// Default construction value-initialises, even in poisoned storage.
#if VP_POLY
struct Agg : Poly0 {
  int a;
  double b;
  char text[24];
};
template <class A>
using AggH = xyz::polymorphic<Agg, A>;
#else
struct Agg {
  int a;
  double b;
  char text[24];
};
template <class A>
using AggH = xyz::indirect<Agg, A>;
#endif
template <class A>
void zeroed(Ctx& c, const AggH<A>& h, const char* what) {
  bool ok = h->a == 0 && h->b == 0;
  for (char ch : h->text) ok = ok && ch == 0;
  c.check(ok, what);
}
VP_SUITE(value_initialised, 1) {
  using A = SpyAlloc<Agg, C0>;
  using B = SpyAlloc<Agg, C1>;
  const int arena = c.below(5);
  c << "arena " << arena;
  if (arena) c.nontrivial();
  zeroed<A>(c, AggH<A>(), "default construction value-initialises");
  zeroed<B>(c, AggH<B>(), "default construction value-initialises");
  zeroed<A>(c, AggH<A>(std::allocator_arg, A(arena, 0)),
            "default construction with an allocator value-initialises");
  zeroed<B>(c, AggH<B>(std::allocator_arg, B(arena, 0)),
            "default construction with an allocator value-initialises");
#if VP_POLY
  zeroed<A>(c, AggH<A>(VP_IN_PLACE_TYPE(Agg)), "in place without arguments value-initialises");
  zeroed<B>(c, AggH<B>(std::allocator_arg, B(arena, 0), VP_IN_PLACE_TYPE(Agg)),
            "in place without arguments value-initialises");
#else
  zeroed<A>(c, AggH<A>(VP_IN_PLACE), "in place without arguments value-initialises");
  zeroed<B>(c, AggH<B>(std::allocator_arg, B(arena, 0), VP_IN_PLACE),
            "in place without arguments value-initialises");
  xyz::indirect<int, SpyAlloc<int, C0>> i;
  c.check(*i == 0, "a default indirect<int> holds 0");
  xyz::indirect<int*, SpyAlloc<int*, C0>> p;
  c.check(*p == nullptr, "a default indirect<int*> holds a null pointer");
#endif
}

// Handles of types that can be built from anything are still copied and moved.
struct Any {
  int depth = 0;
  Any() = default;
  Any(const Any& o) : depth(o.depth) {}
  Any(Any&& o) : depth(o.depth) { o.depth = -5; }
  template <class X, class = typename std::enable_if<!std::is_same<
                         typename std::decay<X>::type, Any>::value>::type>
  Any(X&&) : depth(100) {}
  Any& operator=(const Any&) = default;
  virtual ~Any() = default;
};
#if VP_POLY
template <class A>
using AnyH = xyz::polymorphic<Any, A>;
#define VP_ANYTAG VP_IN_PLACE_TYPE(Any)
#else
template <class A>
using AnyH = xyz::indirect<Any, A>;
#define VP_ANYTAG VP_IN_PLACE
#endif
VP_SUITE(not_hijacked, 3) {
  using A = SpyAlloc<Any, C0>;
  using Hn = AnyH<A>;
  const int arena = c.below(3), how = c.below(10), d = c.below(20);
  c << "way " << how << " arena " << arena;
  c.nontrivial();
  Hn h(std::allocator_arg, A(arena, 1));
  h->depth = d;
  const Hn& k = h;
  const A b(2, 7);
  auto copied = [&](const Hn& n, const A& want) {
    c.check(n->depth == d, "a handle was wrapped instead of copied or moved",
            [&](std::ostream& o) { o << "way " << how; });
    c.check(n.get_allocator().arena == want.arena, "the copy's allocator");
  };
  switch (how) {
    case 0: copied(Hn(h), A(arena, 0)); break;
    case 1: copied(Hn(k), A(arena, 0)); break;
    case 2: copied(Hn(static_cast<const Hn&&>(h)), A(arena, 0)); break;
    case 3: copied(Hn(std::move(h)), A(arena, 0)); break;
    case 4: copied(Hn(std::allocator_arg, b, h), b); break;
    case 5: copied(Hn(std::allocator_arg, b, k), b); break;
    case 6: copied(Hn(std::allocator_arg, b, static_cast<const Hn&&>(h)), b); break;
    case 7: copied(Hn(std::allocator_arg, b, std::move(h)), b); break;
    case 8: {
      Hn n(VP_ANYTAG);
      c.check(n->depth == 0, "in place without arguments default-constructs");
      Hn m(std::allocator_arg, b, VP_ANYTAG);
      c.check(m->depth == 0, "in place without arguments default-constructs");
      break;
    }
    default: {
      // A handle as an argument of the owned type's own constructor.
      Hn n(VP_ANYTAG, h);
      c.check(n->depth == 100, "in place passes a handle on as an argument");
      Hn m(std::allocator_arg, b, VP_ANYTAG, h);
      c.check(m->depth == 100, "in place passes a handle on as an argument");
      Hn m2(std::allocator_arg, b, VP_ANYTAG, k);
      c.check(m2->depth == 100, "in place passes a handle on as an argument");
      c.check(h->depth == d, "the argument is unchanged");
    }
  }
}

#if !VP_POLY && !VP_CXX14
// Converting construction: directly from the argument, no temporary.
struct Target {
  int v;
  int temporaries = 0;
  explicit Target(const Arg& a) : v(a.v) { trace += "Target(const Arg&)" + origin(&a); }
  explicit Target(Arg&& a) : v(a.v) { trace += "Target(Arg&&)" + origin(&a); }
  Target(int x) : v(x) { trace += "Target(int)"; }
  Target(const Target& o) : v(o.v) { trace += "Target(copy)"; }
  Target(Target&& o) : v(o.v) { trace += "Target(move)"; }
};
VP_SUITE(converting, 3) {
  using A = SpyAlloc<Target, C0>;
  using Hn = xyz::indirect<Target, A>;
  World w;
  const int how = c.below(4), v = c.below(100), arena = c.below(3);
  c << "converting " << how;
  c.nontrivial();
  std::string want;
  const Seen got = run([&] {
    const A a(arena, 0);
    switch (how) {
      case 0: want = "Target(const Arg&)@0"; return (arena ? Hn(std::allocator_arg, a, w.a1) : Hn(w.a1))->v;
      case 1: want = "Target(Arg&&)@2"; return (arena ? Hn(std::allocator_arg, a, std::move(w.a3)) : Hn(std::move(w.a3)))->v;
      case 2: want = "Target(int)"; return (arena ? Hn(std::allocator_arg, a, v) : Hn(v))->v;
      default: want = "Target(const Arg&)@3"; return (arena ? Hn(std::allocator_arg, a, static_cast<const Arg&&>(w.a4)) : Hn(static_cast<const Arg&&>(w.a4)))->v;
    }
  });
  const int wantv = how == 0 ? 3 : how == 1 ? 5 : how == 2 ? v : 6;
  c.check(got.trace == want && got.v == wantv, "a convertible value is not built directly",
          [&](std::ostream& o) { o << got.trace << " instead of " << want; });
  xyz::indirect<std::string> s("text");
  c.check(*s == "text", "indirect<string> from a literal");
  xyz::indirect<std::vector<int>> l({1, 2, 3});
  c.check(*l == std::vector<int>({1, 2, 3}), "indirect<vector> from a braced list");
  xyz::indirect<std::vector<int>> n(4);
  c.check(l->size() == 3 && n->size() == 4, "indirect<vector>(4) has four elements");
}
#endif

// ---- Type facts -------------------------------------------------------------
struct Unrelated {};
struct NoDefault {
  explicit NoDefault(int) {}
  virtual ~NoDefault() = default;
};
template <class T>
struct NoDefAlloc : std::allocator<T> {
  explicit NoDefAlloc(int) {}
  template <class U>
  NoDefAlloc(const NoDefAlloc<U>&) {}
  template <class U>
  struct rebind {
    using other = NoDefAlloc<U>;
  };
};
template <class H>
void sink(H);
template <class H, class = void>
struct copy_list_default : std::false_type {};
template <class H>
struct copy_list_default<H, decltype(sink<H>({}))> : std::true_type {};
template <class H, class L, class = void>
struct copy_list1 : std::false_type {};
template <class H, class X>
struct copy_list1<H, X, decltype(sink<H>({std::declval<X>()}))> : std::true_type {};
template <class V, class H, class... Xs>
struct copy_listN : std::false_type {};
template <class H, class... Xs>
struct copy_listN<decltype(sink<H>({std::declval<Xs>()...})), H, Xs...> : std::true_type {};
template <class H, class... Xs>
using copy_list = copy_listN<void, H, Xs...>;

#define FACT(...) c.check((__VA_ARGS__), #__VA_ARGS__)
VP_SUITE(facts, 0) {
  c.nontrivial();
  c << "type facts";
  using AA = std::allocator_arg_t;
#if VP_POLY
  struct D : Poly0 {
    int x;
    explicit D(int y) : x(y) {}
    D(std::initializer_list<int>, int) : x(0) {}
  };
  struct NoCopy : Poly0 {
    NoCopy() = default;
    NoCopy(NoCopy&&) = default;
  };
  using H = xyz::polymorphic<Poly0>;
  using Al = std::allocator<Poly0>;
#if VP_CXX14
  using TD = xyz::in_place_type_t<D>;
  using TP = xyz::in_place_type_t<Poly0>;
  using TU = xyz::in_place_type_t<Unrelated>;
  using TN = xyz::in_place_type_t<NoCopy>;
#else
  using TD = std::in_place_type_t<D>;
  using TP = std::in_place_type_t<Poly0>;
  using TU = std::in_place_type_t<Unrelated>;
  using TN = std::in_place_type_t<NoCopy>;
#endif
  // Constructible exactly as documented.
  FACT(std::is_default_constructible<H>::value);
  FACT(std::is_constructible<H, AA, Al>::value);
  FACT(std::is_constructible<H, D>::value && std::is_constructible<H, D&>::value &&
       std::is_constructible<H, const D&>::value && std::is_constructible<H, Poly0>::value);
  FACT(std::is_constructible<H, AA, Al, D>::value && std::is_constructible<H, AA, Al, const D&>::value);
  FACT(std::is_constructible<H, TD, int>::value && std::is_constructible<H, AA, Al, TD, int>::value);
  FACT(std::is_constructible<H, TP>::value && std::is_constructible<H, AA, Al, TP>::value);
  FACT(std::is_constructible<H, TD, std::initializer_list<int>, int>::value);
  FACT(std::is_constructible<H, AA, Al, TD, std::initializer_list<int>, int>::value);
  FACT(std::is_constructible<H, AA, Al, H>::value && std::is_constructible<H, AA, Al, H&>::value &&
       std::is_constructible<H, AA, Al, const H&>::value);
  FACT(std::is_copy_constructible<H>::value && std::is_move_constructible<H>::value &&
       std::is_constructible<H, H&>::value && std::is_constructible<H, const H>::value);
  FACT(std::is_copy_assignable<H>::value && std::is_move_assignable<H>::value);
  // Not constructible from what is neither derived nor copyable.
  FACT(!std::is_constructible<H, Unrelated>::value && !std::is_constructible<H, AA, Al, Unrelated>::value);
  FACT(!std::is_constructible<H, int>::value && !std::is_constructible<H, AA, Al, int>::value);
  FACT(!std::is_constructible<H, TU>::value && !std::is_constructible<H, AA, Al, TU>::value);
  FACT(!std::is_constructible<H, TD>::value && !std::is_constructible<H, AA, Al, TD>::value);
  FACT(!std::is_constructible<H, TD, Unrelated>::value &&
       !std::is_constructible<H, AA, Al, TD, Unrelated>::value);
  FACT(!std::is_constructible<H, TD, std::initializer_list<Unrelated>>::value &&
       !std::is_constructible<H, AA, Al, TD, std::initializer_list<Unrelated>>::value);
  FACT(!std::is_constructible<H, NoCopy>::value && !std::is_constructible<H, TN>::value &&
       !std::is_constructible<H, AA, Al, NoCopy>::value && !std::is_constructible<H, AA, Al, TN>::value);
  FACT(!std::is_constructible<H, D*>::value && !std::is_constructible<H, std::nullptr_t>::value);
  FACT(!std::is_constructible<xyz::polymorphic<D>, H>::value &&
       !std::is_constructible<xyz::polymorphic<D>, Poly0>::value);
  FACT(!std::is_assignable<H&, D>::value || !VP_CXX14);
  // Explicit.
  FACT(!std::is_convertible<D, H>::value && !std::is_convertible<const D&, H>::value &&
       !std::is_convertible<Poly0, H>::value);
  FACT(!std::is_convertible<TP, H>::value);
  FACT(!copy_list<H, TD, int>::value && !copy_list<H, D>::value);
  FACT(!copy_list<H, TD, std::initializer_list<int>, int>::value);
  FACT(!copy_list<H, AA, Al, D>::value);
#if !VP_CXX14
  FACT(!copy_list_default<H>::value);
  FACT(!copy_list<H, AA, Al>::value);
  FACT(!copy_list<H, AA, Al, TD, int>::value);
  FACT(!copy_list<H, AA, Al, TD, std::initializer_list<int>, int>::value);
  FACT(!copy_list<H, TP>::value && !copy_list<H, AA, Al, TP>::value);
#endif
  FACT(std::is_convertible<H, H>::value && std::is_convertible<const H&, H>::value);
  FACT(copy_list<H, AA, Al, H>::value && copy_list<H, AA, Al, const H&>::value);
  // Allocators that cannot be default constructed must be given.
  using N = xyz::polymorphic<Poly0, NoDefAlloc<Poly0>>;
  using NA = NoDefAlloc<Poly0>;
  FACT(!std::is_default_constructible<N>::value && std::is_constructible<N, AA, NA>::value);
  FACT(!std::is_constructible<N, TD, int>::value && std::is_constructible<N, AA, NA, TD, int>::value);
#if !VP_CXX14
  FACT(!std::is_constructible<N, D>::value);
  FACT(!std::is_constructible<N, TD, std::initializer_list<int>, int>::value);
#endif
  FACT(std::is_constructible<N, AA, NA, D>::value);
  FACT(std::is_same<H::value_type, Poly0>::value && std::is_same<H::allocator_type, Al>::value &&
       std::is_same<H::pointer, Poly0*>::value && std::is_same<H::const_pointer, const Poly0*>::value);
#else
  struct D {
    int x;
    explicit D(int y) : x(y) {}
    D(std::initializer_list<int>, int) : x(0) {}
  };
  using H = xyz::indirect<D>;
  using Al = std::allocator<D>;
  using I = xyz::indirect<int>;
  using IA = std::allocator<int>;
#if VP_CXX14
  using TP = xyz::in_place_t;
#else
  using TP = std::in_place_t;
#endif
  FACT(std::is_default_constructible<I>::value && std::is_constructible<I, AA, IA>::value);
  FACT(std::is_constructible<H, D>::value && std::is_constructible<H, D&>::value &&
       std::is_constructible<H, const D&>::value && std::is_constructible<H, const D>::value);
  FACT(std::is_constructible<H, AA, Al, D>::value && std::is_constructible<H, AA, Al, const D&>::value);
  FACT(std::is_constructible<H, TP, int>::value && std::is_constructible<H, AA, Al, TP, int>::value);
  FACT(std::is_constructible<I, TP>::value && std::is_constructible<I, AA, IA, TP>::value);
  FACT(std::is_constructible<H, TP, std::initializer_list<int>, int>::value);
  FACT(std::is_constructible<H, AA, Al, TP, std::initializer_list<int>, int>::value);
  FACT(std::is_constructible<H, AA, Al, H>::value && std::is_constructible<H, AA, Al, H&>::value &&
       std::is_constructible<H, AA, Al, const H&>::value);
  FACT(std::is_copy_constructible<H>::value && std::is_move_constructible<H>::value &&
       std::is_constructible<H, H&>::value && std::is_constructible<H, const H>::value);
  FACT(std::is_copy_assignable<H>::value && std::is_move_assignable<H>::value);
  FACT(!std::is_constructible<H, Unrelated>::value && !std::is_constructible<H, AA, Al, Unrelated>::value);
  FACT(!std::is_constructible<H, TP>::value && !std::is_constructible<H, AA, Al, TP>::value);
  FACT(!std::is_constructible<H, TP, Unrelated>::value &&
       !std::is_constructible<H, AA, Al, TP, Unrelated>::value);
  FACT(!std::is_constructible<H, TP, int, int>::value &&
       !std::is_constructible<H, AA, Al, TP, int, int>::value);
  FACT(!std::is_constructible<H, TP, std::initializer_list<Unrelated>>::value &&
       !std::is_constructible<H, AA, Al, TP, std::initializer_list<Unrelated>>::value);
  FACT(!std::is_constructible<H, D*>::value && !std::is_constructible<H, std::nullptr_t>::value);
  FACT(!std::is_constructible<H, I>::value && !std::is_constructible<I, H>::value);
  FACT(!std::is_assignable<H&, Unrelated>::value && !std::is_assignable<H&, I>::value);
  // Explicit.
  FACT(!std::is_convertible<D, H>::value && !std::is_convertible<const D&, H>::value &&
       !std::is_convertible<D&, H>::value);
  FACT(!std::is_convertible<int, I>::value && !std::is_convertible<int, H>::value);
  FACT(!std::is_convertible<TP, I>::value);
  FACT(!copy_list<H, TP, int>::value && !copy_list<H, D>::value && !copy_list<I, int>::value);
  FACT(!copy_list<H, AA, Al, D>::value && !copy_list<I, AA, IA, int>::value);
#if !VP_CXX14
  FACT(!copy_list_default<I>::value);
  FACT(!copy_list<I, AA, IA>::value);
  FACT(!copy_list<H, TP, std::initializer_list<int>, int>::value);
  FACT(!copy_list<H, AA, Al, TP, int>::value && !copy_list<I, AA, IA, TP>::value);
  FACT(!copy_list<H, AA, Al, TP, std::initializer_list<int>, int>::value);
  FACT(!copy_list<H, int>::value && !copy_list<H, AA, Al, int>::value);
  FACT(std::is_constructible<H, int>::value && std::is_constructible<H, AA, Al, int>::value);
  FACT(!std::is_constructible<H, std::string>::value);
#endif
  FACT(std::is_convertible<H, H>::value && std::is_convertible<const H&, H>::value);
  FACT(copy_list<H, AA, Al, H>::value && copy_list<H, AA, Al, const H&>::value);
  using N = xyz::indirect<int, NoDefAlloc<int>>;
  using NA = NoDefAlloc<int>;
  FACT(!std::is_default_constructible<N>::value && std::is_constructible<N, AA, NA>::value);
  FACT(!std::is_constructible<N, TP, int>::value && std::is_constructible<N, AA, NA, TP, int>::value);
#if !VP_CXX14
  FACT(!std::is_constructible<N, int>::value);
#endif
  FACT(std::is_constructible<N, AA, NA, int>::value);
  FACT(std::is_same<H::value_type, D>::value && std::is_same<H::allocator_type, Al>::value &&
       std::is_same<H::pointer, D*>::value && std::is_same<H::const_pointer, const D*>::value);
#if __cplusplus >= 201703L
  // Deduction guides.
  {
    xyz::indirect a(5);
    FACT(std::is_same<decltype(a), xyz::indirect<int>>::value);
    FACT(*a == 5);
    const std::string text("guide");
    xyz::indirect b(text);
    FACT(std::is_same<decltype(b), xyz::indirect<std::string>>::value);
    xyz::indirect e(a);
    FACT(std::is_same<decltype(e), xyz::indirect<int>>::value);
    xyz::indirect f(std::move(b));
    FACT(std::is_same<decltype(f), xyz::indirect<std::string>>::value);
    xyz::indirect g(std::allocator_arg, std::allocator<char>(), 5);
    FACT(std::is_same<decltype(g), xyz::indirect<int>>::value);
    xyz::indirect h(std::allocator_arg, SpyAlloc<char, C0>(2, 3), text);
    FACT(std::is_same<decltype(h),
                      xyz::indirect<std::string, SpyAlloc<std::string, C0>>>::value);
    FACT(*h == "guide" && h.get_allocator().arena == 2);
  }
#endif
#endif
}

}  // namespace
}  // namespace vp
