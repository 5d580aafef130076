// C08: every comparison involving an indirect is the comparison of the owned
// values, with valueless lowest.
#include <cmath>
#include <limits>
#include <string>
#include <tuple>
#include <type_traits>

#include "alloc.hpp"
#include "hdr.hpp"
#include "prop.hpp"
#if __cplusplus >= 202002L
#include <compare>
#define CPP20 1
#else
#define CPP20 0
#endif

namespace vp {
namespace {

// Only < and ==: ordering must be synthesised.
struct LessOnly {
  int v;
};
bool operator==(const LessOnly& a, const LessOnly& b) { return a.v == b.v; }
bool operator!=(const LessOnly& a, const LessOnly& b) { return a.v != b.v; }
bool operator<(const LessOnly& a, const LessOnly& b) { return a.v < b.v; }
#if !CPP20 || VP_CXX14
bool operator>(const LessOnly& a, const LessOnly& b) { return a.v > b.v; }
bool operator<=(const LessOnly& a, const LessOnly& b) { return a.v <= b.v; }
bool operator>=(const LessOnly& a, const LessOnly& b) { return a.v >= b.v; }
#endif

// Equality coarser than identity: compares modulo 4 only.
struct Coarse {
  int v;
};
#if CPP20
bool operator==(const Coarse& a, const Coarse& b) { return a.v % 4 == b.v % 4; }
std::weak_ordering operator<=>(const Coarse& a, const Coarse& b) {
  return a.v % 4 <=> b.v % 4;
}
#else
bool operator==(const Coarse& a, const Coarse& b) { return a.v % 4 == b.v % 4; }
bool operator!=(const Coarse& a, const Coarse& b) { return a.v % 4 != b.v % 4; }
bool operator<(const Coarse& a, const Coarse& b) { return a.v % 4 < b.v % 4; }
bool operator>(const Coarse& a, const Coarse& b) { return a.v % 4 > b.v % 4; }
bool operator<=(const Coarse& a, const Coarse& b) { return a.v % 4 <= b.v % 4; }
bool operator>=(const Coarse& a, const Coarse& b) { return a.v % 4 >= b.v % 4; }
#endif

// A partial order: componentwise; many pairs are unordered.
struct Pair {
  int x, y;
};
#if CPP20
bool operator==(const Pair& a, const Pair& b) { return a.x == b.x && a.y == b.y; }
std::partial_ordering operator<=>(const Pair& a, const Pair& b) {
  bool le = a.x <= b.x && a.y <= b.y, ge = a.x >= b.x && a.y >= b.y;
  if (le && ge) return std::partial_ordering::equivalent;
  if (le) return std::partial_ordering::less;
  if (ge) return std::partial_ordering::greater;
  return std::partial_ordering::unordered;
}
#else
bool operator==(const Pair& a, const Pair& b) { return a.x == b.x && a.y == b.y; }
bool operator!=(const Pair& a, const Pair& b) { return !(a == b); }
bool operator<=(const Pair& a, const Pair& b) { return a.x <= b.x && a.y <= b.y; }
bool operator>=(const Pair& a, const Pair& b) { return a.x >= b.x && a.y >= b.y; }
bool operator<(const Pair& a, const Pair& b) { return a <= b && a != b; }
bool operator>(const Pair& a, const Pair& b) { return a >= b && a != b; }
#endif

// Equality finer than the equivalence of the order, and no <=>.
struct Ranked {
  int key, tag;
};
bool operator==(const Ranked& a, const Ranked& b) { return a.key == b.key && a.tag == b.tag; }
bool operator!=(const Ranked& a, const Ranked& b) { return !(a == b); }
bool operator<(const Ranked& a, const Ranked& b) { return a.key < b.key; }
#if !CPP20 || VP_CXX14
bool operator>(const Ranked& a, const Ranked& b) { return a.key > b.key; }
bool operator<=(const Ranked& a, const Ranked& b) { return a.key <= b.key; }
bool operator>=(const Ranked& a, const Ranked& b) { return a.key >= b.key; }
#endif

// Only ==/!=.
struct EqOnly {
  int v;
};
bool operator==(const EqOnly& a, const EqOnly& b) { return a.v == b.v; }
#if !CPP20 || VP_CXX14
bool operator!=(const EqOnly& a, const EqOnly& b) { return a.v != b.v; }
#endif

template <class T>
struct Gen;
template <>
struct Gen<int> {
  static int make(Ctx& c) {
    static const int edge[] = {0, 1, -1, 2, 3, std::numeric_limits<int>::max(),
                               std::numeric_limits<int>::min(), 7};
    return edge[c.below(8)];
  }
};
template <>
struct Gen<long> {
  static long make(Ctx& c) {
    static const long edge[] = {0, 1, -1, 2, 3, std::numeric_limits<long>::max(),
                                std::numeric_limits<long>::min(), 1L << 40};
    return edge[c.below(8)];
  }
};
template <>
struct Gen<double> {
  static double make(Ctx& c) {
    static const double edge[] = {0.0, -0.0, 1, -1, 0.5, 2,
                                  std::numeric_limits<double>::quiet_NaN(),
                                  std::numeric_limits<double>::infinity(),
                                  -std::numeric_limits<double>::infinity(), 3};
    return edge[c.below(10)];
  }
};
template <>
struct Gen<std::string> {
  static std::string make(Ctx& c) {
    static const char* const edge[] = {"", "a", "b", "ab", "aa", "B",
                                       "a long string that is not stored inline",
                                       "a long string that is not stored inlinf"};
    return edge[c.below(8)];
  }
};
template <>
struct Gen<const char*> {
  static const char* make(Ctx& c) {
    static const char* const edge[] = {"", "a", "b", "ab", "B",
                                       "a long string that is not stored inline"};
    return edge[c.below(6)];
  }
};
template <>
struct Gen<LessOnly> {
  static LessOnly make(Ctx& c) { return LessOnly{c.below(4)}; }
};
template <>
struct Gen<EqOnly> {
  static EqOnly make(Ctx& c) { return EqOnly{c.below(4)}; }
};
template <>
struct Gen<Ranked> {
  static Ranked make(Ctx& c) {
    int k = c.below(3);
    return Ranked{k, c.below(3)};
  }
};
template <>
struct Gen<Coarse> {
  static Coarse make(Ctx& c) { return Coarse{c.below(9)}; }
};
template <>
struct Gen<Pair> {
  static Pair make(Ctx& c) {
    int x = c.below(3);
    return Pair{x, c.below(3)};
  }
};
template <class T>
void show(std::ostream& o, const T& t) {
  o << t;
}
void show(std::ostream& o, const LessOnly& t) { o << "LessOnly" << t.v; }
void show(std::ostream& o, const EqOnly& t) { o << "EqOnly" << t.v; }
void show(std::ostream& o, const Ranked& t) { o << "Ranked" << t.key << "." << t.tag; }
void show(std::ostream& o, const Coarse& t) { o << "Coarse" << t.v; }
void show(std::ostream& o, const Pair& t) { o << "(" << t.x << "," << t.y << ")"; }

struct Opts {
  bool valueless;
  int arena;
};

// A handle in a generated state; reaching a state takes one of several routes.
template <class H>
H build(Ctx& c, const typename H::value_type& v, bool valueless, int arena) {
  using A = typename H::allocator_type;
  H h(std::allocator_arg, A(arena, arena), v);
  switch (c.below(3)) {
    case 1: {
      H t(std::move(h));
      if (!valueless) h = std::move(t);
      break;
    }
    case 2: {
      H t(h);
      swap(t, h);
      if (valueless) {
        H u(std::move(h));
      }
      break;
    }
    default:
      if (valueless) {
        H u(std::move(h));
      }
  }
  return h;
}

enum { EQ = 1, NE = 2, LT = 4, GT = 8, LE = 16, GE = 32 };
const char* const bit_name[] = {"==", "!=", "<", ">", "<=", ">="};

template <class X, class Y>
int six(const X& a, const Y& b) {
  return (a == b ? EQ : 0) | (a != b ? NE : 0) | (a < b ? LT : 0) |
         (a > b ? GT : 0) | (a <= b ? LE : 0) | (a >= b ? GE : 0);
}
int order_bits(int cmp) {
  return (cmp == 0 ? EQ : NE) | (cmp < 0 ? LT : 0) | (cmp > 0 ? GT : 0) |
         (cmp <= 0 ? LE : 0) | (cmp >= 0 ? GE : 0);
}

template <class X, class Y>
void expect(Ctx& c, const char* what, int got, int want, const X& a, bool ea,
            const Y& b, bool eb) {
  c.check(got == want, what, [&](std::ostream& o) {
    if (ea) o << "valueless";
    else show(o, a);
    o << " vs ";
    if (eb) o << "valueless";
    else show(o, b);
    for (int i = 0; i < 6; ++i)
      if ((got ^ want) >> i & 1)
        o << ": operator" << bit_name[i] << " gave " << (got >> i & 1);
  });
}

// The values' own answer; types with only < and == get the answers the
// specification synthesises from them.
template <class X, class Y>
int value_bits(const X& a, const Y& b) {
  return six(a, b);
}
int value_bits(const LessOnly& a, const LessOnly& b) {
  return order_bits(a < b ? -1 : b < a ? 1 : 0);
}
int value_bits(const Ranked& a, const Ranked& b) {
  return (order_bits(a < b ? -1 : b < a ? 1 : 0) & ~(EQ | NE)) | (a == b ? EQ : NE);
}
// What <=> says, where == is not its equivalence.
template <class X, class Y>
int order_of(const X&, const Y&, int bits) {
  return bits;
}
int order_of(const Ranked& a, const Ranked& b, int) {
  return order_bits(a < b ? -1 : b < a ? 1 : 0);
}

template <class X, class Y, class CA, class CB>
void both(Ctx& c, const char* tag) {
  using HX = xyz::indirect<X, SpyAlloc<X, CA>>;
  using HY = xyz::indirect<Y, SpyAlloc<Y, CB>>;
  const X a = Gen<X>::make(c);
  const Y b = Gen<Y>::make(c);
  const bool ea = c.below(4) == 3, eb = c.below(4) == 3;
  const HX ha = build<HX>(c, a, ea, c.below(3));
  const HY hb = build<HY>(c, b, eb, c.below(3));
  const int want = ea || eb ? order_bits(ea && eb ? 0 : ea ? -1 : 1)
                            : value_bits(a, b);
  c << tag << (ea ? " valueless" : " value") << (eb ? " valueless" : " value")
    << " bits " << want;
  if (ea != eb) c.cls("one valueless");
  else if (ea) c.cls("both valueless");
  else if (want & EQ) c.cls("equal");
  else if (!(want & (LT | GT))) c.cls("unordered");
  else c.cls("ordered");
  if (ea || eb || !(want & NE) || !(want & (LT | GT))) c.nontrivial();
  Window w;
  const int got = six(ha, hb);
  if (L.win.alloc || L.win.dealloc)
    c.fail("a comparison allocated or released memory");
  expect(c, "indirect with indirect", got, want, a, ea, b, eb);
#if CPP20 && !VP_CXX14
  {
    auto r = ha <=> hb;
    int bits = (r < 0 ? LT : 0) | (r > 0 ? GT : 0) | (r == 0 ? EQ : NE) |
               (r <= 0 ? LE : 0) | (r >= 0 ? GE : 0);
    int wanted = ea || eb ? want : order_of(a, b, want);
    expect(c, "<=> of indirects", bits, wanted, a, ea, b, eb);
  }
#endif
  c.check(ha.valueless_after_move() == ea && hb.valueless_after_move() == eb,
          "comparison changed a handle");
  if (!ea) c.check(value_bits(*ha, a) == value_bits(a, a), "operand changed");
}

template <class X, class V, class CA>
void with_value(Ctx& c, const char* tag) {
  using HX = xyz::indirect<X, SpyAlloc<X, CA>>;
  const X a = Gen<X>::make(c);
  const V b = Gen<V>::make(c);
  const bool ea = c.below(3) == 2;
  const HX ha = build<HX>(c, a, ea, c.below(3));
  const int want = ea ? order_bits(-1) : value_bits(a, b);
  const int tnaw = ea ? order_bits(1) : value_bits(b, a);
  c << tag << (ea ? " valueless" : " value") << " bits " << want;
  c.cls(ea ? "valueless" : want & EQ ? "equal" : !(want & (LT | GT)) ? "unordered" : "ordered");
  if (ea || !(want & NE) || !(want & (LT | GT))) c.nontrivial();
  expect(c, "indirect with value", six(ha, b), want, a, ea, b, false);
  const int got = six(b, ha);
  c.check(got == tnaw, "value with indirect", [&](std::ostream& o) {
    show(o, b);
    o << " vs ";
    if (ea) o << "valueless";
    else show(o, a);
    for (int i = 0; i < 6; ++i)
      if ((got ^ tnaw) >> i & 1)
        o << ": operator" << bit_name[i] << " gave " << (got >> i & 1);
  });
#if CPP20 && !VP_CXX14
  auto r = ha <=> b;
  int bits = (r < 0 ? LT : 0) | (r > 0 ? GT : 0) | (r == 0 ? EQ : NE) |
             (r <= 0 ? LE : 0) | (r >= 0 ? GE : 0);
  expect(c, "<=> with value", bits, ea ? want : order_of(a, b, want), a, ea, b, false);
#endif
}

template <class X, class CA, class CB>
void equality(Ctx& c) {
  using HX = xyz::indirect<X, SpyAlloc<X, CA>>;
  using HY = xyz::indirect<X, SpyAlloc<X, CB>>;
  const X a = Gen<X>::make(c), b = Gen<X>::make(c);
  const bool ea = c.below(4) == 3, eb = c.below(4) == 3;
  const HX ha = build<HX>(c, a, ea, c.below(3));
  const HY hb = build<HY>(c, b, eb, c.below(3));
  const bool want = ea || eb ? ea && eb : a == b;
  c << "equality only " << ea << eb << want;
  c.cls(ea || eb ? "valueless" : want ? "equal" : "different");
  if (ea || eb || want) c.nontrivial();
  c.check((ha == hb) == want && (hb == ha) == want && (ha != hb) == !want &&
              (hb != ha) == !want,
          "equality of indirects of an equality-comparable type");
  const bool wv = !ea && a == b;
  c.check((ha == b) == wv && (b == ha) == wv && (ha != b) == !wv &&
              (b != ha) == !wv,
          "equality of an indirect and a value of an equality-comparable type");
}

// A handle against itself, its own value, and handles sharing nothing but the
// value: identity of the operands must not enter the answer.
template <class X, class CA>
void self(Ctx& c, const char* tag) {
  using HX = xyz::indirect<X, SpyAlloc<X, CA>>;
  const X a = Gen<X>::make(c);
  const bool ea = c.below(4) == 3;
  const HX h = build<HX>(c, a, ea, c.below(3));
  const HX copy(h);
  const int want = ea ? order_bits(0) : value_bits(a, a);
  c << tag << (ea ? " valueless" : " value") << " bits " << want;
  c.cls(ea ? "valueless" : want & EQ ? "reflexive" : "irreflexive");
  if (ea || !(want & EQ)) c.nontrivial();
  expect(c, "indirect with itself", six(h, h), want, a, ea, a, ea);
  expect(c, "indirect with its copy", six(h, copy), want, a, ea, a, ea);
#if CPP20 && !VP_CXX14
  auto r = h <=> h;
  expect(c, "<=> with itself",
         (r < 0 ? LT : 0) | (r > 0 ? GT : 0) | (r == 0 ? EQ : NE) |
             (r <= 0 ? LE : 0) | (r >= 0 ? GE : 0),
         want, a, ea, a, ea);
#endif
  if (ea) return;
  expect(c, "indirect with its own value", six(h, *h), want, a, false, a, false);
  expect(c, "own value with its indirect", six(*h, h), want, a, false, a, false);
  expect(c, "indirect with its copy's value", six(h, *copy), want, a, false, a, false);
#if CPP20 && !VP_CXX14
  auto v = h <=> *h;
  expect(c, "<=> with its own value",
         (v < 0 ? LT : 0) | (v > 0 ? GT : 0) | (v == 0 ? EQ : NE) |
             (v <= 0 ? LE : 0) | (v >= 0 ? GE : 0),
         want, a, false, a, false);
#endif
  using HH = xyz::indirect<HX, SpyAlloc<HX, CA>>;
  const HH hh(std::allocator_arg, SpyAlloc<HX, CA>(0, 0), h);
  expect(c, "nested indirect with itself", six(hh, hh), want, a, ea, a, ea);
}

using C0 = Cfg<false, false, false, false, false, false>;
using C1 = Cfg<true, true, true, true, false, true>;
}  // namespace
}  // namespace vp
using namespace vp;

VP_SUITE(same_type, 5) {
  switch (c.below(7)) {
    case 0: both<int, int, C0, C0>(c, "int/int"); break;
    case 1: both<double, double, C0, C0>(c, "double/double"); break;
    case 2: both<std::string, std::string, C1, C1>(c, "string/string"); break;
    case 3: both<LessOnly, LessOnly, C0, C0>(c, "LessOnly"); break;
    case 4: both<Coarse, Coarse, C0, C0>(c, "Coarse"); break;
    case 5: both<Ranked, Ranked, C0, C0>(c, "Ranked"); break;
    default: both<Pair, Pair, C1, C1>(c, "Pair");
  }
}
VP_SUITE(different_types, 4) {
  switch (c.below(9)) {
    case 0: both<int, long, C0, C0>(c, "int/long"); break;
    case 1: both<long, int, C0, C1>(c, "long/int"); break;
    case 2: both<int, double, C1, C0>(c, "int/double"); break;
    case 3: both<double, int, C0, C0>(c, "double/int"); break;
    case 4: both<int, int, C0, C1>(c, "int/int different allocators"); break;
    case 5: both<double, double, C1, C0>(c, "double/double different allocators"); break;
    case 6: both<LessOnly, LessOnly, C1, C0>(c, "LessOnly different allocators"); break;
    case 7: both<Ranked, Ranked, C1, C0>(c, "Ranked different allocators"); break;
    default: both<Pair, Pair, C0, C1>(c, "Pair different allocators");
  }
}
VP_SUITE(same_object, 2) {
  switch (c.below(8)) {
    case 6: self<Ranked, C0>(c, "Ranked"); break;
    case 0: self<int, C0>(c, "int"); break;
    case 1: self<double, C1>(c, "double"); break;
    case 2: self<double, C0>(c, "double"); break;
    case 3: self<std::string, C1>(c, "string"); break;
    case 4: self<LessOnly, C0>(c, "LessOnly"); break;
    case 5: self<Coarse, C0>(c, "Coarse"); break;
    default: self<Pair, C1>(c, "Pair");
  }
}
VP_SUITE(with_plain_value, 5) {
  switch (c.below(12)) {
    case 11: with_value<Ranked, Ranked, C1>(c, "Ranked"); break;
    case 9: with_value<LessOnly, LessOnly, C0>(c, "LessOnly"); break;
    case 10: with_value<std::string, const char*, C0>(c, "string/const char*"); break;
    case 0: with_value<int, int, C0>(c, "int/int"); break;
    case 1: with_value<int, long, C1>(c, "int/long"); break;
    case 2: with_value<long, int, C0>(c, "long/int"); break;
    case 3: with_value<int, double, C0>(c, "int/double"); break;
    case 4: with_value<double, double, C0>(c, "double/double"); break;
    case 5: with_value<std::string, std::string, C1>(c, "string/string"); break;
    case 6: with_value<double, int, C1>(c, "double/int"); break;
    case 7: with_value<Coarse, Coarse, C0>(c, "Coarse"); break;
    default: with_value<Pair, Pair, C0>(c, "Pair");
  }
}
VP_SUITE(equality_only, 1) {
  if (c.below(2)) equality<EqOnly, C0, C1>(c);
  else equality<EqOnly, C1, C1>(c);
}

// The order is lexicographic through nested handles, and total over triples.
VP_SUITE(laws, 3) {
  using I = xyz::indirect<int, SpyAlloc<int, C0>>;
  using II = xyz::indirect<I, SpyAlloc<I, C0>>;
  auto mk = [&](int& code) -> II {
    code = c.below(5);  // 0 valueless, 1 holds valueless, else a value
    I i(std::allocator_arg, SpyAlloc<int, C0>(c.below(2), 0), code);
    if (code == 1) {
      I t(std::move(i));
    }
    II r(std::allocator_arg, SpyAlloc<I, C0>(c.below(2), 0), std::move(i));
    if (code == 0) {
      II t(std::move(r));
    }
    return r;
  };
  int k[3];
  II h[3] = {mk(k[0]), mk(k[1]), mk(k[2])};
  c << "nested " << k[0] << " " << k[1] << " " << k[2];
  if (k[0] < 2 || k[1] < 2 || k[0] == k[1]) c.nontrivial();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      int want = order_bits(k[i] < k[j] ? -1 : k[i] > k[j] ? 1 : 0);
      c.check(six(h[i], h[j]) == want, "nested indirects are ordered by depth and value");
    }
}

#if CPP20 && !VP_CXX14
// The category of the result is that of the owned types.
VP_SUITE(facts_category, 0) {
  using xyz::indirect;
  c.check(std::is_same_v<decltype(std::declval<const indirect<int>&>() <=>
                                  std::declval<const indirect<int>&>()),
                         std::strong_ordering>, "int orders strongly");
  c.check(std::is_same_v<decltype(std::declval<const indirect<double>&>() <=>
                                  std::declval<const indirect<double>&>()),
                         std::partial_ordering>, "double orders partially");
  c.check(std::is_same_v<decltype(std::declval<const indirect<double>&>() <=>
                                  std::declval<const indirect<int>&>()),
                         std::partial_ordering>, "double/int orders partially");
  c.check(std::is_same_v<decltype(std::declval<const indirect<Coarse>&>() <=>
                                  std::declval<const indirect<Coarse>&>()),
                         std::weak_ordering>, "Coarse orders weakly");
  c.check(std::is_same_v<decltype(std::declval<const indirect<LessOnly>&>() <=>
                                  std::declval<const indirect<LessOnly>&>()),
                         std::weak_ordering>, "synthesised orders are weak");
  c.check(std::is_same_v<decltype(std::declval<const indirect<int>&>() <=> 1),
                         std::strong_ordering>, "int with value orders strongly");
  c.check(std::is_same_v<decltype(std::declval<const indirect<double>&>() <=> 1.0),
                         std::partial_ordering>, "double with value orders partially");
  c.check(std::is_same_v<decltype(std::declval<const indirect<Coarse>&>() <=>
                                  std::declval<const Coarse&>()),
                         std::weak_ordering>, "Coarse with value orders weakly");
  c.check(std::is_same_v<decltype(std::declval<const indirect<std::string>&>() ==
                                  std::declval<const indirect<std::string>&>()),
                         bool>, "== is bool");
}
#endif
