// C09: the hash of an indirect is the hash of its value; unordered containers
// keyed by indirects behave like containers keyed by the values.
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "alloc.hpp"
#include "hdr.hpp"
#include "prop.hpp"

namespace vp {
namespace {
struct Key {  // many collisions; the hash ignores part of the state
  int id, noise;
};
bool operator==(const Key& a, const Key& b) { return a.id == b.id; }
bool operator<(const Key& a, const Key& b) { return a.id < b.id; }
#if !(__cplusplus >= 202002L) || VP_CXX14
bool operator!=(const Key& a, const Key& b) { return a.id != b.id; }
#endif
enum class Col : unsigned char { r, g, b };
}  // namespace
}  // namespace vp
template <>
struct std::hash<vp::Key> {
  std::size_t operator()(const vp::Key& k) const {
    return static_cast<std::size_t>(k.id % 3) + 1000;
  }
};

namespace vp {
namespace {
using C0 = Cfg<false, false, false, false, false, false>;
using C1 = Cfg<true, true, true, true, false, true>;
template <class T>
struct Gen;
template <>
struct Gen<int> {
  static int make(Ctx& c) {
    static const int e[] = {0, 1, -1, 2, 17, std::numeric_limits<int>::max(),
                            std::numeric_limits<int>::min()};
    return c.chance(50) ? e[c.below(7)] : c.below(1 << 20);
  }
};
template <>
struct Gen<double> {
  static double make(Ctx& c) {
    static const double e[] = {0.0, -0.0, 1, -1, 0.5,
                               std::numeric_limits<double>::infinity()};
    return e[c.below(6)];
  }
};
template <>
struct Gen<std::string> {
  static std::string make(Ctx& c) {
    std::string s;
    int n = c.below(40);
    for (int i = 0; i < n; ++i) s += static_cast<char>('a' + c.below(3));
    return s;
  }
};
template <>
struct Gen<Key> {
  static Key make(Ctx& c) {
    int id = c.below(9);
    return Key{id, c.below(100)};
  }
};
template <>
struct Gen<Col> {
  static Col make(Ctx& c) { return static_cast<Col>(c.below(3)); }
};
template <class T, class A>
xyz::indirect<T, A> make(Ctx& c, const T& v, bool empty) {
  using H = xyz::indirect<T, A>;
  int arena = c.below(3);
  H h(std::allocator_arg, A(arena, c.below(5)), v);
  int how = c.below(3);
  if (how == 1) {
    H t(h);
    swap(t, h);
  } else if (how == 2) {
    H t(std::allocator_arg, A(c.below(3), 9), std::move(h));
    h = t;
  }
  if (empty) {
    H t(std::move(h));
    if (c.below(2)) {
      H u(std::move(h));  // stays valueless
    }
  }
  return h;
}

template <class T>
void one(Ctx& c, const char* name) {
  using A0 = SpyAlloc<T, C0>;
  using A1 = SpyAlloc<T, C1>;
  const T v = Gen<T>::make(c), w = c.chance(40) ? v : Gen<T>::make(c);
  const bool ev = c.below(4) == 3, ew = c.below(4) == 3;
  const xyz::indirect<T, A0> a = make<T, A0>(c, v, ev);
  const xyz::indirect<T, A0> b = make<T, A0>(c, w, ew);
  const xyz::indirect<T, A1> d = make<T, A1>(c, w, ew);
  std::hash<xyz::indirect<T, A0>> h0;
  const std::hash<xyz::indirect<T, A1>> h1{};
  const std::hash<T> ht{};
  c << name << (ev ? " valueless" : " value") << (ew ? " valueless" : " value")
    << (v == w ? " same" : " different");
  c.cls(ev || ew ? "valueless" : v == w ? "equal" : "different");
  if (ev || ew || v == w) c.nontrivial();
  Window win;
  if (!ev) c.check(h0(a) == ht(v), "hash is the hash of the value");
  if (!ew) {
    c.check(h0(b) == ht(w), "hash is the hash of the value");
    c.check(h1(d) == ht(w), "hash is the hash of the value, other allocator");
  }
  c.check(h0(a) == std::hash<xyz::indirect<T, A0>>{}(a), "hash is repeatable");
  c.check(h0(b) == std::hash<xyz::indirect<T, A0>>{}(b), "hash is repeatable");
  if (a == b) c.check(h0(a) == h0(b), "equal indirects hash equally");
  if (ev && ew) c.check(h0(a) == h0(b), "valueless indirects hash equally");
  if (L.win.alloc || L.win.dealloc) c.fail("hashing allocated or released memory");
  c.check(a.valueless_after_move() == ev && b.valueless_after_move() == ew,
          "hashing changed a handle");
  if (!ev) c.check(*a == v, "hashing changed the value");
}

// unordered_map<indirect<T>, int> against std::map over optional values.
template <class T>
void container(Ctx& c) {
  using A = SpyAlloc<T, C0>;
  using H = xyz::indirect<T, A>;
  std::unordered_map<H, int> m;
  std::unordered_multiset<H> ms;
  std::vector<std::pair<bool, T>> order;
  struct Less {
    bool operator()(const std::pair<bool, T>& x, const std::pair<bool, T>& y) const {
      if (!x.first || !y.first) return x.first < y.first;
      return x.second < y.second;
    }
  };
  std::map<std::pair<bool, T>, int, Less> model;
  std::multiset<std::pair<bool, T>, Less> mmodel;
  int n = 1 + c.below(40), hits = 0;
  for (int i = 0; i < n && !c.failed; ++i) {
    bool full = c.below(12) != 11;
    std::pair<bool, T> k(full, Gen<T>::make(c));
    H h = make<T, A>(c, k.second, !full);
    int op = c.below(5);
    if (op < 2) {
      m[h] = i;
      hits += static_cast<int>(model.count(k));
      model[k] = i;
      ms.insert(h);
      mmodel.insert(k);
    } else if (op == 2) {
      c.check(m.erase(h) == model.erase(k), "erase finds the same keys");
      c.check(ms.erase(h) == mmodel.erase(k), "multi erase finds the same keys");
    } else if (op == 3) {
      auto it = m.find(h);
      auto jt = model.find(k);
      c.check((it == m.end()) == (jt == model.end()), "find agrees");
      if (it != m.end() && jt != model.end()) {
        ++hits;
        c.check(it->second == jt->second, "find gives the same entry");
      }
      c.check(ms.count(h) == mmodel.count(k), "count agrees");
    } else {
      m.rehash(static_cast<std::size_t>(c.below(60)));
      auto copy = m;
      m = std::move(copy);
    }
    c.check(m.size() == model.size() && ms.size() == mmodel.size(), "sizes agree");
  }
  c << "operations " << n << " hits " << hits;
  if (hits) c.nontrivial();
  for (auto& e : m) {
    std::pair<bool, T> k(!e.first.valueless_after_move(), T());
    if (k.first) k.second = *e.first;
    auto it = model.find(k);
    c.check(it != model.end() && it->second == e.second, "contents agree");
  }
}

// Hashing through nested handles.
void nested(Ctx& c) {
  using I = xyz::indirect<int, SpyAlloc<int, C0>>;
  using II = xyz::indirect<I, SpyAlloc<I, C1>>;
  int v = Gen<int>::make(c);
  int state = c.below(3);  // 0 value, 1 inner valueless, 2 outer valueless
  I i = make<int, SpyAlloc<int, C0>>(c, v, state == 1);
  II o(std::allocator_arg, SpyAlloc<I, C1>(0, 0), i);
  if (state == 2) {
    II t(std::move(o));
  }
  const II copy(o);
  c << "nested " << state;
  if (state) c.nontrivial();
  std::hash<II> h;
  c.check(h(o) == h(copy), "copies hash equally");
  if (state == 0) c.check(h(o) == std::hash<int>{}(v), "nested hash is the value's hash");
  if (state == 1) c.check(h(o) == std::hash<I>{}(i), "nested hash is the inner hash");
}
}  // namespace
}  // namespace vp
using namespace vp;

VP_SUITE(values, 6) {
  switch (c.below(5)) {
    case 0: one<int>(c, "int"); break;
    case 1: one<double>(c, "double"); break;
    case 2: one<std::string>(c, "string"); break;
    case 3: one<Key>(c, "colliding key"); break;
    default: one<Col>(c, "enum");
  }
}
VP_SUITE(containers, 2) {
  switch (c.below(3)) {
    case 0: container<Key>(c); break;
    case 1: container<std::string>(c); break;
    default: container<int>(c);
  }
}
VP_SUITE(nesting, 1) { nested(c); }
VP_SUITE(all_valueless, 1) {
  // One result for every valueless handle of a type, however it got there.
  using H = xyz::indirect<std::string>;
  std::size_t first = 0;
  int n = 2 + c.below(5);
  for (int i = 0; i < n; ++i) {
    H h(Gen<std::string>::make(c));
    switch (c.below(3)) {
      case 0: {
        H t(std::move(h));
        break;
      }
      case 1: {
        H t(std::string("x"));
        t = std::move(h);
        break;
      }
      default: {
        H t(std::string("x"));
        H u(std::move(t));
        swap(h, t);
      }
    }
    if (!c.check(h.valueless_after_move(), "handle should be valueless")) return;
    std::size_t x = std::hash<H>{}(h);
    if (i == 0) first = x;
    c.check(x == first, "every valueless handle hashes the same");
  }
  c << "valueless handles " << n;
  c.nontrivial();
}
