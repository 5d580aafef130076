// C19: containers, algorithms and vocabulary types over handles behave as over
// the plain values.
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <stack>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif

#include "alloc.hpp"
#include "hdr.hpp"
#include "prop.hpp"

namespace vp {
namespace {
long live = 0;

// Ordered and hashed by key only, so that stability shows in the tag.
struct Item {
  int key, tag;
  int* own;  // sharing or destroying twice is visible
  explicit Item(int k = 0, int t = 0) : key(k), tag(t), own(new int(k * 100 + t)) { ++live; }
  Item(const Item& o) : key(o.key), tag(o.tag), own(new int(*o.own)) { ++live; }
  Item(Item&& o) : key(o.key), tag(o.tag), own(new int(*o.own)) {
    ++live;
    o.key = o.tag = -9;
    *o.own = -909;
  }
  Item& operator=(const Item& o) {
    key = o.key;
    tag = o.tag;
    *own = *o.own;
    return *this;
  }
  Item& operator=(Item&& o) {
    if (this == &o) return *this;
    *this = static_cast<const Item&>(o);
    o.key = o.tag = -9;
    *o.own = -909;
    return *this;
  }
  virtual ~Item() {
    --live;
    delete own;
    own = nullptr;
  }
  virtual int kind() const { return 0; }
  bool sane() const { return *own == key * 100 + tag; }
};
#define VP_CMP(OP) \
  inline bool operator OP(const Item& a, const Item& b) { return a.key OP b.key; }
VP_CMP(==) VP_CMP(!=) VP_CMP(<) VP_CMP(>) VP_CMP(<=) VP_CMP(>=)
#undef VP_CMP

#if VP_POLY
struct Item1 : Item {
  using Item::Item;
  double d[5] = {};
  int kind() const override { return 1; }
};
struct Side {
  int s = 4;
  virtual ~Side() = default;
};
struct Item2 : Side, Item {
  explicit Item2(int k, int t) : Item(k, t) {}
  int kind() const override { return s == 4 ? 2 : -1; }
};
#endif

// The plain value; key -1 is a valueless handle.
struct M {
  int key, tag;
  friend bool operator==(const M& a, const M& b) { return a.key == b.key; }
  friend bool operator!=(const M& a, const M& b) { return a.key != b.key; }
  friend bool operator<(const M& a, const M& b) { return a.key < b.key; }
  friend bool operator>(const M& a, const M& b) { return a.key > b.key; }
  friend bool operator<=(const M& a, const M& b) { return a.key <= b.key; }
  friend bool operator>=(const M& a, const M& b) { return a.key >= b.key; }
  bool same(const M& o) const { return key == o.key && tag == o.tag; }
};

#if VP_POLY
template <class A>
using HandleT = xyz::polymorphic<Item, A>;
#else
template <class A>
using HandleT = xyz::indirect<Item, A>;
#endif
}  // namespace
}  // namespace vp

template <>
struct std::hash<vp::Item> {
  std::size_t operator()(const vp::Item& v) const { return static_cast<std::size_t>(v.key / 3) + 50; }
};
template <>
struct std::hash<vp::M> {
  std::size_t operator()(const vp::M& v) const { return static_cast<std::size_t>(v.key / 3) + 50; }
};

namespace vp {
namespace {
template <class A>
M value_of(const HandleT<A>& h) {
  if (h.valueless_after_move()) return M{-1, 0};
  const Item& i = *h;
  if (!i.sane()) return M{-99, i.key};
#if VP_POLY
  if (i.kind() != i.key % 3) return M{-98, i.kind()};
#endif
  return M{i.key, i.tag};
}
struct Less {
  template <class A>
  bool operator()(const HandleT<A>& a, const HandleT<A>& b) const {
#if VP_POLY
    return value_of(a).key < value_of(b).key;
#else
    return a < b;
#endif
  }
  bool operator()(const M& a, const M& b) const { return a < b; }
};
struct Eq {
  template <class A>
  bool operator()(const HandleT<A>& a, const HandleT<A>& b) const {
#if VP_POLY
    return value_of(a).key == value_of(b).key;
#else
    return a == b;
#endif
  }
  bool operator()(const M& a, const M& b) const { return a == b; }
};
struct Hash {
  template <class A>
  std::size_t operator()(const HandleT<A>& a) const {
#if VP_POLY
    return std::hash<M>{}(value_of(a));
#else
    return std::hash<HandleT<A>>{}(a);
#endif
  }
  std::size_t operator()(const M& a) const { return std::hash<M>{}(a); }
};
struct KeyIs {
  int mod, r;
  template <class A>
  bool operator()(const HandleT<A>& a) const { return (*this)(value_of(a)); }
  bool operator()(const M& a) const { return (a.key + 1) % mod == r; }
};

template <class A, bool Mixed>
struct Kit {
  using H = HandleT<A>;
  static A alloc(Ctx& c, std::true_type) { return A(Mixed ? c.below(3) : 0, c.below(50)); }
  static A alloc(Ctx&, std::false_type) { return A(); }
  static A alloc(Ctx& c) { return alloc(c, std::is_constructible<A, int, int>{}); }
  static M any(Ctx& c) { return M{c.below(12), c.below(9)}; }
  static H make(Ctx& c, M m) {
    A a = alloc(c);
#if VP_POLY
    switch (m.key % 3) {
      case 1:
        return H(std::allocator_arg, a, VP_IN_PLACE_TYPE(Item1), m.key, m.tag);
      case 2:
        return H(std::allocator_arg, a, VP_IN_PLACE_TYPE(Item2), m.key, m.tag);
      default:
        return H(std::allocator_arg, a, VP_IN_PLACE_TYPE(Item), m.key, m.tag);
    }
#else
    return H(std::allocator_arg, a, VP_IN_PLACE, m.key, m.tag);
#endif
  }
  // A value, or rarely a valueless handle.
  static H make_any(Ctx& c, M& m, int empties) {
    m = any(c);
    H h = make(c, m);
    if (empties && c.chance(empties)) {
      H t(std::move(h));
      m = M{-1, 0};
      c.cls("valueless elements");
    }
    return h;
  }
};

template <class X, class Y>
bool same_seq(Ctx& c, const X& x, const Y& y, const char* what, const char* op) {
  bool ok = static_cast<std::size_t>(std::distance(x.begin(), x.end())) ==
            static_cast<std::size_t>(std::distance(y.begin(), y.end()));
  auto j = y.begin();
  std::size_t at = 0;
  M got{0, 0}, want{0, 0};
  if (ok)
    for (auto i = x.begin(); i != x.end(); ++i, ++j, ++at) {
      got = value_of(*i);
      want = *j;
      if (!got.same(want)) {
        ok = false;
        break;
      }
    }
  return c.check(ok, what, [&](std::ostream& o) {
    o << "after " << op << ": element " << at << " is " << got.key << "/" << got.tag
      << ", expected " << want.key << "/" << want.tag;
  });
}

struct Urbg {  // the same sequence for both
  using result_type = std::uint32_t;
  std::uint32_t s;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { return s = s * 1664525u + 1013904223u; }
};

// Runs an algorithm on both sequences.
template <class K, template <class...> class Seq>
struct Sequences {
  using H = typename K::H;
  using SH = Seq<H, std::allocator<H>>;
  using SM = Seq<M, std::allocator<M>>;
  SH x, x2;
  SM y, y2;
  int empties;

  template <class F>
  auto both(F f) -> void {
    f(x);
    f(y);
  }
  template <class S>
  static typename S::iterator at(S& s, int i) {
    return std::next(s.begin(), i);
  }
  static void shrink(std::vector<H>& v) { v.shrink_to_fit(); }
  static void shrink(std::deque<H>& v) { v.shrink_to_fit(); }
  static void shrink(std::list<H>&) {}
  static void reserve(std::vector<H>& v, std::size_t n) { v.reserve(n); }
  template <class S>
  static void reserve(S&, std::size_t) {}
  template <class S>
  static void random_access(Ctx&, S&, SM&, const char*&, int, std::input_iterator_tag) {}
  void random_access(Ctx& c, const char*& op, std::random_access_iterator_tag) {
    int n = static_cast<int>(y.size());
    int w = c.below(9);
    switch (w) {
      case 0:
        op = "sort";
        both([](auto& s) { std::sort(s.begin(), s.end(), Less{}); });
        break;
      case 1:
        op = "make_heap, pop_heap, push_heap";
        both([](auto& s) {
          std::make_heap(s.begin(), s.end(), Less{});
          if (s.size() > 1) {
            std::pop_heap(s.begin(), s.end(), Less{});
            std::push_heap(s.begin(), s.end(), Less{});
          }
        });
        break;
      case 2:
        op = "make_heap, sort_heap";
        both([](auto& s) {
          std::make_heap(s.begin(), s.end(), Less{});
          std::sort_heap(s.begin(), s.end(), Less{});
        });
        break;
      case 3: {
        int k = n ? c.below(n) : 0;
        op = "nth_element";
        both([k](auto& s) { std::nth_element(s.begin(), s.begin() + k, s.end(), Less{}); });
        break;
      }
      case 4: {
        int k = n ? c.below(n) : 0;
        op = "partial_sort";
        both([k](auto& s) { std::partial_sort(s.begin(), s.begin() + k, s.end(), Less{}); });
        break;
      }
      case 5: {
        std::uint32_t seed = static_cast<std::uint32_t>(c.below(1000));
        op = "shuffle";
        both([seed](auto& s) { std::shuffle(s.begin(), s.end(), Urbg{seed}); });
        break;
      }
      case 6:
      case 7:
        op = "stable_sort";
        both([](auto& s) { std::stable_sort(s.begin(), s.end(), Less{}); });
        break;
      default: {
        int k = n ? c.below(n) : 0;
        op = "move and move_backward";
        both([k](auto& s) {  // rotate the tail one to the right by hand
          if (s.empty()) return;
          auto t = std::move(s.back());
          std::move_backward(s.begin() + k, s.end() - 1, s.end());
          s[static_cast<std::size_t>(k)] = std::move(t);
        });
      }
    }
  }
  void random_access(Ctx& c, const char*& op, std::input_iterator_tag) {
    op = "list operations";
    int k = y.empty() ? 0 : c.below(static_cast<int>(y.size()));
    list_ops(x, x2, k);
    list_ops(y, y2, k);
  }
  template <class S>
  static auto list_ops(S& s, S& t, int k) -> decltype(s.splice(s.begin(), t)) {
    s.sort(Less{});
    t.sort(Less{});
    if (k % 2)
      s.merge(t, Less{});
    else
      s.splice(at(s, k), t);
    s.reverse();
  }
  template <class S>
  static void list_ops(S&, S&, ...) {}

  void step(Ctx& c, const char*& op) {
    using It = typename std::iterator_traits<typename SH::iterator>::iterator_category;
    int n = static_cast<int>(y.size());
    int i = n ? c.below(n) : 0, j = n ? c.below(n) : 0;
    if (i > j) std::swap(i, j);
    M m;
    switch (c.below(32)) {
      case 0:
      case 1:
      case 2: {
        H h = K::make_any(c, m, empties);
        y.push_back(m);
        op = "push_back of a copy";
        x.push_back(h);
        break;
      }
      case 3:
      case 4: {
        H h = K::make_any(c, m, empties);
        y.push_back(m);
        op = "push_back of an rvalue";
        x.push_back(std::move(h));
        break;
      }
      case 5: {
        if (!n) break;
        y.push_back(y.front());
        op = "push_back of an own element";
        x.push_back(x.front());
        break;
      }
      case 6: {
        H h = K::make_any(c, m, empties);
        op = "insert";
        y.insert(at(y, i), m);
        if (c.chance(50))
          x.insert(at(x, i), h);
        else
          x.insert(at(x, i), std::move(h));
        break;
      }
      case 7: {
        if (!n) break;
        op = "insert of an own element";
        M t = *at(y, j);
        y.insert(at(y, i), t);
        x.insert(at(x, i), *at(x, j));
        break;
      }
      case 8: {
        H h = K::make_any(c, m, empties);
        op = "insert n copies";
        int k = c.below(4);
        y.insert(at(y, i), static_cast<std::size_t>(k), m);
        x.insert(at(x, i), static_cast<std::size_t>(k), h);
        break;
      }
      case 9:
        if (!n) break;
        op = "erase";
        x.erase(at(x, i));
        y.erase(at(y, i));
        break;
      case 10:
        op = "erase a range";
        x.erase(at(x, i), at(x, j));
        y.erase(at(y, i), at(y, j));
        break;
      case 11:
        if (!n) break;
        op = "pop_back";
        x.pop_back();
        y.pop_back();
        break;
      case 12:
        op = "swap containers";
        x.swap(x2);
        y.swap(y2);
        break;
      case 13:
        op = "copy assign a container";
        if (c.chance(50)) {
          x2 = x;
          y2 = y;
        } else {
          x = x2;
          y = y2;
        }
        break;
      case 14:
        op = "move assign a container";
        x2 = std::move(x);
        y2 = y;
        x.clear();
        y.clear();
        break;
      case 15:
        op = "append the other container";
        if (y.size() + y2.size() > 40) break;
        x.insert(x.end(), x2.begin(), x2.end());
        y.insert(y.end(), y2.begin(), y2.end());
        break;
      case 16:
        op = "append the moved other container";
        if (y.size() + y2.size() > 40) break;
        x.insert(x.end(), std::make_move_iterator(x2.begin()), std::make_move_iterator(x2.end()));
        y.insert(y.end(), y2.begin(), y2.end());
        x2.clear();
        y2.clear();
        break;
      case 17: {
        H h = K::make_any(c, m, empties);
        int k = c.below(6);
        op = "assign n copies";
        x.assign(static_cast<std::size_t>(k), h);
        y.assign(static_cast<std::size_t>(k), m);
        break;
      }
      case 18: {
        H h = K::make_any(c, m, empties);
        std::size_t k = static_cast<std::size_t>(c.below(20));
        op = "resize";
        x.resize(k, h);
        y.resize(k, m);
        break;
      }
      case 19:
        op = "reserve, shrink_to_fit";
        if (c.chance(50))
          reserve(x, static_cast<std::size_t>(c.below(60)));
        else
          shrink(x);
        break;
      case 20:
        op = "rotate";
        both([i](auto& s) { std::rotate(s.begin(), at(s, i), s.end()); });
        break;
      case 21:
        op = "reverse";
        both([i, j](auto& s) { std::reverse(at(s, i), at(s, j)); });
        break;
      case 22: {
        KeyIs p{c.range(2, 3), 1};
        bool st = c.chance(50);
        op = st ? "stable_partition" : "partition";
        both([p, st](auto& s) {
          if (st)
            std::stable_partition(s.begin(), s.end(), p);
          else
            std::partition(s.begin(), s.end(), p);
        });
        break;
      }
      case 23: {
        KeyIs p{c.range(2, 3), 1};
        op = "remove_if";
        both([p](auto& s) { s.erase(std::remove_if(s.begin(), s.end(), p), s.end()); });
        break;
      }
      case 24:
        op = "unique";
        both([](auto& s) { s.erase(std::unique(s.begin(), s.end(), Eq{}), s.end()); });
        break;
      case 25:
        op = "inplace_merge";
        both([i](auto& s) {
          auto mid = at(s, i);
          std::vector<typename std::decay<decltype(s)>::type::value_type> a(s.begin(), mid), b(mid, s.end());
          std::stable_sort(a.begin(), a.end(), Less{});
          std::stable_sort(b.begin(), b.end(), Less{});
          auto o = std::move(a.begin(), a.end(), s.begin());
          std::move(b.begin(), b.end(), o);
          std::inplace_merge(s.begin(), mid, s.end(), Less{});
        });
        break;
      case 26:
        op = "next_permutation";
        both([](auto& s) { std::next_permutation(s.begin(), s.end(), Less{}); });
        break;
      case 27: {
        op = "swap_ranges";
        both([n](auto& s) { std::swap_ranges(s.begin(), at(s, n / 2), at(s, n - n / 2)); });
        break;
      }
      case 28: {
        H h = K::make_any(c, m, empties);
        op = "replace_if, fill";
        KeyIs p{3, 2};
        std::replace_if(x.begin(), x.end(), p, h);
        std::replace_if(y.begin(), y.end(), p, m);
        std::fill(at(x, i), at(x, j), h);
        std::fill(at(y, i), at(y, j), m);
        break;
      }
      default:
        random_access(c, op, It{});
    }
    if (y.size() > 60) {
      x.erase(at(x, 30), x.end());
      y.erase(at(y, 30), y.end());
    }
  }
  static void run(Ctx& c) {
    Sequences s;
    s.empties = c.chance(25) ? 20 : 0;
    long before = live;
    {
      int n = c.range(1, 40);
      for (int k = 0; k < n && !c.failed; ++k) {
        const char* op = "nothing";
        s.step(c, op);
        c << op << "; ";
        same_seq(c, s.x, s.y, "contents differ from the plain values", op);
        same_seq(c, s.x2, s.y2, "the other container differs from the plain values", op);
#if !VP_POLY
        c.check((s.x < s.x2) == (s.y < s.y2) && (s.x == s.x2) == (s.y == s.y2),
                "comparison of containers");
#endif
      }
      if (s.y.size() > 3) c.nontrivial();
    }
    s.x.clear();
    s.x2.clear();
    c.check(live == before, "owned objects remain");
  }
};

template <class X, class Y, class F>
bool same_map(Ctx& c, const X& x, const Y& y, F get, const char* op) {
  bool ok = x.size() == y.size();
  auto j = y.begin();
  if (ok)
    for (auto i = x.begin(); i != x.end() && ok; ++i, ++j) ok = get(*i, *j);
  return c.check(ok, "an associative container differs from the plain values",
                 [&](std::ostream& o) { o << "after " << op; });
}

// Ordered, hashed and mapped.
template <class K>
void associative(Ctx& c) {
  using H = typename K::H;
  long before = live;
  int empties = c.chance(25) ? 20 : 0;
  {
    std::set<H, Less> s, s2;
    std::set<M, Less> t, t2;
    std::multimap<H, int, Less> ms;
    std::multimap<M, int, Less> mt;
    std::map<int, H> v;
    std::map<int, M> w;
    std::unordered_set<H, Hash, Eq> us;
    std::set<M, Less> ut;
    std::unordered_map<int, H> uv;
    std::map<int, M> uw;
    int n = c.range(1, 40);
    for (int k = 0; k < n && !c.failed; ++k) {
      const char* op = "";
      M m;
      H h = K::make_any(c, m, empties);
      int q = c.below(10);
      switch (c.below(18)) {
        case 0:
        case 1: {
          op = "set insert";
          bool a = c.chance(50) ? s.insert(h).second : s.insert(std::move(h)).second;
          c.check(a == t.insert(m).second, op);
          break;
        }
        case 2:
          op = "set erase";
          c.check(s.erase(h) == t.erase(m), op);
          break;
        case 3:
          op = "set find and bounds";
          c.check((s.find(h) != s.end()) == (t.find(m) != t.end()) && s.count(h) == t.count(m) &&
                      std::distance(s.begin(), s.lower_bound(h)) ==
                          std::distance(t.begin(), t.lower_bound(m)),
                  op);
          break;
        case 4:
          op = "set copy and swap";
          if (c.chance(50)) {
            s2 = s;
            t2 = t;
          } else {
            s.swap(s2);
            t.swap(t2);
          }
          break;
        case 5:
#if __cplusplus >= 201703L
          op = "set merge and node handles";
          s.merge(s2);
          t.merge(t2);
          if (!t.empty()) {
            auto nh = s.extract(s.begin());
            auto mh = t.extract(t.begin());
            c.check(value_of(nh.value()).same(mh.value()), "a node handle");
            bool a = s2.insert(std::move(nh)).inserted, b = t2.insert(std::move(mh)).inserted;
            c.check(a == b, "inserting a node handle");
          }
#endif
          break;
        case 6:
        case 7:
          op = "multimap insert";
          ms.insert(std::make_pair(h, q));
          mt.insert(std::make_pair(m, q));
          break;
        case 8: {
          op = "multimap erase range";
          auto r = ms.equal_range(h);
          auto r2 = mt.equal_range(m);
          c.check(std::distance(r.first, r.second) == std::distance(r2.first, r2.second), op);
          ms.erase(r.first, r.second);
          mt.erase(r2.first, r2.second);
          break;
        }
        case 9:
        case 10: {
          op = "map insert or assign";
          auto f = v.find(q);
          if (f == v.end())
            v.emplace(q, c.chance(50) ? H(h) : H(std::move(h)));
          else
            f->second = c.chance(50) ? H(h) : H(std::move(h));
          w[q] = m;
          break;
        }
        case 11:
          op = "map erase";
          v.erase(q);
          w.erase(q);
          break;
        case 12: {
          op = "map copied, cleared and moved back";
          std::map<int, H> cp(v);
          v.clear();
          v = std::move(cp);
          break;
        }
        case 13:
        case 14: {
          op = "unordered_set insert";
          c.check((c.chance(50) ? us.insert(h) : us.insert(std::move(h))).second ==
                      ut.insert(m).second,
                  op);
          break;
        }
        case 15:
          op = "unordered_set erase and rehash";
          c.check(us.erase(h) == ut.erase(m), op);
          us.rehash(static_cast<std::size_t>(c.below(200)));
          break;
        case 16: {
          op = "unordered_map insert or assign";
          auto f = uv.find(q);
          if (f == uv.end())
            uv.emplace(q, std::move(h));
          else
            f->second = h;
          uw[q] = m;
          break;
        }
        default: {
          op = "unordered_map copy, swap, rehash";
          std::unordered_map<int, H> cp(uv);
          cp.rehash(97);
          cp.swap(uv);
          break;
        }
      }
      c << op << "; ";
      auto one = [](const H& a, const M& b) { return value_of(a).same(b); };
      same_map(c, s, t, one, op);
      same_map(c, s2, t2, one, op);
      auto kv = [](const std::pair<const H, int>& a, const std::pair<const M, int>& b) {
        return value_of(a.first).same(b.first) && a.second == b.second;
      };
      same_map(c, ms, mt, kv, op);
      auto vv = [](const std::pair<const int, H>& a, const std::pair<const int, M>& b) {
        return a.first == b.first && value_of(a.second).same(b.second);
      };
      same_map(c, v, w, vv, op);
      std::set<H, Less> sorted(us.begin(), us.end());
      same_map(c, sorted, ut, one, op);
      c.check(uv.size() == uw.size(), "size of an unordered_map");
      for (auto& e : uv) {
        auto f = uw.find(e.first);
        c.check(f != uw.end() && value_of(e.second).same(f->second), "an unordered_map");
      }
      if (t.size() + mt.size() + w.size() > 4) c.nontrivial();
    }
  }
  c.check(live == before, "owned objects remain");
}

// Stack, queue and priority queue; tuple, pair and array; optional, variant and any.
template <class K>
void vocabulary(Ctx& c) {
  using H = typename K::H;
  long before = live;
  int empties = c.chance(25) ? 20 : 0;
  {
    std::priority_queue<H, std::vector<H>, Less> pq;
    std::priority_queue<M, std::vector<M>, Less> pm;
    std::queue<H> fq;
    std::queue<M> fm;
    M d = K::any(c);
    using Tup = std::tuple<H, int, H>;
    std::vector<Tup> tv;
    std::vector<std::tuple<M, int, M>> tm;
    M m0 = K::any(c), m1 = K::any(c), m2 = K::any(c);
    std::array<H, 3> ar{{K::make(c, m0), K::make(c, m1), K::make(c, m2)}};
    std::array<M, 3> am{{m0, m1, m2}};
    std::pair<H, H> pr(K::make(c, d), K::make(c, d));
    std::pair<M, M> pmod(d, d);
    std::unique_ptr<H> up;
    M upm{0, 0};
#if __cplusplus >= 201703L
    std::optional<H> o[3];
    std::optional<M> om[3];
    std::variant<int, H, std::string> va[3];
    std::variant<int, M, std::string> vm[3];
    std::any an;
    std::optional<M> anm;
#endif
    int n = c.range(1, 40);
    for (int k = 0; k < n && !c.failed; ++k) {
      const char* op = "";
      M m;
      H h = K::make_any(c, m, empties);
      int i = c.below(3), j = c.below(3);
      bool mv = c.chance(50);
      switch (c.below(28)) {
        case 0:
        case 1:
        case 2:
          op = "priority_queue push";
          if (mv)
            pq.push(std::move(h));
          else
            pq.push(h);
          pm.push(m);
          break;
        case 3:
          op = "priority_queue pop";
          if (pm.empty()) break;
          c.check(value_of(pq.top()).same(pm.top()), op);
          pq.pop();
          pm.pop();
          break;
        case 4:
        case 5:
          op = "queue push";
          fq.push(h);
          fm.push(m);
          break;
        case 6:
          op = "queue pop";
          if (fm.empty()) break;
          c.check(value_of(fq.front()).same(fm.front()), op);
          fq.pop();
          fm.pop();
          break;
        case 7:
        case 8: {
          op = "vector of tuples push";
          M b;
          H g = K::make_any(c, b, empties);
          tv.push_back(Tup(mv ? H(std::move(h)) : H(h), i, g));
          tm.push_back(std::make_tuple(m, i, b));
          break;
        }
        case 9:
          op = "sort of tuples";
          std::stable_sort(tv.begin(), tv.end(), [](const Tup& a, const Tup& b) {
            return Less{}(std::get<2>(a), std::get<2>(b));
          });
          std::stable_sort(tm.begin(), tm.end(), [](const std::tuple<M, int, M>& a,
                                                    const std::tuple<M, int, M>& b) {
            return std::get<2>(a) < std::get<2>(b);
          });
          break;
        case 10:
          op = "tuple assign and swap";
          if (tm.size() < 2) break;
          if (mv) {
            std::swap(tv.front(), tv.back());
            std::swap(tm.front(), tm.back());
          } else {
            tv.front() = tv.back();
            tm.front() = tm.back();
          }
          break;
        case 11:
          op = "tie";
          std::tie(ar[0], ar[1]) = std::make_tuple(ar[1], ar[0]);
          std::tie(am[0], am[1]) = std::make_tuple(am[1], am[0]);
          break;
        case 12:
          op = "array element assign";
          ar[static_cast<std::size_t>(i)] = ar[static_cast<std::size_t>(j)];
          am[static_cast<std::size_t>(i)] = am[static_cast<std::size_t>(j)];
          break;
        case 13:
          op = "array copy and swap";
          {
            std::array<H, 3> t(ar);
            std::array<M, 3> tmod(am);
            std::swap(t[0], t[2]);
            std::swap(tmod[0], tmod[2]);
            ar.swap(t);
            am.swap(tmod);
          }
          break;
        case 14:
          op = "pair swap and assign";
          if (mv) {
            std::swap(pr.first, pr.second);
            std::swap(pmod.first, pmod.second);
          } else {
            pr = std::make_pair(pr.second, h);
            pmod = std::make_pair(pmod.second, m);
          }
          break;
        case 15: {
          op = "exchange";
          H old = std::exchange(pr.first, h);
          M oldm = std::exchange(pmod.first, m);
          c.check(value_of(old).same(oldm), op);
          break;
        }
        case 16: {
          op = "captured by value in a function object";
          std::function<M()> f = [h] { return value_of(h); };
          std::function<M()> g = f;
          f = nullptr;
          c.check(g().same(m), op);
          break;
        }
        case 17:
          op = "unique_ptr";
          up.reset(new H(h));
          upm = m;
          break;
#if __cplusplus >= 201703L
        case 18:
        case 19:
          op = "optional emplace or assign";
          if (mv)
            o[i].emplace(h);
          else
            o[i] = h;
          om[i] = m;
          break;
        case 20:
          op = "optional assign";
          o[i] = o[j];
          om[i] = om[j];
          break;
        case 21:
          op = "optional move and reset";
          if (i != j) {
            o[i] = std::move(o[j]);
            om[i] = om[j];
          }
          o[j].reset();
          om[j].reset();
          break;
        case 22:
          op = "optional swap";
          o[i].swap(o[j]);
          om[i].swap(om[j]);
          break;
        case 23:
        case 24:
          op = "variant assign";
          if (c.chance(70)) {
            va[i] = h;
            vm[i] = m;
          } else if (mv) {
            va[i] = 4;
            vm[i] = 4;
          } else {
            va[i] = std::string("a long string that needs memory of its own");
            vm[i] = std::string("a long string that needs memory of its own");
          }
          break;
        case 25:
          op = "variant copy and swap";
          if (mv) {
            va[i] = va[j];
            vm[i] = vm[j];
          } else {
            va[i].swap(va[j]);
            vm[i].swap(vm[j]);
          }
          break;
        case 26:
          op = "any";
          if (mv) {
            an = h;
            anm = m;
          } else {
            std::any b = an;
            an.reset();
            an = std::move(b);
          }
          break;
#endif
        default:
          break;
      }
      c << op << "; ";
      for (std::size_t q = 0; q < 3; ++q) c.check(value_of(ar[q]).same(am[q]), "array element");
      c.check(value_of(pr.first).same(pmod.first) && value_of(pr.second).same(pmod.second), "pair");
      c.check(tv.size() == tm.size(), "tuples");
      for (std::size_t q = 0; q < tm.size(); ++q)
        c.check(value_of(std::get<0>(tv[q])).same(std::get<0>(tm[q])) &&
                    value_of(std::get<2>(tv[q])).same(std::get<2>(tm[q])) &&
                    std::get<1>(tv[q]) == std::get<1>(tm[q]),
                "tuple");
      if (up) c.check(value_of(*up).same(upm), "unique_ptr");
      if (!pm.empty()) c.check(value_of(pq.top()).same(pm.top()), "top of a priority_queue");
#if __cplusplus >= 201703L
      for (int q = 0; q < 3; ++q) {
        c.check(o[q].has_value() == om[q].has_value() &&
                    (!om[q] || value_of(*o[q]).same(*om[q])),
                "optional", [&](std::ostream& x) { x << "after " << op; });
        c.check(va[q].index() == vm[q].index() &&
                    (vm[q].index() != 1 || value_of(std::get<1>(va[q])).same(std::get<1>(vm[q]))),
                "variant", [&](std::ostream& x) { x << "after " << op; });
      }
#if !VP_POLY
      c.check((o[0] == o[1]) == (om[0] == om[1]) && (o[0] < o[2]) == (om[0] < om[2]),
              "comparison of optionals");
      c.check((va[0] == va[1]) == (vm[0] == vm[1]) && (va[0] < va[2]) == (vm[0] < vm[2]),
              "comparison of variants");
#endif
      c.check(an.has_value() == anm.has_value() &&
                  (!anm || value_of(std::any_cast<const H&>(an)).same(*anm)),
              "any");
#endif
#if !VP_POLY
      c.check((pr < std::make_pair(ar[0], ar[1])) == (pmod < std::make_pair(am[0], am[1])),
              "comparison of pairs");
      c.check((ar == std::array<H, 3>{{ar[1], ar[1], ar[2]}}) ==
                  (am == std::array<M, 3>{{am[1], am[1], am[2]}}),
              "comparison of arrays");
#endif
    }
    if (n > 8) c.nontrivial();
  }
  c.check(live == before, "owned objects remain");
}

using S = Cfg<false, false, false, false, false, false>;
using P = Cfg<true, true, true, false, true, true>;
template <class C>
using Spy = SpyAlloc<Item, C>;
using KStd = Kit<std::allocator<Item>, false>;
using KSame = Kit<Spy<S>, false>;
using KMixed = Kit<Spy<P>, true>;
}  // namespace

VP_SUITE(vector_std, 3) { Sequences<KStd, std::vector>::run(c); }
VP_SUITE(vector_mixed_arenas, 2) { Sequences<KMixed, std::vector>::run(c); }
VP_SUITE(deque_same_arena, 2) { Sequences<KSame, std::deque>::run(c); }
VP_SUITE(list_std, 1) { Sequences<KStd, std::list>::run(c); }
VP_SUITE(associative_std, 2) { associative<KStd>(c); }
VP_SUITE(vocabulary_mixed_arenas, 3) { vocabulary<KMixed>(c); }
#ifdef VP_MORE  // slow to compile
VP_SUITE(vector_same_arena, 2) { Sequences<KSame, std::vector>::run(c); }
VP_SUITE(deque_std, 2) { Sequences<KStd, std::deque>::run(c); }
VP_SUITE(deque_mixed_arenas, 1) { Sequences<KMixed, std::deque>::run(c); }
VP_SUITE(associative_mixed_arenas, 1) { associative<KMixed>(c); }
VP_SUITE(vocabulary_std, 2) { vocabulary<KStd>(c); }
#endif
}  // namespace vp
