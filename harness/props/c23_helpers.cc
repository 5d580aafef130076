// C23: the allocators the repository provides, TrackingAllocator and TaggedAllocator,
// directly, in standard containers and in handles, against counting models.
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "hdr.hpp"
#if VP_CXX14
#include "polymorphic_cxx14.h"
#else
#include "polymorphic.h"
#endif
#include "tagged_allocator.h"
#include "tracking_allocator.h"

#include "prop.hpp"

namespace vp {
namespace {

const int PAIRS = 4;  // counters shared in every way: {0,0} {0,1} {1,0} {1,1}

struct Counters {
  unsigned a[2] = {0, 0}, d[2] = {0, 0};    // real
  unsigned ma[2] = {0, 0}, md[2] = {0, 0};  // model
  bool ok(Ctx& c, const char* what) {
    bool r = true;
    for (int i = 0; i < 2; ++i) {
      r &= c.check(a[i] == ma[i], what, [&](std::ostringstream& o) {
        o << "allocations " << a[i] << ", expected " << ma[i];
      });
      r &= c.check(d[i] == md[i], what, [&](std::ostringstream& o) {
        o << "deallocations " << d[i] << ", expected " << md[i];
      });
    }
    return r;
  }
};

struct Big {
  char x[100];
};
// Tags that differ in single low, middle and high bits.
inline std::size_t tag_of(int pair) {
  return pair == 0 ? 7 : pair == 1 ? 7 + 65536 : pair == 2 ? 7 + (std::size_t(1) << 40) : ~std::size_t(0);
}

template <class T>
struct TrackKind {
  using A = xyz::TrackingAllocator<T>;
  static A make(Counters& n, int pair) { return A(&n.a[pair & 1], &n.d[pair >> 1]); }
};
template <class T>
struct TagKind {
  using A = xyz::TaggedAllocator<T>;
  static A make(Counters&, int pair) { return A(tag_of(pair)); }
};
template <class T>
void counted(Counters& n, const xyz::TrackingAllocator<T>*, int pair, bool alloc) {
  if (alloc)
    ++n.ma[pair & 1];
  else
    ++n.md[pair >> 1];
}
template <class T>
void counted(Counters&, const xyz::TaggedAllocator<T>*, int, bool) {}

template <class T>
bool has(const xyz::TaggedAllocator<T>& a, int pair) {
  return a.tag == tag_of(pair);
}
template <class T>
bool has(const xyz::TrackingAllocator<T>&, int) {
  return true;
}

// ---- The allocators themselves ---------------------------------------------
template <template <class> class Kind>
struct Direct {
  template <class T>
  using A = typename Kind<T>::A;
  Ctx& c;
  Counters n;
  struct Slot {
    A<char> c1;
    A<int> c2;
    A<double> c3;
    A<Big> c4;
    int pair;
  };
  struct Block {
    void* p;
    int type, n, pair;
    unsigned char fill;
  };
  std::vector<Slot> slots;
  std::vector<Block> blocks;

  explicit Direct(Ctx& x) : c(x) {}
  Slot slot(int pair) {
    // One of them is given, the others are converted from it.
    A<int> base(Kind<int>::make(n, pair));
    switch (c.below(3)) {
      case 0: return Slot{A<char>(base), base, A<double>(base), A<Big>(base), pair};
      case 1: {
        A<Big> b(base);
        A<char> d(b);
        return Slot{d, A<int>(d), A<double>(d), b, pair};
      }
      default: {
        typename std::allocator_traits<A<int>>::template rebind_alloc<double> b(base);
        return Slot{A<char>(b), A<int>(b), b, A<Big>(A<double>(b)), pair};
      }
    }
  }
  template <class T>
  void get(A<T>& a, int type, int pair) {
    int k = 1 + c.below(5);
    T* p;
    if (c.below(2))
      p = a.allocate(k);
    else
      p = std::allocator_traits<A<T>>::allocate(a, k);
    counted(n, &a, pair, true);
    c.check(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "aligned");
    unsigned char f = static_cast<unsigned char>(1 + blocks.size() % 250);
    std::memset(static_cast<void*>(p), f, k * sizeof(T));
    blocks.push_back(Block{p, type, k, pair, f});
    c << " allocate " << k << " of " << sizeof(T) << " by " << pair;
  }
  template <class T>
  void put(A<T>& a, const Block& b) {
    const unsigned char* q = static_cast<const unsigned char*>(b.p);
    for (std::size_t i = 0; i < b.n * sizeof(T); ++i)
      if (!c.check(q[i] == b.fill, "a block keeps its contents")) break;
    if (c.below(2))
      a.deallocate(static_cast<T*>(b.p), b.n);
    else
      std::allocator_traits<A<T>>::deallocate(a, static_cast<T*>(b.p), b.n);
    counted(n, &a, b.pair, false);
    c << " deallocate of " << sizeof(T) << " by " << b.pair;
  }
  void release(std::size_t i) {
    Block b = blocks[i];
    blocks.erase(blocks.begin() + i);
    // Any equal allocator will do.
    Slot* s = nullptr;
    int from = c.below(static_cast<int>(slots.size()));
    for (std::size_t k = 0; k < slots.size() && !s; ++k) {
      Slot& x = slots[(from + k) % slots.size()];
      if (x.pair == b.pair) s = &x;
    }
    Slot own(slot(b.pair));
    if (!s) s = &own;
    switch (b.type) {
      case 0: put<char>(s->c1, b); break;
      case 1: put<int>(s->c2, b); break;
      case 2: put<double>(s->c3, b); break;
      default: put<Big>(s->c4, b);
    }
  }
  void run() {
    for (int i = 0; i < 3; ++i) slots.push_back(slot(c.below(PAIRS)));
    int ops = 1 + c.below(25);
    for (int i = 0; i < ops && !c.failed; ++i) {
      int k = c.below(static_cast<int>(slots.size()));
      switch (c.below(6)) {
        case 0: {
          Slot& s = slots[k];
          switch (c.below(4)) {
            case 0: get<char>(s.c1, 0, s.pair); break;
            case 1: get<int>(s.c2, 1, s.pair); break;
            case 2: get<double>(s.c3, 2, s.pair); break;
            default: get<Big>(s.c4, 3, s.pair);
          }
          break;
        }
        case 1:
          if (!blocks.empty()) release(c.below(static_cast<int>(blocks.size())));
          break;
        case 2: slots.push_back(slot(c.below(PAIRS))); break;
        case 3: {  // copies and assignments keep what they are copies of
          Slot s(slots[k]);
          int j = c.below(static_cast<int>(slots.size()));
          slots[j] = s;
          slots[j].c2 = std::move(s.c2);
          break;
        }
        case 4: {
          int j = c.below(static_cast<int>(slots.size()));
          std::swap(slots[k], slots[j]);
          break;
        }
        default: {
          Slot &s = slots[k], &t = slots[c.below(static_cast<int>(slots.size()))];
          bool same = s.pair == t.pair;
          c << " compare " << s.pair << " " << t.pair;
          c.check((s.c1 == t.c1) == same && (s.c2 == t.c2) == same && (s.c3 == t.c3) == same &&
                      (s.c4 == t.c4) == same,
                  "equal exactly when of the same counters or tag");
          c.check((s.c1 != t.c1) != same && (s.c4 != t.c4) != same, "!= is the opposite of ==");
          c.check(A<int>(s.c4) == s.c2 && A<int>(t.c1) == t.c2, "conversion keeps the identity");
          if (same && &s != &t) c.nontrivial();
        }
      }
      for (const Slot& s : slots)
        c.check(has(s.c1, s.pair) && has(s.c2, s.pair) && has(s.c3, s.pair) && has(s.c4, s.pair), "the tag stays");
      n.ok(c, "counted exactly once");
    }
    if (blocks.size() > 1) c.nontrivial();
    while (!blocks.empty()) release(blocks.size() - 1);
    n.ok(c, "counted exactly once at the end");
  }
};

// ---- In standard containers ------------------------------------------------
template <template <class> class Kind, class V>
struct Boxes {  // how many blocks a container holds, and its contents
  template <class T>
  using A = typename Kind<T>::A;
  using Vec = std::vector<V, A<V>>;
  using Lst = std::list<V, A<V>>;
  using Map = std::map<int, V, std::less<int>, A<std::pair<const int, V>>>;
};

inline int value_of(int v) { return v; }
inline int value_of(const std::string& s) { return std::stoi(s.substr(20)); }
inline void set_value(int& t, int v) { t = v; }
inline void set_value(std::string& t, int v) { t = "a long enough string" + std::to_string(v); }

template <template <class> class Kind, class V>
void containers(Ctx& c, bool counts) {
  using B = Boxes<Kind, V>;
  Counters n;
  {
    std::vector<typename B::Vec> vec;
    std::vector<typename B::Lst> lst;
    std::vector<typename B::Map> map;
    std::vector<int> pv, pl, pm;  // their pairs
    std::vector<std::vector<int>> mv, ml;
    std::vector<std::map<int, int>> mm;
    for (int i = 0; i < 2; ++i) {
      pv.push_back(c.below(PAIRS));
      pl.push_back(c.below(PAIRS));
      pm.push_back(c.below(PAIRS));
      vec.emplace_back(Kind<V>::make(n, pv[i]));
      lst.emplace_back(Kind<V>::make(n, pl[i]));
      map.emplace_back(std::less<int>(), Kind<std::pair<const int, V>>::make(n, pm[i]));
    }
    mv.resize(2);
    ml.resize(2);
    mm.resize(2);
    int ops = 1 + c.below(25);
    for (int k = 0; k < ops && !c.failed; ++k) {
      int i = c.below(2), j = 1 - i, x = c.below(50);
      V v;
      set_value(v, x);
      int op = c.below(13);
      c << " " << op << "/" << i << "/" << x;
      switch (op) {
        case 0: vec[i].push_back(v); mv[i].push_back(x); break;
        case 1: lst[i].push_front(v); ml[i].insert(ml[i].begin(), x); break;
        case 2: map[i][x] = v; mm[i][x] = x; break;
        case 3:
          if (!mv[i].empty()) vec[i].erase(vec[i].begin()), mv[i].erase(mv[i].begin());
          break;
        case 4:
          if (!ml[i].empty()) lst[i].pop_back(), ml[i].pop_back();
          break;
        case 5: map[i].erase(x); mm[i].erase(x); break;
        case 6: vec[j] = vec[i]; mv[j] = mv[i]; break;
        case 7: lst[j] = lst[i]; ml[j] = ml[i]; break;
        case 8: map[j] = map[i]; mm[j] = mm[i]; break;
        case 9:
          vec[j] = std::move(vec[i]);
          mv[j] = mv[i];
          vec[i].clear();
          mv[i].clear();
          if (pv[0] != pv[1]) c.nontrivial();
          break;
        case 10:
          lst[j] = std::move(lst[i]);
          ml[j] = ml[i];
          lst[i].clear();
          ml[i].clear();
          if (pl[0] != pl[1]) c.nontrivial();
          break;
        case 11:
          map[j] = std::move(map[i]);
          mm[j] = mm[i];
          map[i].clear();
          mm[i].clear();
          break;
        default:
          vec[i].shrink_to_fit();
          if (pl[0] == pl[1]) {
            lst[j].splice(lst[j].begin(), lst[i]);
            ml[j].insert(ml[j].begin(), ml[i].begin(), ml[i].end());
            ml[i].clear();
            c.nontrivial();
          }
      }
      unsigned want[2][2] = {{0, 0}, {0, 0}};  // blocks per counter of allocations, deallocations
      auto add = [&](int pair, std::size_t blocks) {
        want[0][pair & 1] += static_cast<unsigned>(blocks);
        want[1][pair >> 1] += static_cast<unsigned>(blocks);
      };
      for (int t = 0; t < 2; ++t) {
        std::vector<int> got;
        for (const V& e : vec[t]) got.push_back(value_of(e));
        c.check(got == mv[t], "contents of the vectors");
        got.clear();
        for (const V& e : lst[t]) got.push_back(value_of(e));
        c.check(got == ml[t], "contents of the lists");
        std::map<int, int> gm;
        for (const auto& e : map[t]) gm[e.first] = value_of(e.second);
        c.check(gm == mm[t], "contents of the maps");
        c.check(vec[t].get_allocator() == Kind<V>::make(n, pv[t]) && lst[t].get_allocator() == Kind<V>::make(n, pl[t]) &&
                    map[t].get_allocator() == Kind<std::pair<const int, V>>::make(n, pm[t]),
                "containers keep their allocator");
        c.check(has(vec[t].get_allocator(), pv[t]) && has(lst[t].get_allocator(), pl[t]) &&
                    has(map[t].get_allocator(), pm[t]),
                "containers keep the tag");
        add(pv[t], vec[t].capacity() ? 1 : 0);
        add(pl[t], lst[t].size());
        add(pm[t], map[t].size());
      }
      if (counts) {
        unsigned live = want[0][0] + want[0][1];
        c.check(n.a[0] + n.a[1] - n.d[0] - n.d[1] == live, "live blocks are allocations less deallocations",
                [&](std::ostringstream& o) {
                  o << n.a[0] + n.a[1] << " - " << n.d[0] + n.d[1] << ", expected " << live;
                });
      }
    }
  }
  c.check(n.a[0] + n.a[1] == n.d[0] + n.d[1], "everything given back");
  if (!counts) c.check(n.a[0] + n.a[1] == 0, "no counter touched");
}

// ---- In handles ------------------------------------------------------------
struct Shape {
  int v = 0;
  Shape() = default;
  explicit Shape(int x) : v(x) {}
  virtual ~Shape() = default;
  virtual int get() const { return v; }
};
struct Round : Shape {
  std::string text;
  explicit Round(int x) : Shape(x), text(std::to_string(x) + " is too long for the small buffer") {}
  int get() const override { return std::stoi(text); }
};

template <class H>
struct Hold;
template <class A>
struct Hold<xyz::indirect<int, A>> {
  using H = xyz::indirect<int, A>;
  using T = int;
  static H make(const A& a, int v) { return H(std::allocator_arg, a, v); }
  static int get(const H& h) { return *h; }
  static constexpr bool in_place = true;
};
template <class A>
struct Hold<xyz::polymorphic<Shape, A>> {
  using H = xyz::polymorphic<Shape, A>;
  using T = Shape;
  static H make(const A& a, int v) {
    if (v & 1) return H(std::allocator_arg, a, Round(v));
    return H(std::allocator_arg, a, Shape(v));
  }
  static int get(const H& h) { return h->get(); }
  static constexpr bool in_place = false;
};

template <template <class> class Kind, class H>
void handles(Ctx& c, bool counts) {
  using Hd = Hold<H>;
  using T = typename Hd::T;
  Counters n;
  {
    std::vector<H> h;
    std::vector<int> pair, val;  // -1: valueless
    auto alloc = [&](int p) { if (counts) ++n.ma[p & 1]; };
    auto freed = [&](int p) { if (counts) ++n.md[p >> 1]; };
    for (int i = 0; i < 4; ++i) {
      pair.push_back(c.below(PAIRS));
      val.push_back(c.below(20));
      h.reserve(4);
      h.push_back(Hd::make(Kind<T>::make(n, pair[i]), val[i]));
      alloc(pair[i]);
    }
    int ops = 1 + c.below(25);
    for (int k = 0; k < ops && !c.failed; ++k) {
      int i = c.below(4), j = c.below(4);
      int op = c.below(7);
      c << " " << op << "/" << i << "/" << j;
      bool same = pair[i] == pair[j];
      switch (op) {
        case 0:  // copy assignment
          h[i] = h[j];
          if (i == j) break;
          if (val[j] < 0) {
            if (val[i] >= 0) freed(pair[i]);
          } else if (val[i] < 0) {
            alloc(pair[i]);
          } else if (!(Hd::in_place && same)) {
            alloc(pair[i]);
            freed(pair[i]);
          }
          val[i] = val[j];
          break;
        case 1:  // move assignment
          if (!same && val[j] >= 0) break;  // whether the source keeps its object is left open
          h[i] = std::move(h[j]);
          if (i == j) break;
          if (val[i] >= 0) freed(pair[i]);
          val[i] = val[j];
          val[j] = -1;
          break;
        case 2:
          if (!same) break;
          swap(h[i], h[j]);
          std::swap(val[i], val[j]);
          break;
        case 3: {  // a copy, with its own or another allocator
          int p = c.below(PAIRS);
          H x(std::allocator_arg, Kind<T>::make(n, p), h[j]);
          H y(h[j]);
          c.check(y.get_allocator() == h[j].get_allocator() && has(y.get_allocator(), pair[j]),
                  "a copy has its source's allocator");
          c.check(x.valueless_after_move() == (val[j] < 0) && y.valueless_after_move() == (val[j] < 0), "copies");
          if (val[j] >= 0) {
            c.check(Hd::get(x) == val[j] && Hd::get(y) == val[j], "copies have the value");
            alloc(p), freed(p), alloc(pair[j]), freed(pair[j]);
          }
          c.check(has(x.get_allocator(), p), "the tag given");
          break;
        }
        case 4: {  // out and back
          H x(std::move(h[j]));
          c.check(h[j].valueless_after_move(), "moved from");
          h[j] = std::move(x);
          c.nontrivial();
          break;
        }
        case 5: {  // lost
          H x(std::move(h[j]));
          if (val[j] >= 0) freed(pair[j]);
          val[j] = -1;
          break;
        }
        default: {
          H x(Hd::make(Kind<T>::make(n, pair[i]), k));
          alloc(pair[i]);
          h[i] = std::move(x);
          if (val[i] >= 0) freed(pair[i]);
          val[i] = k;
        }
      }
      for (int t = 0; t < 4; ++t) {
        c.check(h[t].valueless_after_move() == (val[t] < 0), "valueless or not");
        if (val[t] >= 0 && !h[t].valueless_after_move()) c.check(Hd::get(h[t]) == val[t], "the value");
        c.check(h[t].get_allocator() == Kind<T>::make(n, pair[t]) && has(h[t].get_allocator(), pair[t]),
                "the handle keeps its allocator");
      }
      if (counts) n.ok(c, "what handles do is counted once");
    }
  }
  c.check(n.a[0] + n.a[1] == n.d[0] + n.d[1], "everything given back");
}

// ---- What TaggedAllocator constructs ---------------------------------------
struct Seen {
  std::unique_ptr<int> p;
  const std::string* s;
  std::string t;
  int n;
  Seen(std::unique_ptr<int> q, const std::string& a, std::string&& b, int& m)
      : p(std::move(q)), s(&a), t(std::move(b)), n(m++) {}
};
void constructs(Ctx& c) {
  xyz::TaggedAllocator<Seen> a(static_cast<std::size_t>(c.below(3)));
  xyz::TaggedAllocator<char> other(a);
  int m = c.below(100), m0 = m;
  int v = c.below(1000);
  std::string x("kept " + std::to_string(v)), y("moved " + std::to_string(v) + std::string(30, '.'));
  const char* data = y.data();
  Seen* s = a.allocate(1);
  if (c.below(2))
    std::allocator_traits<decltype(a)>::construct(a, s, std::unique_ptr<int>(new int(v)), x, std::move(y), m);
  else  // through an allocator of another type
    std::allocator_traits<decltype(other)>::construct(other, s, std::unique_ptr<int>(new int(v)), x, std::move(y), m);
  c << "constructs " << v;
  c.nontrivial();
  c.check(*s->p == v && s->s == &x && s->t.data() == data && s->n == m0 && m == m0 + 1,
          "arguments arrive unchanged");
  std::allocator_traits<decltype(a)>::destroy(a, s);
  a.deallocate(s, 1);
  // The constructor is the one parentheses pick.
  xyz::TaggedAllocator<std::vector<int>> b(other);
  std::vector<int>* w = b.allocate(1);
  int many = 2 + c.below(5);
  std::allocator_traits<decltype(b)>::construct(b, w, many, 1);
  c.check(w->size() == static_cast<std::size_t>(many) && w->back() == 1, "construct uses parentheses");
  std::allocator_traits<decltype(b)>::destroy(b, w);
  b.deallocate(w, 1);
  xyz::TaggedAllocator<int> z(other);
  int* q = z.allocate(1);
  *q = 77;
  std::allocator_traits<decltype(z)>::construct(z, q);
  c.check(*q == 0, "construct without arguments initialises with zero");
  z.deallocate(q, 1);
}

}  // namespace
}  // namespace vp
using namespace vp;

VP_SUITE(tracking, 4) {
  Direct<TrackKind> d(c);
  d.run();
}
VP_SUITE(tagged, 4) {
  Direct<TagKind> d(c);
  d.run();
}
VP_SUITE(tracking_containers, 3) {
  if (c.below(2))
    containers<TrackKind, std::string>(c, true);
  else
    containers<TrackKind, int>(c, true);
}
VP_SUITE(tagged_containers, 3) {
  if (c.below(2))
    containers<TagKind, std::string>(c, false);
  else
    containers<TagKind, int>(c, false);
}
VP_SUITE(tracking_handles, 3) {
  if (c.below(2))
    handles<TrackKind, xyz::indirect<int, xyz::TrackingAllocator<int>>>(c, true);
  else
    handles<TrackKind, xyz::polymorphic<Shape, xyz::TrackingAllocator<Shape>>>(c, true);
}
VP_SUITE(tagged_handles, 3) {
  if (c.below(2))
    handles<TagKind, xyz::indirect<int, xyz::TaggedAllocator<int>>>(c, false);
  else
    handles<TagKind, xyz::polymorphic<Shape, xyz::TaggedAllocator<Shape>>>(c, false);
}
VP_SUITE(tagged_construct, 1) { constructs(c); }
VP_SUITE(facts, 0) {
  c.nontrivial();
  using T = xyz::TrackingAllocator<int>;
  using G = xyz::TaggedAllocator<int>;
  c.check(!std::is_default_constructible<T>::value && !std::is_default_constructible<G>::value,
          "no allocator without counters or tag");
  c.check(!std::allocator_traits<T>::is_always_equal::value && !std::allocator_traits<G>::is_always_equal::value,
          "not always equal");
  c.check(std::is_same<std::allocator_traits<T>::rebind_alloc<char>, xyz::TrackingAllocator<char>>::value &&
              std::is_same<std::allocator_traits<G>::rebind_alloc<char>, xyz::TaggedAllocator<char>>::value,
          "rebind");
  c.check(std::is_same<T::value_type, int>::value && std::is_same<G::value_type, int>::value, "value_type");
  c.check(noexcept(std::declval<const T&>() == std::declval<const T&>()) &&
              noexcept(std::declval<const G&>() != std::declval<const G&>()),
          "comparison does not throw");
}
