// C18: threads that use distinct handles, and read or copy shared const ones,
// do not interfere. Built with ThreadSanitizer; nothing here synchronises the
// threads between their start and their end.
#include <atomic>
#include <functional>
#include <memory>
#include <thread>
#include <vector>

#include "hdr.hpp"
#include "prop.hpp"

namespace vp {
namespace {

// An arena used by one thread at a time: its counters are not atomic, so a
// block allocated from or returned to the arena of another thread is a race.
struct Arena {
  long live = 0, total = 0;
};
thread_local Arena* current = nullptr;

template <class T, bool MA>
struct ArenaAlloc {
  using value_type = T;
  using propagate_on_container_move_assignment = std::integral_constant<bool, MA>;
  using propagate_on_container_swap = std::integral_constant<bool, MA>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = ArenaAlloc<U, MA>;
  };
  Arena* a;
  ArenaAlloc() : a(current) {}
  explicit ArenaAlloc(Arena* x) : a(x) {}
  template <class U>
  ArenaAlloc(const ArenaAlloc<U, MA>& o) noexcept : a(o.a) {}
  T* allocate(std::size_t n) {
    ++a->live;
    ++a->total;
    return std::allocator<T>{}.allocate(n);
  }
  void deallocate(T* p, std::size_t n) {
    --a->live;
    std::allocator<T>{}.deallocate(p, n);
  }
  ArenaAlloc select_on_container_copy_construction() const { return ArenaAlloc(); }
  friend bool operator==(const ArenaAlloc& x, const ArenaAlloc& y) { return x.a == y.a; }
  friend bool operator!=(const ArenaAlloc& x, const ArenaAlloc& y) { return x.a != y.a; }
};
template <class A>
struct UsesArena : std::false_type {};
template <class T, bool MA>
struct UsesArena<ArenaAlloc<T, MA>> : std::true_type {};

#if VP_POLY
struct Shape {
  int v;
  explicit Shape(int x = 0) : v(x) {}
  virtual ~Shape() = default;
  virtual int get() const { return v; }
  virtual void set(int x) { v = x; }
};
struct Wide : Shape {
  std::vector<int> more;
  explicit Wide(int x) : Shape(x), more(3, x) {}
  int get() const override { return more[1] == v ? v : -77; }
  void set(int x) override {
    v = x;
    more.assign(3, x);
  }
};
struct Other {
  int o = 5;
  virtual ~Other() = default;
};
struct Offset : Other, virtual Shape {
  explicit Offset(int x) : Shape(x) {}
  int get() const override { return o == 5 ? v : -78; }
};
// A composite: handles inside the owned object.
struct Group : Shape {
  std::vector<xyz::polymorphic<Shape>> kids;
  explicit Group(int x) : Shape(x) {
    kids.emplace_back(VP_IN_PLACE_TYPE(Wide), x + 1);
    kids.emplace_back(VP_IN_PLACE_TYPE(Shape), x + 2);
  }
  int get() const override {
    return kids[0]->get() == v + 1 && kids[1]->get() == v + 2 ? v : -79;
  }
  void set(int x) override {
    v = x;
    kids[0]->set(x + 1);
    kids[1]->set(x + 2);
  }
};
using Val = Shape;
template <class A>
using Handle = xyz::polymorphic<Val, A>;
template <class A>
std::unique_ptr<Handle<A>> make(const A& a, int v) {
  using H = Handle<A>;
  switch (v % 4) {
    case 0:
      return std::unique_ptr<H>(new H(std::allocator_arg, a, VP_IN_PLACE_TYPE(Shape), v));
    case 1:
      return std::unique_ptr<H>(new H(std::allocator_arg, a, VP_IN_PLACE_TYPE(Wide), v));
    case 2:
      return std::unique_ptr<H>(new H(std::allocator_arg, a, VP_IN_PLACE_TYPE(Offset), v));
    default:
      return std::unique_ptr<H>(new H(std::allocator_arg, a, VP_IN_PLACE_TYPE(Group), v));
  }
}
#else
struct Val {
  int v;
  std::vector<int> more;
  std::vector<xyz::indirect<Val>> kids;
  explicit Val(int x = 0) : v(x), more(2, x) {
    if (x % 4 == 3) kids.emplace_back(VP_IN_PLACE, x - 1);
  }
  int get() const {
    if (more[1] != v) return -77;
    for (const xyz::indirect<Val>& k : kids)
      if (k->get() < 0) return -78;
    return v;
  }
  void set(int x) {
    v = x;
    more.assign(2, x);
    for (xyz::indirect<Val>& k : kids) k->set(x);
  }
  friend bool operator==(const Val& a, const Val& b) { return a.v == b.v; }
  friend bool operator!=(const Val& a, const Val& b) { return a.v != b.v; }
  friend bool operator<(const Val& a, const Val& b) { return a.v < b.v; }
  friend bool operator>(const Val& a, const Val& b) { return a.v > b.v; }
  friend bool operator<=(const Val& a, const Val& b) { return a.v <= b.v; }
  friend bool operator>=(const Val& a, const Val& b) { return a.v >= b.v; }
};
template <class A>
using Handle = xyz::indirect<Val, A>;
template <class A>
std::unique_ptr<Handle<A>> make(const A& a, int v) {
  return std::unique_ptr<Handle<A>>(
      new Handle<A>(std::allocator_arg, a, VP_IN_PLACE, v));
}
#endif
}  // namespace
}  // namespace vp
#if !VP_POLY
template <>
struct std::hash<vp::Val> {
  std::size_t operator()(const vp::Val& v) const { return static_cast<std::size_t>(v.v) * 31u; }
};
#endif

namespace vp {
namespace {
const int kSlots = 4, kShared = 4;
const int kNone = -1, kEmpty = -2;
struct Op {
  unsigned char code, a, b, v;
};

template <class A>
A alloc_of(Arena* ar, std::true_type) {
  return A(ar);
}
template <class A>
A alloc_of(Arena*, std::false_type) {
  return A();
}

template <class A>
struct Mine {
  using H = Handle<A>;
  std::unique_ptr<H> h[kSlots];
  int m[kSlots];
  Arena arena;
  std::vector<long> log;
  const char* bad = nullptr;
  Mine() {
    for (int& x : m) x = kNone;
  }
  A alloc() { return alloc_of<A>(&arena, UsesArena<A>{}); }
};

template <class A>
struct Shared {
  Arena arena;
  std::vector<std::unique_ptr<Handle<A>>> h;
  std::vector<int> m;
};

template <class A>
void run_ops(Mine<A>& s, const Shared<A>& sh, const Op* from, const Op* to) {
  using H = Handle<A>;
  current = &s.arena;
  for (const Op* o = from; o != to && !s.bad; ++o) {
    const int i = o->a % kSlots, j = o->b % kSlots, g = o->b % kShared;
    const H& src = *sh.h[static_cast<std::size_t>(g)];
    const int sm = sh.m[static_cast<std::size_t>(g)];
    switch (o->code % 16) {
      case 0:
        s.h[i].reset(new H(src));
        s.m[i] = sm;
        break;
      case 1:
        s.h[i].reset(new H(std::allocator_arg, s.alloc(), src));
        s.m[i] = sm;
        break;
      case 2:
        if (s.m[i] == kNone) break;
        *s.h[i] = src;
        s.m[i] = sm;
        break;
      case 3:
        if (sm == kEmpty) break;
        if ((*src).get() != sm || src->get() != sm || (*static_cast<const H&&>(src)).get() != sm)
          s.bad = "a shared handle shows another value";
        s.log.push_back(src->get());
        break;
      case 4:
        if (src.valueless_after_move() != (sm == kEmpty))
          s.bad = "a shared handle is valueless or not";
        (void)src.get_allocator();
        break;
      case 5: {
#if !VP_POLY
        if (s.m[i] == kNone) break;
        const H& own = *s.h[i];
        const H& src2 = *sh.h[static_cast<std::size_t>((g + 1) % kShared)];
        int x = s.m[i], y = sm, z = sh.m[static_cast<std::size_t>((g + 1) % kShared)];
        if ((own == src) != (x == y) || (src != src2) != (y != z) ||
            (src < own) != (y < x) || (src >= src2) != (y >= z))
          s.bad = "comparison with a shared handle";
#endif
        break;
      }
      case 6: {
#if !VP_POLY
        if (sm == kEmpty) {
          s.log.push_back(static_cast<long>(std::hash<H>{}(src) != 1));
          break;
        }
        if (std::hash<H>{}(src) != std::hash<Val>{}(*src)) s.bad = "hash of a shared handle";
#endif
        break;
      }
      case 7:
      case 8:
        if (s.m[i] < 0) break;
        if (o->v % 2)
          (**s.h[i]).set(o->v);
        else
          (*s.h[i])->set(o->v);
        s.m[i] = o->v;
        break;
      case 9:
        if (s.m[i] == kNone || i == j) break;
        s.h[j].reset(new H(std::move(*s.h[i])));
        s.m[j] = s.m[i];
        s.m[i] = kEmpty;
        break;
      case 10:
        if (s.m[i] == kNone || s.m[j] == kNone) break;
        swap(*s.h[i], *s.h[j]);
        std::swap(s.m[i], s.m[j]);
        break;
      case 11:
        if (s.m[i] == kNone || s.m[j] == kNone || i == j) break;
        if (o->v % 2) {
          *s.h[j] = *s.h[i];
          s.m[j] = s.m[i];
        } else {
          *s.h[j] = std::move(*s.h[i]);
          s.m[j] = s.m[i];
          s.m[i] = kEmpty;
        }
        break;
      case 12:
        s.h[i].reset();
        s.m[i] = kNone;
        break;
      case 13:
        s.h[i] = make<A>(s.alloc(), o->v);
        s.m[i] = o->v;
        break;
      case 14: {
        H t(std::allocator_arg, s.alloc(), src);
        if (s.m[i] == kNone) {
          s.h[i].reset(new H(std::allocator_arg, s.alloc(), std::move(t)));
        } else {
          *s.h[i] = std::move(t);
        }
        s.m[i] = sm;
        break;
      }
      default: {
        std::vector<H> v;
        for (int k = 0; k < kShared; ++k) v.emplace_back(*sh.h[static_cast<std::size_t>(k)]);
        for (H& q : v)
          if (!q.valueless_after_move()) s.log.push_back(q->get());
      }
    }
    for (int k = 0; k < kSlots; ++k) {
      if (s.m[k] == kNone) continue;
      bool e = s.h[k]->valueless_after_move();
      if (e != (s.m[k] == kEmpty)) s.bad = "an own handle is valueless or not";
      if (!e && s.m[k] >= 0 && (*s.h[k])->get() != s.m[k]) s.bad = "the value of an own handle";
      s.log.push_back(s.m[k]);
    }
  }
  current = nullptr;
}

template <class A>
struct Plan {
  int threads, cut, shared[kShared];
  std::vector<std::vector<Op>> ops;
};

// One run of the plan; fills the results in order.
template <class A>
std::string execute(const Plan<A>& p, bool threads, std::vector<std::vector<long>>& logs) {
  using H = Handle<A>;
  Shared<A> sh;
  std::vector<std::unique_ptr<Mine<A>>> mine;
  for (int k = 0; k < kShared; ++k) {
    sh.h.push_back(make<A>(alloc_of<A>(&sh.arena, UsesArena<A>{}), p.shared[k]));
    sh.m.push_back(p.shared[k]);
    if (k == 3) {
      H t(std::move(*sh.h[3]));
      sh.m[3] = kEmpty;
    }
  }
  for (int t = 0; t < p.threads; ++t) {
    mine.emplace_back(new Mine<A>());
    for (int k = 0; k < 2; ++k) {  // the threads start with copies of one another
      mine.back()->h[k].reset(new H(std::allocator_arg, mine.back()->alloc(), *sh.h[static_cast<std::size_t>(k)]));
      mine.back()->m[k] = p.shared[k];
    }
  }
  // Two phases; the second works on the handles another thread left behind.
  for (int phase = 0; phase < 2; ++phase) {
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < p.threads; ++t) {
      Mine<A>& s = *mine[static_cast<std::size_t>((t + phase) % p.threads)];
      const std::vector<Op>& o = p.ops[static_cast<std::size_t>(t)];
      const Op* mid = o.data() + (o.size() * static_cast<std::size_t>(p.cut)) / 100;
      const Op* from = phase ? mid : o.data();
      const Op* to = phase ? o.data() + o.size() : mid;
      auto body = [&s, &sh, &ready, from, to, &p, phase, threads] {
        if (threads) {
          ready.fetch_add(1, std::memory_order_relaxed);
          for (int spin = 0; spin < 100000; ++spin)
            if (ready.load(std::memory_order_relaxed) >= p.threads) break;
        }
        run_ops<A>(s, sh, from, to);
        if (phase) {
          for (std::unique_ptr<H>& q : s.h) q.reset();
          if (s.arena.live) s.bad = "blocks of an arena remain";
        }
      };
      if (threads)
        ts.emplace_back(body);
      else
        body();
    }
    for (std::thread& t : ts) t.join();
  }
  std::string bad;
  for (auto& s : mine) {
    logs.push_back(s->log);
    if (s->bad && bad.empty()) bad = s->bad;
  }
  for (int k = 0; k < kShared; ++k) {
    const H& q = *sh.h[static_cast<std::size_t>(k)];
    if (q.valueless_after_move() != (sh.m[static_cast<std::size_t>(k)] == kEmpty) ||
        (!q.valueless_after_move() && q->get() != sh.m[static_cast<std::size_t>(k)]))
      bad = "a shared handle changed";
  }
  sh.h.clear();
  if (sh.arena.live && bad.empty()) bad = "blocks of the shared arena remain";
  return bad;
}

template <class A>
void threads_case(Ctx& c) {
  Plan<A> p;
  p.threads = 2 + c.below(3);
  p.cut = c.below(101);
  for (int& x : p.shared) x = c.range(1, 60);
  p.ops.resize(static_cast<std::size_t>(p.threads));
  int touches = 0;
  for (auto& o : p.ops) {
    int n = c.range(1, 30);
    bool t = false;
    for (int k = 0; k < n; ++k) {
      Op q;
      q.code = static_cast<unsigned char>(c.below(16));
      q.a = static_cast<unsigned char>(c.below(4));
      q.b = static_cast<unsigned char>(c.below(4));
      q.v = static_cast<unsigned char>(c.range(1, 99));
      o.push_back(q);
      if (q.code < 7 || q.code > 13) t = true;
    }
    touches += t;
  }
  if (touches > 1) {
    c.nontrivial();
    c.cls("two threads or more use the shared handles");
  }
  c << p.threads << " threads, operations";
  for (auto& o : p.ops) c << " " << o.size();
  // A schedule cannot be replayed: try several when a case is.
  for (int k = 0; k < (c.replaying ? 25 : 1) && !c.failed; ++k) {
    std::vector<std::vector<long>> a, b;
    std::string x = execute<A>(p, true, a);
    std::string y = execute<A>(p, false, b);
    c.check(x.empty(), "with threads", [&](std::ostream& o) { o << x; });
    c.check(y.empty(), "single-threaded", [&](std::ostream& o) { o << y; });
    c.check(a == b, "threads see other values than a single-threaded run");
  }
}
}  // namespace

VP_SUITE(threads_std, 2) { threads_case<std::allocator<Val>>(c); }
VP_SUITE(threads_arena, 2) { threads_case<ArenaAlloc<Val, false>>(c); }
VP_SUITE(threads_arena_moving, 1) { threads_case<ArenaAlloc<Val, true>>(c); }
}  // namespace vp
