// C15: recursive composites edited at random and compared with a plain model.
#include <memory>
#include <type_traits>
#include <vector>

#include "alloc.hpp"
#include "hdr.hpp"
#include "prop.hpp"

namespace vp {
namespace {
const int GONE = -7777;

// A tracked int.
struct Val {
  int v;
  explicit Val(int x) : v(x) { L.born(this, sizeof *this, 1, H_VAL); }
  Val(const Val& o) : v(o.get()) { L.born(this, sizeof *this, 1, H_COPY); }
  Val(Val&& o) noexcept : v(o.get()) {
    L.born(this, sizeof *this, 1, H_MOVE);
    o.v = GONE;
  }
  Val& operator=(const Val& o) {
    L.check_live(this, 1, "assign to");
    v = o.get();
    return *this;
  }
  Val& operator=(Val&& o) noexcept {
    L.check_live(this, 1, "assign to");
    int x = o.get();
    o.v = GONE;
    v = x;
    return *this;
  }
  ~Val() {
    L.died(this, 1);
    v = -9999;
  }
  int get() const {
    L.check_live(this, 1, "read");
    return v;
  }
  friend bool operator==(const Val& a, const Val& b) { return a.get() == b.get(); }
};

// An optional handle stored directly in the node.
template <class H>
struct Opt {
  bool on = false;
  alignas(H) unsigned char mem[sizeof(H)];
  Opt() {}
  Opt(const Opt& o) { if (o.on) set(*o); }
  Opt(Opt&& o) noexcept { if (o.on) set(std::move(*o)); }
  Opt& operator=(const Opt& o) {
    if (this == &o) return *this;
    if (on && o.on) **this = *o;
    else if (o.on) set(*o);
    else clear();
    return *this;
  }
  Opt& operator=(Opt&& o) {
    if (this == &o) return *this;
    if (on && o.on) **this = std::move(*o);
    else if (o.on) set(std::move(*o));
    else clear();
    return *this;
  }
  ~Opt() { clear(); }
  H& operator*() { return *reinterpret_cast<H*>(mem); }
  const H& operator*() const { return *reinterpret_cast<const H*>(mem); }
  template <class X>
  void set(X&& x) {
    clear();
    ::new (static_cast<void*>(mem)) H(std::forward<X>(x));
    on = true;
  }
  void clear() {
    if (on) {
      on = false;
      (**this).~H();
    }
  }
  friend bool operator==(const Opt& a, const Opt& b) {
    return a.on == b.on && (!a.on || *a == *b);
  }
};

// K 0: copy and move are compiler generated. K 1: assignment takes a copy first,
// so that it accepts a source inside its target.
template <class C, int K>
struct Node;
#if VP_POLY
template <class C, int K>
using HandleOf = xyz::polymorphic<Node<C, K>, SpyAlloc<Node<C, K>, C>>;
#else
template <class C, int K>
using HandleOf = xyz::indirect<Node<C, K>, SpyAlloc<Node<C, K>, C>>;
#endif

template <class C>
struct Node<C, 0> {
  using H = HandleOf<C, 0>;  // Node is incomplete here
  Val v;
  Opt<H> left;
  std::vector<H> kids;
  Opt<H> right;
  explicit Node(int x) : v(x) {}
#if VP_POLY
  Node(const Node&) = default;
  Node(Node&&) = default;
  Node& operator=(const Node&) = default;
  Node& operator=(Node&&) = default;
  virtual ~Node() = default;
  virtual int extra() const { return 0; }
#else
  int extra() const { return 0; }
#endif
  friend bool operator==(const Node& a, const Node& b) {
    return a.v == b.v && a.left == b.left && a.kids == b.kids && a.right == b.right;
  }
  friend bool operator!=(const Node& a, const Node& b) { return !(a == b); }
};
template <class C>
struct Node<C, 1> {
  using H = HandleOf<C, 1>;
  Val v;
  std::vector<H> kids;
  Opt<H> left;
  Opt<H> right;
  explicit Node(int x) : v(x) {}
  Node(const Node&) = default;
  Node(Node&&) = default;
  Node& operator=(const Node& o) {
    Node t(o);
    take(t);
    return *this;
  }
  Node& operator=(Node&& o) {
    Node t(std::move(o));
    take(t);
    return *this;
  }
  void take(Node& t) {
    v = std::move(t.v);
    // What is replaced is destroyed with t, after everything is in place.
    kids.swap(t.kids);
    swap_opt(left, t.left);
    swap_opt(right, t.right);
  }
  static void swap_opt(Opt<H>& a, Opt<H>& b) {
    Opt<H> t(std::move(a));
    a.clear();
    if (b.on) a.set(std::move(*b));
    b.clear();
    if (t.on) b.set(std::move(*t));
  }
#if VP_POLY
  virtual ~Node() = default;
  virtual int extra() const { return 0; }
#else
  int extra() const { return 0; }
#endif
  friend bool operator==(const Node& a, const Node& b) {
    return a.v == b.v && a.left == b.left && a.kids == b.kids && a.right == b.right;
  }
  friend bool operator!=(const Node& a, const Node& b) { return !(a == b); }
};
#if VP_POLY
struct Offset0 {
  long fill = 11;
  virtual ~Offset0() = default;
};
template <class C, int K>
struct Deriv : Offset0, Node<C, K> {  // the node is at an offset
  Val w;
  Deriv(int x, int y) : Node<C, K>(x), w(y) {}
  int extra() const override { return w.get(); }
};
#endif

// The model: what a handle holds.
struct M {
  bool valueless = false;
  int v = 0, w = 0;
  std::vector<M> kids, left, right;
  int size() const {
    int n = 1;
    for (const M& m : kids) n += m.size();
    for (const M& m : left) n += m.size();
    for (const M& m : right) n += m.size();
    return n;
  }
  void vacate() {
    *this = M();
    valueless = true;
  }
  // What remains in a node whose members were moved out.
  M take() {
    M r = *this;
    if (valueless) return r;
    v = GONE;
    if (w) w = GONE;
    kids.clear();
    for (M& m : left) m.vacate();
    for (M& m : right) m.vacate();
    return r;
  }
};
bool operator==(const M& a, const M& b) {
  if (a.valueless || b.valueless) return a.valueless == b.valueless;
  return a.v == b.v && a.w == b.w && a.kids == b.kids && a.left == b.left &&
         a.right == b.right;
}

template <class H>
bool matches(const H& h, const M& m, std::string& why) {
  if (h.valueless_after_move() != m.valueless) {
    why = m.valueless ? "a handle has a value but should be valueless"
                      : "a handle is valueless but should have a value";
    return false;
  }
  if (m.valueless) return true;
  if (h->v.get() != m.v || h->extra() != m.w) {
    why = "a node holds " + std::to_string(h->v.v) + "/" + std::to_string(h->extra()) +
          " instead of " + std::to_string(m.v) + "/" + std::to_string(m.w);
    return false;
  }
  if (h->kids.size() != m.kids.size() || h->left.on != !m.left.empty() ||
      h->right.on != !m.right.empty()) {
    why = "a node has different children";
    return false;
  }
  for (std::size_t i = 0; i < m.kids.size(); ++i)
    if (!matches(h->kids[i], m.kids[i], why)) return false;
  if (h->left.on && !matches(*h->left, m.left[0], why)) return false;
  if (h->right.on && !matches(*h->right, m.right[0], why)) return false;
  return true;
}

// A composite whose special member functions are all compiler generated.
template <class H>
struct Doc {
  int id;
  H a;
  H b;
};
struct MDoc {
  int id;
  M a, b;
};

template <class C, int K>
struct World {
  using H = HandleOf<C, K>;
  using A = typename H::allocator_type;
  using N = Node<C, K>;
  Ctx& c;
  std::vector<std::unique_ptr<Doc<H>>> docs;
  std::vector<MDoc> model;
  int next = 1;
  int nested_moves = 0, nested_copies = 0, deep = 0;

  explicit World(Ctx& x) : c(x) {}

  H fresh(int v, int w, int arena) {
#if VP_POLY
    if (w) return H(std::allocator_arg, A(arena, 0), VP_IN_PLACE_TYPE(Deriv<C, K>), v, w);
    return H(std::allocator_arg, A(arena, 0), VP_IN_PLACE_TYPE(N), v);
#else
    (void)w;
    return H(std::allocator_arg, A(arena, 0), VP_IN_PLACE, v);
#endif
  }
  M fresh_model(int v, int w) {
    M m;
    m.v = v;
    m.w = VP_POLY ? w : 0;
    return m;
  }

  struct At {
    H* h;
    M* m;
    std::vector<const H*> above;  // enclosing handles
    bool inside(const At& o) const {
      for (const H* x : above)
        if (x == o.h) return true;
      return false;
    }
  };
  At walk() {
    At t;
    const std::size_t d = static_cast<std::size_t>(c.below(static_cast<int>(docs.size())));
    if (c.below(2)) {
      t.h = &docs[d]->b;
      t.m = &model[d].b;
    } else {
      t.h = &docs[d]->a;
      t.m = &model[d].a;
    }
    return descend(t);
  }
  At descend(At t) {
    for (int depth = 0; depth < 12; ++depth) {
      if (t.m->valueless) break;
      N& n = **t.h;
      const int options = static_cast<int>(t.m->kids.size() + t.m->left.size() + t.m->right.size());
      const int pick = c.below(options + 1);
      if (pick == 0) break;
      t.above.push_back(t.h);
      M* m = t.m;
      if (pick <= static_cast<int>(m->kids.size())) {
        t.h = &n.kids[static_cast<std::size_t>(pick - 1)];
        t.m = &m->kids[static_cast<std::size_t>(pick - 1)];
      } else if (!m->left.empty() && pick == static_cast<int>(m->kids.size()) + 1) {
        t.h = &*n.left;
        t.m = &m->left[0];
      } else {
        t.h = &*n.right;
        t.m = &m->right[0];
      }
      deep = depth + 1 > deep ? depth + 1 : deep;
    }
    return t;
  }
  int total() const {
    int n = 0;
    for (const MDoc& d : model) n += d.a.size() + d.b.size();
    return n;
  }
  bool in_place(const H& dst, const H& src) const {
    return !VP_POLY && !dst.valueless_after_move() && !src.valueless_after_move() &&
           dst.get_allocator() == src.get_allocator();
  }
  // Moves out of src as a move from a handle with allocator equality eq does.
  M moved(M* m, bool eq) {
    if (eq || m->valueless) {
      M r = *m;
      m->vacate();
      return r;
    }
    return m->take();
  }

  void copy_assign(At d, At s) {
    const bool overlap = s.inside(d) || d.inside(s);
    if (d.h != s.h && overlap && in_place(*d.h, *s.h) && K == 0) return;
    if (total() + s.m->size() > 120) return;
    c << " copy" << (s.inside(d) ? "-from-inside" : "");
    if (s.inside(d)) ++nested_copies;
    H& r = (*d.h = *s.h);
    c.check(&r == d.h, "assignment returns the handle");
    const M t = *s.m;
    *d.m = t;
  }
  void move_assign(At d, At s) {
    if (d.inside(s)) return;  // would make the tree own itself
    c << " move" << (s.inside(d) ? "-from-inside" : "");
    if (s.inside(d)) ++nested_moves;
    if (d.h == s.h) {
      H& alias = *s.h;
      *d.h = std::move(alias);
      return;
    }
    const bool eq = d.h->get_allocator() == s.h->get_allocator();
    *d.h = std::move(*s.h);
    const M t = moved(s.m, eq);
    *d.m = t;
  }
  void swap_handles(At d, At s) {
    if (s.inside(d) || d.inside(s)) return;
    if (!C::pocs && d.h->get_allocator() != s.h->get_allocator()) return;
    c << " swap";
    if (c.below(2)) {
      using std::swap;
      swap(*d.h, *s.h);
    } else {
      d.h->swap(*s.h);
    }
    if (d.h != s.h) std::swap(*d.m, *s.m);
  }
  void add(At d, At s) {
    if (d.m->valueless) return;
    N& n = **d.h;
    const int where = c.below(4), how = c.below(4), arena = c.range(1, 3);
    M m;
    if (total() + s.m->size() > 120) return;
    if (how < 2) {
      const int v = next++, w = c.below(3);
      H h = fresh(v, w, arena);
      m = fresh_model(v, w);
      put(n, d, where, std::move(h), m);
    } else if (how == 2) {
      m = *s.m;
      put(n, d, where, static_cast<const H&>(*s.h), m);
    } else {
      if (d.inside(s) || d.h == s.h) return;
      // The child may replace the handle it comes from: take it out first.
      H h(std::move(*s.h));
      m = moved(s.m, true);
      put(n, d, where, std::move(h), m);
    }
    c << " add";
  }
  template <class X>
  void put(N& n, At& d, int where, X&& h, const M& m0) {
    const M m = m0;
    if (where < 2) {
      n.kids.push_back(std::forward<X>(h));
      d.m->kids.push_back(m);
    } else {
      Opt<H>& o = where == 2 ? n.left : n.right;
      std::vector<M>& om = where == 2 ? d.m->left : d.m->right;
      H t(std::forward<X>(h));  // h may be inside what is replaced
      o.set(std::move(t));
      om.assign(1, m);
    }
  }
  void prune(At d) {
    if (d.m->valueless) return;
    N& n = **d.h;
    c << " prune";
    if (!n.kids.empty() && c.below(2)) {
      const int i = c.below(static_cast<int>(n.kids.size()));
      if (C::pocs || C::ae) {
        n.kids.erase(n.kids.begin() + i);
        d.m->kids.erase(d.m->kids.begin() + i);
      } else {
        n.kids.pop_back();
        d.m->kids.pop_back();
      }
    } else if (c.below(2)) {
      n.left.clear();
      d.m->left.clear();
    } else {
      n.right.clear();
      d.m->right.clear();
    }
  }
#if !VP_POLY
  void value_assign(At d, At s) {
    const bool overlap = s.inside(d) || d.inside(s) || d.h == s.h;
    if (s.m->valueless || total() + s.m->size() > 120) return;
    if (overlap && K == 0) return;
    const int how = c.below(3);
    c << " assign-value";
    if (how == 0) {
      const int v = next++;
      *d.h = N(v);
      *d.m = fresh_model(v, 0);
    } else if (how == 1) {
      *d.h = static_cast<const N&>(**s.h);
      const M t = *s.m;
      *d.m = t;
    } else {
      if (overlap) return;
      // Node 0 assigns member by member, which keeps unequal allocators apart:
      // only check the target.
      const bool fresh_target = d.m->valueless;
      if (!fresh_target && K == 0) return;
      *d.h = std::move(**s.h);
      const M t = s.m->take();
      *d.m = t;
    }
  }
  void compare(At d, At s) {
    c << " compare";
    const H &x = *d.h, &y = *s.h;
    c.check((x == y) == (*d.m == *s.m), "comparison of trees");
    c.check((x != y) != (*d.m == *s.m), "comparison of trees");
  }
#endif
  void whole_documents() {
    const std::size_t n = docs.size();
    const std::size_t i = static_cast<std::size_t>(c.below(static_cast<int>(n)));
    const std::size_t j = static_cast<std::size_t>(c.below(static_cast<int>(n)));
    Doc<H>&x = *docs[i], &y = *docs[j];
    const bool ea = x.a.get_allocator() == y.a.get_allocator();
    const bool eb = x.b.get_allocator() == y.b.get_allocator();
    switch (c.below(5)) {
      case 0:
        if (total() + model[j].a.size() + model[j].b.size() > 120) return;
        c << " doc-copy-assign";
        x = y;
        if (i != j) model[i] = model[j];
        break;
      case 1:
        c << " doc-move-assign";
        if (i == j) return;
        x = std::move(y);
        model[i].id = model[j].id;
        model[i].a = moved(&model[j].a, ea);
        model[i].b = moved(&model[j].b, eb);
        break;
      case 2: {
        if (total() + model[j].a.size() + model[j].b.size() > 120) return;
        c << " doc-copy";
        std::unique_ptr<Doc<H>> t(new Doc<H>(y));
        MDoc m = model[j];
        docs[i] = std::move(t);
        model[i] = m;
        break;
      }
      case 3: {
        c << " doc-move";
        if (i == j) return;
        std::unique_ptr<Doc<H>> t(new Doc<H>(std::move(y)));
        docs[i] = std::move(t);
        model[i].id = model[j].id;
        model[i].a = moved(&model[j].a, true);
        model[i].b = moved(&model[j].b, true);
        break;
      }
      default:
        if (i == j || !(C::pocma || C::ae)) return;
        c << " doc-swap";
        std::swap(x, y);  // three moves
        std::swap(model[i], model[j]);
    }
  }
  void verify(const char* when) {
    std::string why;
    for (std::size_t i = 0; i < docs.size(); ++i) {
      if (docs[i]->id != model[i].id) why = "plain member of a composite";
      if (!why.empty() || !matches(docs[i]->a, model[i].a, why) ||
          !matches(docs[i]->b, model[i].b, why)) {
        c.fail(std::string("after ") + when + ": " + why);
        return;
      }
    }
    ++c.checks;
    if (L.err_cat) c.fail(std::string("after ") + when + ": " + L.err);
  }
  void run() {
    const int n = c.range(1, 3);
    for (int i = 0; i < n; ++i) {
      const int v = next++, w = next++, x = c.below(3), y = c.below(3);
      docs.emplace_back(new Doc<H>{i, fresh(v, x, c.range(1, 3)), fresh(w, y, c.range(1, 3))});
      model.push_back(MDoc{i, fresh_model(v, x), fresh_model(w, y)});
    }
    const int grow = c.range(2, 14), ops = c.range(1, 22);
    c << n << " documents, " << grow << "+" << ops << " edits:";
    for (int k = 0; k < grow + ops && !c.failed; ++k) {
      At d = walk();
      if (k < grow) {
        At s = walk();
        add(d, s);
        verify("add");
        continue;
      }
      // Half of the time the source is inside the target.
      At s = c.below(2) ? walk() : descend(d);
      switch (c.below(12)) {
        case 0: case 1: copy_assign(d, s); verify("copy assignment"); break;
        case 2: case 3: case 4: move_assign(d, s); verify("move assignment"); break;
        case 5: swap_handles(d, s); verify("swap"); break;
        case 6: add(d, s); verify("add"); break;
        case 7: prune(d); verify("prune"); break;
#if !VP_POLY
        case 8: value_assign(d, s); verify("value assignment"); break;
        case 9: compare(d, s); verify("comparison"); break;
#endif
        case 10:
          if (!d.m->valueless) {
            (**d.h).v.v = next;
            d.m->v = next++;
          }
          break;
        default: whole_documents(); verify("an operation on whole documents"); break;
      }
    }
    if (nested_moves) c.cls("moved from inside the target");
    if (nested_copies) c.cls("copied from inside the target");
    if (deep > 3) c.cls("depth over three");
    if (nested_moves || nested_copies || deep > 3) c.nontrivial();
  }
};

template <class C, int K>
void trees(Ctx& c) {
  {
    World<C, K> w(c);
    w.run();
  }
}
VP_SUITE(documents, 10) {
  switch (c.below(6)) {
    case 0: trees<Cfg<false, false, false, false, false, false>, 0>(c); break;
    case 1: trees<Cfg<false, true, true, false, false, false>, 0>(c); break;
    case 2: trees<Cfg<true, true, true, false, true, true>, 0>(c); break;
    case 3: trees<Cfg<false, false, false, true, false, false>, 0>(c); break;
    case 4: trees<Cfg<false, false, true, false, false, true>, 1>(c); break;
    default: trees<Cfg<true, true, true, true, false, false>, 1>(c); break;
  }
}

// Long chains: promote, copy or drop at a random depth.
template <class C>
struct ChainNode;
#if VP_POLY
template <class C>
using ChainH = xyz::polymorphic<ChainNode<C>, SpyAlloc<ChainNode<C>, C>>;
#else
template <class C>
using ChainH = xyz::indirect<ChainNode<C>, SpyAlloc<ChainNode<C>, C>>;
#endif
template <class C>
struct ChainNode {
  Val v;
  Opt<ChainH<C>> next;
  explicit ChainNode(int x) : v(x) {}
  ChainNode(int x, ChainH<C>&& n) : v(x) { next.set(std::move(n)); }
  ChainNode(const ChainNode&) = default;
  ChainNode(ChainNode&&) = default;
  ChainNode& operator=(const ChainNode&) = default;
  ChainNode& operator=(ChainNode&&) = default;
  virtual ~ChainNode() = default;
};
template <class C>
void chain(Ctx& c) {
  using H = ChainH<C>;
  using A = typename H::allocator_type;
  const int n = c.range(1, 120), mixed = c.below(2);
  std::vector<int> model;
  auto arena = [&](int i) { return mixed ? 1 + i % 3 : 1; };
#if VP_POLY
#define VP_CHAIN VP_IN_PLACE_TYPE(ChainNode<C>)
#else
#define VP_CHAIN VP_IN_PLACE
#endif
  H h(std::allocator_arg, A(arena(0), 0), VP_CHAIN, 0);
  model.push_back(0);
  for (int i = 1; i < n; ++i) {
    H t(std::allocator_arg, A(arena(i), 0), VP_CHAIN, i, std::move(h));
    const bool eq = t.get_allocator() == h.get_allocator();
    h = std::move(t);
    model.insert(model.begin(), i);
    if (!eq && !C::pocma) c.cls("built across allocators");
  }
  const int steps = c.range(1, 6);
  c << "chain of " << n << (mixed ? " in three arenas" : "") << ", " << steps << " steps:";
  for (int k = 0; k < steps && !model.empty() && !c.failed; ++k) {
    const int from = c.below(static_cast<int>(model.size()));
    const int to = from + c.below(static_cast<int>(model.size()) - from);
    auto at = [&](int d) {
      H* p = &h;
      while (d--) p = &*(**p).next;
      return p;
    };
    H *d = at(from), *s = at(to);
    if (c.below(2)) {
      c << " promote " << to << " to " << from;
      *d = std::move(*s);
    } else {
      c << " copy " << to << " to " << from;
      *d = *s;
    }
    if (to > from) c.nontrivial();
    model.erase(model.begin() + from, model.begin() + to);
    const H* p = &h;
    bool ok = true;
    for (std::size_t i = 0; i < model.size() && ok; ++i) {
      ok = !p->valueless_after_move() && (**p).v.get() == model[i] &&
           (**p).next.on == (i + 1 < model.size());
      if (ok && i + 1 < model.size()) p = &*(**p).next;
    }
    c.check(ok, "a chain after assigning one of its tails to an earlier handle");
  }
}
VP_SUITE(chains, 4) {
  // The allocator of a handle never changes in the last, always in the second.
  switch (c.below(4)) {
    case 0: chain<Cfg<false, false, false, true, false, false>>(c); break;
    case 1: chain<Cfg<true, true, true, false, false, false>>(c); break;
    case 2: chain<Cfg<false, true, false, false, false, true>>(c); break;
    default: chain<Cfg<false, false, false, false, false, false>>(c); break;
  }
}

// An object that looks at its own handle while it is destroyed.
template <class C>
struct Self;
#if VP_POLY
template <class C>
using SelfH = xyz::polymorphic<Self<C>, SpyAlloc<Self<C>, C>>;
#else
template <class C>
using SelfH = xyz::indirect<Self<C>, SpyAlloc<Self<C>, C>>;
#endif
template <class C>
struct Self {
  Val v;
  const SelfH<C>* home = nullptr;
  explicit Self(int x) : v(x) {}
  Self(const Self& o) : v(o.v) {}
  Self(Self&& o) noexcept : v(std::move(o.v)) {}
  Self& operator=(const Self& o) {
    v = o.v;
    return *this;
  }
  virtual ~Self() {
    if (!home || home->valueless_after_move()) return;
    const Self& s = **home;
    if (&s == this)
      L.error(RES, "an object under destruction is reachable through its handle");
    else
      s.v.get();
  }
};
template <class C>
void back_reference(Ctx& c) {
  using H = SelfH<C>;
  using A = typename H::allocator_type;
  const int n = c.range(1, 4), ops = c.range(1, 16);
  c << "self-aware objects in " << n << " handles, " << ops << " operations:";
  c.nontrivial();
  int next = 1;
  std::vector<std::unique_ptr<H>> h;
  std::vector<int> model;  // GONE: valueless
  auto make = [&](int arena) {
    const int v = next++;
#if VP_POLY
    return H(std::allocator_arg, A(arena, 0), VP_IN_PLACE_TYPE(Self<C>), v);
#else
    return H(std::allocator_arg, A(arena, 0), VP_IN_PLACE, v);
#endif
  };
  for (int i = 0; i < n; ++i) {
    h.emplace_back(new H(make(c.range(1, 2))));
    model.push_back(next - 1);
  }
  auto settle = [&] {
    for (auto& x : h)
      if (!x->valueless_after_move()) (**x).home = x.get();
  };
  settle();
  for (int k = 0; k < ops && !c.failed; ++k) {
    const std::size_t a = static_cast<std::size_t>(c.below(n)), b = static_cast<std::size_t>(c.below(n));
    const bool eq = h[a]->get_allocator() == h[b]->get_allocator();
    const int left = eq || model[b] == GONE ? GONE : GONE + 1;  // a moved-from object stays
    switch (c.below(5)) {
      case 0:
        c << " copy";
        *h[a] = *h[b];
        model[a] = model[b];
        break;
      case 1:
        c << " move";
        if (a == b) break;
        if (left != GONE) (**h[b]).home = nullptr;
        *h[a] = std::move(*h[b]);
        model[a] = model[b];
        model[b] = GONE;
        if (left != GONE) {
          c.check((**h[b]).v.get() == GONE, "moved-from object");
          *h[b] = make(1);
          model[b] = next - 1;
        }
        break;
      case 2:
        c << " fresh";
        *h[a] = make(c.range(1, 2));
        model[a] = next - 1;
        break;
      case 3:
        c << " destroy";
        h[a].reset(new H(make(c.range(1, 2))));
        model[a] = next - 1;
        break;
      default:
#if VP_POLY
        break;
#else
        c << " value";
        *h[a] = Self<C>(next);
        model[a] = next++;
#endif
    }
    for (std::size_t i = 0; i < h.size(); ++i)
      c.check(h[i]->valueless_after_move() == (model[i] == GONE) &&
                  (model[i] == GONE || (**h[i]).v.get() == model[i]),
              "values of self-aware objects");
    settle();
  }
}
VP_SUITE(back_references, 2) {
  switch (c.below(3)) {
    case 0: back_reference<Cfg<false, false, false, true, false, false>>(c); break;
    case 1: back_reference<Cfg<true, true, true, false, false, false>>(c); break;
    default: back_reference<Cfg<false, false, false, false, false, true>>(c); break;
  }
}

}  // namespace
}  // namespace vp
