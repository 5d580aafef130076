// C11: constness and value category of access; identity of the owned object.
#include <string>
#include <type_traits>
#include <vector>

#include "alloc.hpp"
#include "hdr.hpp"
#include "prop.hpp"

namespace vp {
namespace {
using C0 = Cfg<false, true, false, false, false, false>;

// Knows whether it was reached through a const path, and notices any mutation.
struct Base0 {
  long pad = 3;
  virtual ~Base0() = default;
};
struct Probe {
  int v;
  int nonconst = 0;        // non-const calls
  mutable int konst = 0;   // const calls
  explicit Probe(int x) : v(x) {}
  Probe(const Probe& o) : v(o.v) { ++o.konst; }
  Probe(Probe& o) : v(o.v) { ++o.nonconst; }
  Probe(Probe&& o) noexcept : v(o.v) { o.v = -1; }
  Probe& operator=(const Probe& o) {
    ++o.konst;
    v = o.v;
    return *this;
  }
  virtual ~Probe() = default;
  virtual int kind() const { return 0; }
  int which() {
    ++nonconst;
    return 1;
  }
  int which() const {
    ++konst;
    return 2;
  }
};
inline bool operator==(const Probe& a, const Probe& b) { return a.v == b.v; }
inline bool operator<(const Probe& a, const Probe& b) { return a.v < b.v; }
#if !(__cplusplus >= 202002L) || VP_CXX14
inline bool operator!=(const Probe& a, const Probe& b) { return a.v != b.v; }
#endif
struct Offset : Base0, Probe {  // the base used by the handle is at an offset
  using Probe::Probe;
  Offset(const Offset& o) : Base0(o), Probe(static_cast<const Probe&>(o)) {}
  Offset(Offset&& o) noexcept : Base0(o), Probe(std::move(static_cast<Probe&>(o))) {}
  int kind() const override { return 1; }
};

template <int W>
int call_kind(std::integral_constant<int, W>) { return W; }
int category(Probe&) { return 0; }
int category(const Probe&) { return 1; }
int category(Probe&&) { return 2; }
int category(const Probe&&) { return 3; }

template <class A>
#if VP_POLY
using Handle = xyz::polymorphic<Probe, A>;
template <class H>
H make(int v, bool offset, const typename H::allocator_type& a) {
  if (offset) return H(std::allocator_arg, a, VP_IN_PLACE_TYPE(Offset), v);
  return H(std::allocator_arg, a, VP_IN_PLACE_TYPE(Probe), v);
}
#else
using Handle = xyz::indirect<Probe, A>;
template <class H>
H make(int v, bool, const typename H::allocator_type& a) {
  return H(std::allocator_arg, a, VP_IN_PLACE, v);
}
#endif

template <class H>
struct Comp {
  H h;
  H* self() { return &h; }
  int mut() { return h->which() * 10 + (*h).which(); }
  int con() const { return h->which() * 10 + (*h).which(); }
};
template <class H>
struct Outer {
  Comp<H> c;
  std::vector<Comp<H>> more;
  int deep() const { return c.con() + (more.empty() ? 0 : more[0].con()); }
};

template <class H>
const Probe* addr(const H& h) {
  return h.valueless_after_move() ? nullptr : std::addressof(*h);
}

template <class H>
void paths(Ctx& c, H& h) {
  const H& k = h;
  const Probe* p = std::addressof(*k);
  c.check(std::addressof(*h) == p && h.operator->() == p && k.operator->() == p,
          "operator* and operator-> designate the same object");
  const int n0 = p->nonconst, k0 = p->konst, v0 = p->v;
  c.check(k->which() == 2 && (*k).which() == 2, "const access gives a const object");
  c.check(p->nonconst == n0 && p->konst == k0 + 2, "const access mutated the object");
  c.check(h->which() == 1 && (*h).which() == 1, "access gives a mutable object");
  c.check(p->nonconst == n0 + 2, "mutable access reached another object");
  c.check(category(*h) == 0 && category(*k) == 1, "value category of lvalue access");
#if !VP_POLY
  c.check(category(*std::move(h)) == 2 && category(*std::move(k)) == 3,
          "value category of rvalue access");
  c.check(std::addressof(static_cast<const Probe&>(*std::move(h))) == p &&
              std::addressof(static_cast<const Probe&>(*std::move(k))) == p,
          "rvalue access designates the same object");
#endif
  c.check(p->v == v0 && !h.valueless_after_move(), "access changed the handle");
}

template <class A, class MakeA>
void history(Ctx& c, MakeA ma, const char* name) {
  using H = Handle<A>;
  struct Slot {
    std::unique_ptr<Comp<H>> o;
    const Probe* at = nullptr;
    int v = 0, nonconst = 0;
  };
  Slot s[3];
  std::vector<H> vec;
  std::vector<const Probe*> vec_at;
  int n = 3 + c.below(25), steps = 0;
  auto note = [&](Slot& x) {
    x.at = x.o ? addr(x.o->h) : nullptr;
    if (x.at) {
      x.v = x.at->v;
      x.nonconst = x.at->nonconst;
    }
  };
  for (int k = 0; k < n && !c.failed; ++k) {
    Slot& x = s[c.below(3)];
    Slot& y = s[c.below(3)];
    int op = c.below(10), v = c.below(50), a = c.below(2), off = c.below(2);
    if (!x.o) op = 0;
    switch (op) {
      case 0:
        x.o.reset(new Comp<H>{make<H>(v, off, ma(a))});
        note(x);
        c.check(x.at && x.at->v == v, "constructed value");
        break;
      case 1:
        if (x.at) paths(c, x.o->h);
        if (x.at) x.nonconst = x.at->nonconst;
        break;
      case 2: {  // const use only
        const Comp<H>& k2 = *x.o;
        if (x.at) c.check(k2.con() == 22, "constness propagates through a member");
        if (x.at) {
          H copy(k2.h);
          c.check(addr(copy) != x.at, "a copy has its own object");
          c.check(copy->v == x.v, "a copy has the value");
          ++steps;
        } else {
          H copy(k2.h);
          c.check(copy.valueless_after_move(), "a copy of a valueless handle");
        }
        (void)k2.h.get_allocator();
        (void)k2.h.valueless_after_move();
#if !VP_POLY
        if (x.at && y.at) {
          const H& l = x.o->h;
          const H& r = y.o->h;
          c.check((l == r) == (x.v == y.v), "equality");
        }
#endif
        break;
      }
      case 3:
        if (x.at) {
          c.check(x.o->mut() == 11, "a mutable composite gives mutable access");
          x.nonconst += 2;
          x.o->h->v = v;
          x.v = v;
        }
        break;
      case 4:  // move construct: object travels with the handle
        if (&x != &y) {
          y.o.reset(new Comp<H>(std::move(*x.o)));
          c.check(addr(y.o->h) == x.at, "a moved handle keeps its object");
          c.check(x.o->h.valueless_after_move(), "the source is valueless");
          y.at = x.at;
          y.v = x.v;
          y.nonconst = x.nonconst;
          note(x);
          ++steps;
        }
        break;
      case 5:  // swap between equal allocators
        if (y.o && x.o->h.get_allocator() == y.o->h.get_allocator()) {
          using std::swap;
          swap(x.o->h, y.o->h);
          if (&x != &y) {
            std::swap(x.at, y.at);
            std::swap(x.v, y.v);
            std::swap(x.nonconst, y.nonconst);
          }
          ++steps;
        }
        break;
      case 6:  // growth of a vector moves handles, not objects
        if (x.at) {
          // Growth may copy elements whose move can throw.
          if (!std::allocator_traits<A>::is_always_equal::value) vec.reserve(64);
          vec.push_back(x.o->h);
          vec_at.push_back(addr(vec.back()));
          ++steps;
        }
        break;
      case 7:
        if (y.o && &x != &y) {
          x.o->h = static_cast<const H&>(y.o->h);
          note(x);
          if (y.at) c.check(x.at && x.at != y.at && x.v == y.v, "copy assignment");
        }
        break;
      case 8:
        if (!vec.empty()) {
          std::size_t i = static_cast<std::size_t>(c.below(static_cast<int>(vec.size())));
          vec.erase(vec.begin() + static_cast<std::ptrdiff_t>(i));
          vec_at.clear();
          for (H& h : vec) vec_at.push_back(addr(h));
        }
        break;
      default:
        x.o.reset();
        x.at = nullptr;
    }
    for (Slot& q : s) {
      if (!q.o) continue;
      const H& h = q.o->h;
      c.check(addr(h) == q.at, "the owned object's address changed");
      if (q.at)
        c.check(h->v == q.v && h->nonconst == q.nonconst,
                "a const operation changed the owned object");
    }
    for (std::size_t i = 0; i < vec.size(); ++i)
      c.check(addr(vec[i]) == vec_at[i], "an element's object moved");
  }
  c << name << " operations " << n << " transfers " << steps;
  if (steps) c.nontrivial();
}

template <class H, class T>
void handle_facts(Ctx& c, const char* name) {
  auto fact = [&](bool ok, const char* what) {
    c.check(ok, what, [&](std::ostream& o) { o << name; });
  };
  fact(std::is_same<decltype(*std::declval<H&>()), T&>::value, "*lvalue is T&");
  fact(std::is_same<decltype(*std::declval<const H&>()), const T&>::value,
       "*const lvalue is const T&");
  fact(std::is_same<decltype(std::declval<H&>().operator->()), T*>::value, "-> is T*");
  fact(std::is_same<decltype(std::declval<const H&>().operator->()), const T*>::value,
       "const -> is const T*");
#if !VP_POLY
  fact(std::is_same<decltype(*std::declval<H&&>()), T&&>::value, "*rvalue is T&&");
  fact(std::is_same<decltype(*std::declval<const H&&>()), const T&&>::value,
       "*const rvalue is const T&&");
#endif
  fact(std::is_same<decltype(std::declval<const H&>().valueless_after_move()), bool>::value,
       "valueless_after_move() const is bool");
  fact(std::is_same<decltype(std::declval<const H&>().get_allocator()),
                    typename H::allocator_type>::value,
       "get_allocator() const is the allocator");
  fact(std::is_same<typename H::value_type, T>::value, "value_type");
}
struct Abstract {
  virtual void f() = 0;
  virtual ~Abstract() = default;
};
}  // namespace
}  // namespace vp
using namespace vp;

VP_SUITE(access_std, 3) {
  history<std::allocator<Probe>>(c, [](int) { return std::allocator<Probe>(); }, "std::allocator");
}
VP_SUITE(access_spy, 3) {
  history<SpyAlloc<Probe, C0>>(
      c, [](int a) { return SpyAlloc<Probe, C0>(a, 0); }, "stateful");
}
VP_SUITE(const_composites, 1) {
  using A = std::allocator<Probe>;
  using H = Handle<A>;
  int n = c.below(4);
  Outer<H> o{Comp<H>{make<H>(1, c.below(2), A())}, {}};
  for (int i = 0; i < n; ++i) o.more.push_back(Comp<H>{make<H>(i, c.below(2), A())});
  const Outer<H>& k = o;
  c.check(k.deep() == (n ? 44 : 22), "constness propagates through nested composites");
  const Outer<H> copy(k);
  c.check(o.c.h->nonconst == 0, "copying a const composite mutated its values");
  for (auto& m : o.more)
    c.check(m.h->nonconst == 0, "copying a const composite mutated its values");
  c.check(copy.deep() == (n ? 44 : 22), "constness propagates in the copy");
  c << "composite with " << n << " elements";
  c.nontrivial();
}
VP_SUITE(facts, 0) {
#if VP_POLY
  handle_facts<xyz::polymorphic<Probe>, Probe>(c, "polymorphic<Probe>");
  handle_facts<xyz::polymorphic<Abstract>, Abstract>(c, "polymorphic<Abstract>");
  handle_facts<xyz::polymorphic<Probe, SpyAlloc<Probe, C0>>, Probe>(c, "polymorphic spy");
#else
  handle_facts<xyz::indirect<int>, int>(c, "indirect<int>");
  handle_facts<xyz::indirect<Probe>, Probe>(c, "indirect<Probe>");
  handle_facts<xyz::indirect<std::string, SpyAlloc<std::string, C0>>, std::string>(c, "indirect spy");
  handle_facts<xyz::indirect<xyz::indirect<int>>, xyz::indirect<int>>(c, "indirect<indirect>");
#endif
}
