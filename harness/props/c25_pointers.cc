// C25: handles work with allocators whose pointers are class types: a self-relative
// one, one that checks every use against the live blocks, and a minimal one.
#include <algorithm>
#include <cstdlib>
#include <iterator>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include "hdr.hpp"
#include "prop.hpp"

namespace vp {
namespace {

// -- blocks -----------------------------------------------------------------
struct Blk {
  std::uintptr_t at;
  std::size_t bytes;
  int id, arena;
  const void* type;
};
std::vector<Blk> blks;
int next_id = 1;
std::string trouble;
void complain(const char* what) {
  if (trouble.empty()) trouble = what;
}
const Blk* find_block(const void* p) {
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  for (const Blk& b : blks)
    if (a >= b.at && a < b.at + b.bytes) return &b;
  return nullptr;
}
// Faults: the n-th allocation or construction of an owned object throws.
int fuse = 0;
struct Boom {};
void spark() {
  if (fuse > 0 && --fuse == 0) throw Boom{};
}

// -- pointers ---------------------------------------------------------------
template <class T>
using ref_t = typename std::add_lvalue_reference<T>::type;
template <class T>
using bare_t = typename std::remove_cv<T>::type;
struct FromRaw {};

#define VP_POINTER_TYPES(P)                                  \
  using element_type = T;                                    \
  using value_type = bare_t<T>;                              \
  using difference_type = std::ptrdiff_t;                    \
  using reference = ref_t<T>;                                \
  using pointer = P;                                         \
  using iterator_category = std::random_access_iterator_tag; \
  template <class U>                                         \
  using rebind = P<U>;

// The rest of the pointer and iterator interface, from get() and the private constructor.
#define VP_POINTER_REST(P)                                                                \
  template <class U = T, class = typename std::enable_if<!std::is_void<U>::value>::type>  \
  static P pointer_to(U& r) {                                                             \
    return P(FromRaw{}, std::addressof(r));                                               \
  }                                                                                       \
  ref_t<T> operator*() const { return *get(); }                                           \
  T* operator->() const { return get(); }                                                 \
  ref_t<T> operator[](std::ptrdiff_t i) const { return get()[i]; }                        \
  explicit operator bool() const { return !null(); }                                      \
  P& operator++() { return *this = P(FromRaw{}, get() + 1); }                             \
  P& operator--() { return *this = P(FromRaw{}, get() - 1); }                             \
  P operator++(int) {                                                                     \
    P r(*this);                                                                           \
    ++*this;                                                                              \
    return r;                                                                             \
  }                                                                                       \
  P operator--(int) {                                                                     \
    P r(*this);                                                                           \
    --*this;                                                                              \
    return r;                                                                             \
  }                                                                                       \
  P& operator+=(std::ptrdiff_t n) { return *this = P(FromRaw{}, get() + n); }             \
  P& operator-=(std::ptrdiff_t n) { return *this = P(FromRaw{}, get() - n); }             \
  friend P operator+(P a, std::ptrdiff_t n) { return a += n; }                            \
  friend P operator+(std::ptrdiff_t n, P a) { return a += n; }                            \
  friend P operator-(P a, std::ptrdiff_t n) { return a -= n; }                            \
  friend std::ptrdiff_t operator-(P a, P b) { return a.get() - b.get(); }                 \
  friend bool operator==(P a, P b) { return a.raw() == b.raw(); }                         \
  friend bool operator!=(P a, P b) { return a.raw() != b.raw(); }                         \
  friend bool operator<(P a, P b) { return a.raw() < b.raw(); }                           \
  friend bool operator>(P a, P b) { return a.raw() > b.raw(); }                           \
  friend bool operator<=(P a, P b) { return a.raw() <= b.raw(); }                         \
  friend bool operator>=(P a, P b) { return a.raw() >= b.raw(); }                         \
  friend bool operator==(P a, std::nullptr_t) { return a.null(); }                        \
  friend bool operator!=(P a, std::nullptr_t) { return !a.null(); }                       \
  friend bool operator==(std::nullptr_t, P a) { return a.null(); }                        \
  friend bool operator!=(std::nullptr_t, P a) { return !a.null(); }

template <class U, class T>
using conv_t = typename std::enable_if<std::is_convertible<U*, T*>::value>::type;

// Self-relative: holds the distance from itself; the bits mean nothing elsewhere.
template <class T>
class Off {
  std::ptrdiff_t d_ = 1;  // 1: null
  void set(const volatile void* p) {
    d_ = p ? reinterpret_cast<std::intptr_t>(p) - reinterpret_cast<std::intptr_t>(this) : 1;
  }

 public:
  VP_POINTER_TYPES(Off)
  Off() = default;
  Off(std::nullptr_t) {}
  Off(FromRaw, T* p) { set(p); }
  Off(const Off& o) { set(o.raw()); }
  template <class U, class = conv_t<U, T>>
  Off(const Off<U>& o) {
    set(static_cast<T*>(o.raw()));
  }
  // From a pointer to void back again.
  template <class U, class = typename std::enable_if<std::is_void<U>::value &&
                                                     !std::is_void<T>::value>::type,
            class = void>
  explicit Off(const Off<U>& o) {
    set(o.raw());
  }
  Off& operator=(const Off& o) {
    set(o.raw());
    return *this;
  }
  bool null() const { return d_ == 1; }
  T* raw() const {
    if (null()) return nullptr;
    // Hidden from the optimiser, which takes the sum for a pointer into *this.
    std::intptr_t at = reinterpret_cast<std::intptr_t>(this) + d_;
    __asm__ volatile("" : "+r"(at));
    return reinterpret_cast<T*>(at);
  }
  T* get() const { return raw(); }
  VP_POINTER_REST(Off)
};

// Knows its block, and every use is checked against the blocks alive.
template <class T>
class Chk {
  T* p_;  // value-initialisation makes it null, default-initialisation leaves it unset
  int id_;
  template <class U>
  friend class Chk;

 public:
  VP_POINTER_TYPES(Chk)
  Chk() = default;
  Chk(std::nullptr_t) : p_(nullptr), id_(0) {}
  Chk(FromRaw, T* p) : p_(p), id_(0) {
    const Blk* b = find_block(const_cast<const bare_t<T>*>(p));
    if (b)
      id_ = b->id;
    else
      complain("a pointer to something outside every block was made");
  }
  template <class U, class = conv_t<U, T>>
  Chk(const Chk<U>& o) : p_(o.p_), id_(o.id_) {}
  template <class U, class = typename std::enable_if<std::is_void<U>::value &&
                                                     !std::is_void<T>::value>::type,
            class = void>
  explicit Chk(const Chk<U>& o) : p_(static_cast<T*>(o.p_)), id_(o.id_) {}
  bool null() const { return p_ == nullptr; }
  T* raw() const { return p_; }
  T* get() const {
    const Blk* b = p_ ? find_block(const_cast<const bare_t<T>*>(p_)) : nullptr;
    if (!b || b->id != id_) {
      complain("a pointer was used that does not point into its live block");
      std::abort();
    }
    return p_;
  }
  VP_POINTER_REST(Chk)
};

// No more than is required, and inconvenient about the rest.
template <class T>
class Min {
  T* p_ = nullptr;

 public:
  VP_POINTER_TYPES(Min)
  Min() = default;
  Min(std::nullptr_t) {}
  explicit Min(FromRaw, T* p) : p_(p) {}
  template <class U, class = conv_t<U, T>>
  Min(const Min<U>& o) : p_(o.raw()) {}
  template <class U, class = typename std::enable_if<std::is_void<U>::value &&
                                                     !std::is_void<T>::value>::type,
            class = void>
  explicit Min(const Min<U>& o) : p_(static_cast<T*>(o.raw())) {}
  bool null() const { return !p_; }
  T* raw() const { return p_; }
  T* get() const { return p_; }
  template <class X>
  void operator,(X&&) const = delete;
  void operator&() const = delete;
  void operator!() const = delete;  // use the conversion to bool or a comparison
  VP_POINTER_REST(Min)
};

// -- the allocator ----------------------------------------------------------
template <class T>
const void* tag_of() {
  static char c;
  return &c;
}
template <class T, template <class> class P, bool Prop>
struct Al {
  using value_type = T;
  using pointer = P<T>;
  using const_pointer = P<const T>;
  using void_pointer = P<void>;
  using const_void_pointer = P<const void>;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, Prop>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, Prop>;
  using propagate_on_container_swap = std::integral_constant<bool, Prop>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = Al<U, P, Prop>;
  };
  int arena;
  explicit Al(int a = 0) : arena(a) {}
  template <class U>
  Al(const Al<U, P, Prop>& o) : arena(o.arena) {}
  pointer allocate(std::size_t n) {
    spark();
    const std::size_t al = alignof(T) < 16 ? 16 : alignof(T);
    const std::size_t bytes = (n * sizeof(T) + al - 1) / al * al;
    void* p = ::aligned_alloc(al, bytes);
    if (!p) throw std::bad_alloc();
    if (n != 1) complain("allocate called with n != 1");
    blks.push_back({reinterpret_cast<std::uintptr_t>(p), bytes, next_id++, arena, tag_of<T>()});
    return pointer(FromRaw{}, static_cast<T*>(p));
  }
  void deallocate(pointer p, std::size_t n) {
    T* r = p.raw();
    for (std::size_t i = 0; i < blks.size(); ++i)
      if (blks[i].at == reinterpret_cast<std::uintptr_t>(r)) {
        if (blks[i].arena != arena) complain("deallocate through an unequal allocator");
        if (blks[i].type != tag_of<T>() || n != 1)
          complain("deallocate with another type or size than allocated");
        blks.erase(blks.begin() + static_cast<std::ptrdiff_t>(i));
        std::free(r);
        return;
      }
    complain("deallocate of a pointer that allocate did not return");
  }
  friend bool operator==(const Al& a, const Al& b) { return a.arena == b.arena; }
  friend bool operator!=(const Al& a, const Al& b) { return a.arena != b.arena; }
};

// -- owned types ------------------------------------------------------------
long live = 0;
struct Val {
  int v;
  std::string s;
  const Val* self;
  explicit Val(int x = 7) : v((spark(), x)), s(static_cast<std::size_t>(x % 40), 'x'), self(this) { begin(); }
  Val(const Val& o) : v((spark(), o.v)), s(o.s), self(this) { begin(); }
  Val(Val&& o) : v((spark(), o.v)), s(std::move(o.s)), self(this) {
    begin();
    o.v = -5;
  }
  Val& operator=(const Val& o) {
    v = o.v;
    s = o.s;
    return *this;
  }
  Val& operator=(Val&& o) {
    v = o.v;
    s = std::move(o.s);
    if (&o != this) o.v = -5;
    return *this;
  }
  virtual ~Val() {
    if (self != this) complain("an object was moved bit by bit");
    --live;
    v = -9;
  }
  virtual int kind() const { return 0; }
  int value() const {
    if (self != this || (v >= 0 && s.size() != static_cast<std::size_t>(v % 40)))
      complain("an owned object is damaged");
    return v;
  }
  void put(int x) {
    v = x;
    s.assign(static_cast<std::size_t>(x % 40), 'x');
  }
  friend bool operator==(const Val& a, const Val& b) { return a.v == b.v; }
  friend bool operator!=(const Val& a, const Val& b) { return a.v != b.v; }
  friend bool operator<(const Val& a, const Val& b) { return a.v < b.v; }
  friend bool operator>(const Val& a, const Val& b) { return a.v > b.v; }
  friend bool operator<=(const Val& a, const Val& b) { return a.v <= b.v; }
  friend bool operator>=(const Val& a, const Val& b) { return a.v >= b.v; }

 private:
  void begin() { ++live; }
};
struct Wide : Val {  // derived, over-aligned
  alignas(64) char pad[3] = {1, 2, 3};
  explicit Wide(int x = 7) : Val(x) {}
  int kind() const override { return 1; }
};
struct Pad {
  long n[3] = {1, 2, 3};
  virtual ~Pad() = default;
};
struct Second : Pad, Val {  // the base is not at the start
  explicit Second(int x = 7) : Val(x) {}
  int kind() const override { return 2; }
};
struct Virt : virtual Val {
  int extra = 3;
  explicit Virt(int x = 7) : Val(x) {}
  int kind() const override { return 3; }
};
#if VP_POLY
const int kinds = 4;
template <class T, class A>
using Handle = xyz::polymorphic<T, A>;
#else
const int kinds = 1;
template <class T, class A>
using Handle = xyz::indirect<T, A>;
#endif

struct M {
  int v, kind, arena;
  bool operator==(const M& o) const {
    return v == o.v && kind == o.kind && arena == o.arena;
  }
};

template <class H>
M look(const H& h) {
  M m{-1, 0, h.get_allocator().arena};
  if (h.valueless_after_move()) return m;
  m.v = (*h).value();
  m.kind = (*h).kind();
  const typename H::const_pointer p = h.operator->();
  H& mut = const_cast<H&>(h);
  const typename H::pointer q = mut.operator->();
  if (p == nullptr || !(q != nullptr) || std::addressof(*p) != std::addressof(*h) ||
      std::addressof(*q) != std::addressof(*mut) || std::addressof(*q) != std::addressof(*p) ||
      h->value() != m.v)
    complain("the ways to reach the owned object disagree");
  const Blk* b = find_block(std::addressof(*h));
  if (!b)
    complain("the owned object is not in a block of the allocator");
  else if (b->arena != m.arena)
    complain("the owned object is in a block of another allocator");
  return m;
}

template <class H>
H make(int kind, int v, int arena) {
  using A = typename H::allocator_type;
#if VP_POLY
  switch (kind) {
    case 1: return H(std::allocator_arg, A(arena), VP_IN_PLACE_TYPE(Wide), v);
    case 2: return H(std::allocator_arg, A(arena), VP_IN_PLACE_TYPE(Second), v);
    case 3: return H(std::allocator_arg, A(arena), VP_IN_PLACE_TYPE(Virt), v);
    default: return H(std::allocator_arg, A(arena), VP_IN_PLACE_TYPE(Val), v);
  }
#else
  (void)kind;
  return H(std::allocator_arg, A(arena), VP_IN_PLACE, v);
#endif
}

struct Fresh {
  Fresh() {
    for (const Blk& b : blks) std::free(reinterpret_cast<void*>(b.at));
    blks.clear();
    trouble.clear();
    live = 0;
    fuse = 0;
  }
};

template <template <class> class P, bool Prop>
void histories(Ctx& c) {
  using A = Al<Val, P, Prop>;
  using H = Handle<Val, A>;
  static_assert(std::is_same<typename H::pointer, P<Val>>::value, "pointer");
  static_assert(std::is_same<typename H::const_pointer, P<const Val>>::value, "const_pointer");
  static_assert(std::is_same<decltype(std::declval<H&>().operator->()), P<Val>>::value, "->");
  static_assert(
      std::is_same<decltype(std::declval<const H&>().operator->()), P<const Val>>::value, "->");
  Fresh fresh;
  {
    const int n = 3;
    std::unique_ptr<H> h[n];
    M m[n];
    for (int i = 0; i < n; ++i) {
      m[i] = {c.below(100), c.below(kinds), c.below(2)};
      h[i].reset(new H(make<H>(m[i].kind, m[i].v, m[i].arena)));
    }
    const int steps = c.range(1, 24);
    c << (Prop ? "propagating, " : "not propagating, ") << steps << " steps:";
    int threw = 0, unequal = 0, valueless = 0;
    for (int k = 0; k < steps && trouble.empty() && !c.failed; ++k) {
      const int op = c.below(13), a = c.below(n), b = c.below(n), v = c.below(100),
                ar = c.below(2), kind = c.below(kinds);
      const bool faulty = c.chance(20);
      const int at = c.range(1, 3);
      c << " " << op << (faulty ? "!" : "") << "(" << a << "," << b << ")";
      M w[n];
      std::copy(m, m + n, w);  // the state wanted
      const bool eq = m[a].arena == m[b].arena;
      if (!eq) ++unequal;
      if (m[a].v < 0 || m[b].v < 0) ++valueless;
      const void* addr = m[b].v < 0 ? nullptr : std::addressof(**h[b]);
      bool transfer = false;
      std::unique_ptr<H> made;
      H *ha = h[a].get(), *hb = h[b].get();
      if (faulty) fuse = at;
      try {
        switch (op) {
          case 0:
            made.reset(new H(make<H>(kind, v, ar)));
            w[a] = {v, kind, ar};
            break;
          case 1:
            made.reset(new H(std::allocator_arg, A(ar)));
            w[a] = {7, 0, ar};
            break;
          case 2:
            made.reset(new H(*static_cast<const H*>(hb)));
            w[a] = m[b];
            break;
          case 3:
            made.reset(new H(std::allocator_arg, A(ar), *static_cast<const H*>(hb)));
            w[a] = m[b];
            w[a].arena = ar;
            break;
          case 4:
            if (a == b) break;
            made.reset(new H(std::move(*hb)));
            w[a] = m[b];
            w[b] = {-1, 0, m[b].arena};
            transfer = true;
            break;
          case 5:
            if (a == b) break;
            made.reset(new H(std::allocator_arg, A(m[b].arena), std::move(*hb)));
            w[a] = m[b];
            w[b] = {-1, 0, m[b].arena};
            transfer = true;
            break;
          case 6:
            *ha = *static_cast<const H*>(hb);
            w[a] = m[b];
            if (!Prop) w[a].arena = m[a].arena;
            break;
          case 7:
            if (a == b || !eq) break;
            *ha = std::move(*hb);
            w[a] = m[b];
            w[b] = {-1, 0, m[b].arena};
            transfer = true;
            break;
          case 8:
            if (!Prop && !eq) break;
            if (v % 2) {
              using std::swap;
              swap(*ha, *hb);
            } else {
              ha->swap(*hb);
            }
            std::swap(w[a], w[b]);
            transfer = a != b;
            break;
          case 9:
            if (m[a].v < 0) break;
            (**ha).put(v);
            w[a].v = v;
            break;
          case 10:
            if (m[a].v < 0) break;
            (*ha)->put(v);
            w[a].v = v;
            break;
          case 11:
#if VP_POLY
            *ha = make<H>(kind, v, m[a].arena);
            w[a] = {v, kind, m[a].arena};
#else
            if (v % 2) {
              *ha = Val(v);
            } else {
              const Val x(v);
              *ha = x;
            }
            w[a].v = v;
#endif
            break;
          default:  // a move that may have to rebuild: the source's state is its own business
            if (a == b) break;
            if (Prop) fuse = 0;  // declared noexcept
            *ha = std::move(*hb);
            w[a] = m[b];
            if (!Prop) w[a].arena = m[a].arena;
            if (eq || m[b].v < 0) {
              w[b] = {-1, 0, m[b].arena};
            } else {
              fuse = 0;
              *hb = make<H>(kind, v, m[b].arena);
              w[b] = {v, kind, m[b].arena};
            }
            break;
        }
        fuse = 0;
        if (made) h[a] = std::move(made);
        std::copy(w, w + n, m);
        if (transfer && addr) {
          c.check(std::addressof(**h[a]) == addr, "the owned object did not stay where it was");
        }
      } catch (const Boom&) {
        fuse = 0;
        ++threw;
        made.reset();
      }
      for (int i = 0; i < n && !c.failed; ++i) {
        const M got = look(*h[i]);
        c.check(got == m[i], "state of a handle", [&](std::ostream& o) {
          o << "after step " << k << " (operation " << op << ") handle " << i << " has value "
            << got.v << " kind " << got.kind << " arena " << got.arena << ", expected " << m[i].v
            << " kind " << m[i].kind << " arena " << m[i].arena;
        });
#if !VP_POLY
        for (int j = 0; j < n; ++j) {
          c.check((*h[i] == *h[j]) == (m[i].v == m[j].v) &&
                      (*h[i] < *h[j]) == (m[i].v < m[j].v) &&
                      (*h[i] >= *h[j]) == (m[i].v >= m[j].v),
                  "comparison of handles");
          if (m[j].v >= 0)
            c.check((*h[i] == **h[j]) == (m[i].v == m[j].v) &&
                        (*h[i] < **h[j]) == (m[i].v < m[j].v),
                    "comparison with a value");
        }
#endif
      }
      long want = 0;
      for (int i = 0; i < n; ++i) want += m[i].v >= 0;
      c.check(live == want && static_cast<long>(blks.size()) == want,
              "number of owned objects and blocks", [&](std::ostream& o) {
                o << live << " objects, " << blks.size() << " blocks, expected " << want
                  << " after operation " << op;
              });
    }
    if (threw) c.cls("an exception was thrown");
    if (unequal) c.cls("allocators differed");
    if (valueless) c.cls("valueless handle used");
    if ((threw || unequal || valueless) && steps > 3) c.nontrivial();
  }
  c.check(live == 0 && blks.empty(), "everything is released at the end");
  c.check(trouble.empty(), trouble.empty() ? "books" : trouble.c_str());
  Fresh again;
}
VP_SUITE(histories, 6) {
  switch (c.below(6)) {
    case 0: c << "self-relative "; return histories<Off, false>(c);
    case 1: c << "self-relative "; return histories<Off, true>(c);
    case 2: c << "checked "; return histories<Chk, false>(c);
    case 3: c << "checked "; return histories<Chk, true>(c);
    case 4: c << "minimal "; return histories<Min, false>(c);
    default: c << "minimal "; return histories<Min, true>(c);
  }
}

// Handles that move around in a vector: self-relative pointers must be rebuilt.
template <template <class> class P, bool Prop>
void vectors(Ctx& c) {
  using H = Handle<Val, Al<Val, P, Prop>>;
  Fresh fresh;
  {
    std::vector<H> h;
    std::vector<M> m;
    const int steps = c.range(1, 30);
    c << "vector, " << steps << " steps:";
    for (int k = 0; k < steps && !c.failed && trouble.empty(); ++k) {
      const int op = c.below(7), v = c.below(100), kind = c.below(kinds);
      const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(m.size());
      const std::ptrdiff_t i = c.below(30) % (n + 1), j = c.below(30) % (n + 1);
      c << " " << op;
      switch (op) {
        case 0:
        case 1:
          h.push_back(make<H>(kind, v, 0));
          m.push_back({v, kind, 0});
          break;
        case 2:
          h.insert(h.begin() + i, make<H>(kind, v, 0));
          m.insert(m.begin() + i, {v, kind, 0});
          break;
        case 3:
          if (i == n) break;
          h.erase(h.begin() + i);
          m.erase(m.begin() + i);
          break;
        case 4:
          std::rotate(h.begin() + std::min(i, j), h.begin() + std::max(i, j), h.end());
          std::rotate(m.begin() + std::min(i, j), m.begin() + std::max(i, j), m.end());
          break;
        case 5:
          std::stable_sort(h.begin(), h.end(),
                           [](const H& a, const H& b) { return a->value() < b->value(); });
          std::stable_sort(m.begin(), m.end(), [](const M& a, const M& b) { return a.v < b.v; });
          break;
        default: {
          std::vector<H> t(h);
          h.swap(t);
          t = h;
          h = std::move(t);
          break;
        }
      }
      c.check(h.size() == m.size(), "size");
      for (std::size_t q = 0; q < m.size() && !c.failed; ++q)
        c.check(look(h[q]) == m[q], "an element of a vector of handles");
    }
    if (m.size() > 3) c.nontrivial(), c.cls("vector");
  }
  c.check(live == 0 && blks.empty(), "everything is released at the end");
  c.check(trouble.empty(), trouble.empty() ? "books" : trouble.c_str());
  Fresh again;
}
VP_SUITE(vectors, 2) {
  switch (c.below(4)) {
    case 0: return vectors<Off, false>(c);
    case 1: return vectors<Off, true>(c);
    case 2: return vectors<Chk, true>(c);
    default: return vectors<Min, false>(c);
  }
}

// Recursive types: the pointer types are named while the owned type is incomplete.
template <template <class> class P>
struct Node {
  int v;
  std::vector<Handle<Node, Al<Node, P, true>>> kids;
  explicit Node(int x = 0) : v(x) { ++live; }
  Node(const Node& o) : v(o.v), kids(o.kids) { ++live; }
  Node(Node&& o) : v(o.v), kids(std::move(o.kids)) { ++live; }
  Node& operator=(const Node&) = default;
  Node& operator=(Node&&) = default;
  ~Node() { --live; }
};
struct Plain {
  int v = 0;
  std::vector<Plain> kids;
};
template <template <class> class P>
void grow(Ctx& c, Node<P>& n, Plain& p, int depth) {
  using H = Handle<Node<P>, Al<Node<P>, P, true>>;
  const int k = c.below(4);
  for (int i = 0; i < k; ++i) {
    const int v = c.below(100), ar = c.below(2);
#if VP_POLY
    n.kids.push_back(
        H(std::allocator_arg, Al<Node<P>, P, true>(ar), VP_IN_PLACE_TYPE(Node<P>), v));
#else
    n.kids.push_back(H(std::allocator_arg, Al<Node<P>, P, true>(ar), VP_IN_PLACE, v));
#endif
    Plain q;
    q.v = v;
    p.kids.push_back(q);
    if (depth > 0) grow(c, *n.kids.back(), p.kids.back(), depth - 1);
  }
}
template <template <class> class P>
bool same(const Node<P>& n, const Plain& p) {
  if (n.v != p.v || n.kids.size() != p.kids.size()) return false;
  for (std::size_t i = 0; i < p.kids.size(); ++i)
    if (n.kids[i].valueless_after_move() || !same(*n.kids[i], p.kids[i])) return false;
  return true;
}
template <template <class> class P>
void trees(Ctx& c) {
  Fresh fresh;
  {
    Node<P> n;
    Plain p;
    grow(c, n, p, 3);
    Node<P> a(n);
    c.check(same(a, p) && same(n, p), "copy of a tree");
    Plain q = p;
    if (!p.kids.empty()) {
      const std::size_t i = static_cast<std::size_t>(c.below(static_cast<int>(p.kids.size())));
      a.kids[i]->v = 1000;
      q.kids[i].v = 1000;
      c.check(same(a, q) && same(n, p), "change in a copied tree");
      // A subtree takes the place of the tree it is in.
      if (!q.kids[i].kids.empty()) {
        Plain sub = q.kids[i].kids[0];
        const bool move = c.chance(50);
        c.cls(move ? "moved from a nested handle" : "copied from a nested handle");
        if (move) {
          a.kids[i] = std::move(a.kids[i]->kids[0]);
        } else {
          auto t = a.kids[i]->kids[0];
          a.kids[i] = t;
        }
        q.kids[i] = sub;
        c.check(same(a, q) && same(n, p), "a subtree took the place of its tree");
        c.nontrivial();
      }
    }
    n = std::move(a);
    c.check(same(n, q), "moved tree");
    c << "tree of " << live << " nodes";
  }
  c.check(live == 0 && blks.empty(), "everything is released at the end");
  c.check(trouble.empty(), trouble.empty() ? "books" : trouble.c_str());
  Fresh again;
}
VP_SUITE(trees, 2) {
  switch (c.below(3)) {
    case 0: return trees<Off>(c);
    case 1: return trees<Chk>(c);
    default: return trees<Min>(c);
  }
}

}  // namespace
}  // namespace vp
