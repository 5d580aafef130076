// Owned types for the history checks.
#ifndef VP_PAYLOAD_HPP
#define VP_PAYLOAD_HPP
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <utility>

#include "ledger.hpp"

namespace vp {

enum : int { MOVED = -77777 };

// Value carried by an initializer list of ints.
inline int list_value(std::initializer_list<int> l) {
  unsigned v = 17u + static_cast<unsigned>(l.size());
  for (int x : l) v = v * 31u + static_cast<unsigned>(x);
  return static_cast<int>(v & 0xffffff);
}
inline int pair_value(int a, int b) { return (a * 131 + b) & 0xffffff; }
inline unsigned scramble(int v, unsigned salt) {
  unsigned x = static_cast<unsigned>(v) * 2654435761u + salt * 40503u;
  return x ^ (x >> 13);
}

// Payload flavours for indirect.
//  0 everything may throw   1 nothrow move   2 copy only, no move operations
//  3 over-aligned and with competing non-const / greedy copy operations
template <int K>
struct Pad {};
template <>
struct alignas(64) Pad<3> {
  unsigned char fill[64];
};

template <int K>
struct TrBase {
  static constexpr bool vp_tracked = true;
  int v;
  const void* self;
  unsigned check;
  Pad<K> pad;

  void set(int x) {
    v = x;
    check = scramble(x, K);
  }
  void init(int x, How how) {
    L.fault_point(false);
    set(x);
    self = this;
    L.born(this, sizeof(*this), K, how);
  }
  int get(const char* what) const {
    L.check_live(this, K, what);
    if (self != this) L.error(RES | VALUE, "owned object was relocated bytewise");
    if (check != scramble(v, K)) L.error(VALUE, "owned object is torn");
    return v;
  }
  void enter(const char* what) const { get(what); }
  void died() {
    L.died(this, K);
    self = nullptr;
    check = 0xDEADBEEF;
    v = -1;
  }
};

template <int K>
struct Tr : TrBase<K> {
  Tr() { this->init(0, H_DEF); }
  explicit Tr(int x) { this->init(x, H_VAL); }
  Tr(int a, int b) { this->init(pair_value(a, b), H_VAL2); }
  Tr(std::initializer_list<int> l) { this->init(list_value(l), H_ILIST); }
  Tr(const Tr& o) {
    o.enter("copy from");
    this->init(o.v, H_COPY);
  }
  Tr(Tr&& o) {
    o.enter("move from");
    this->init(o.v, H_MOVE);
    o.set(MOVED);
  }
  Tr& operator=(const Tr& o) {
    o.enter("copy-assign from");
    this->enter("copy-assign to");
    L.fault_point(false);
    this->set(o.v);
    L.assigned(this, AS_COPY);
    return *this;
  }
  Tr& operator=(Tr&& o) {
    o.enter("move-assign from");
    this->enter("move-assign to");
    L.fault_point(false);
    int x = o.v;
    o.set(MOVED);
    this->set(x);
    L.assigned(this, AS_MOVE);
    return *this;
  }
  Tr& operator=(int x) {
    this->enter("value-assign to");
    L.fault_point(false);
    this->set(x);
    L.assigned(this, AS_VAL);
    return *this;
  }
  ~Tr() { this->died(); }
};

template <>
struct Tr<1> : TrBase<1> {
  Tr() { init(0, H_DEF); }
  explicit Tr(int x) { init(x, H_VAL); }
  Tr(int a, int b) { init(pair_value(a, b), H_VAL2); }
  Tr(std::initializer_list<int> l) { init(list_value(l), H_ILIST); }
  Tr(const Tr& o) {
    o.enter("copy from");
    init(o.v, H_COPY);
  }
  Tr(Tr&& o) noexcept {
    o.enter("move from");
    set(o.v);
    self = this;
    L.born(this, sizeof(*this), 1, H_MOVE);
    o.set(MOVED);
  }
  Tr& operator=(const Tr& o) {
    o.enter("copy-assign from");
    enter("copy-assign to");
    L.fault_point(false);
    set(o.v);
    L.assigned(this, AS_COPY);
    return *this;
  }
  Tr& operator=(Tr&& o) noexcept {
    o.enter("move-assign from");
    enter("move-assign to");
    int x = o.v;
    o.set(MOVED);
    set(x);
    L.assigned(this, AS_MOVE);
    return *this;
  }
  Tr& operator=(int x) {
    enter("value-assign to");
    L.fault_point(false);
    set(x);
    L.assigned(this, AS_VAL);
    return *this;
  }
  ~Tr() { died(); }
};

template <>
struct Tr<2> : TrBase<2> {
  Tr() { init(0, H_DEF); }
  explicit Tr(int x) { init(x, H_VAL); }
  Tr(int a, int b) { init(pair_value(a, b), H_VAL2); }
  Tr(std::initializer_list<int> l) { init(list_value(l), H_ILIST); }
  Tr(const Tr& o) {
    o.enter("copy from");
    init(o.v, H_COPY);
  }
  Tr& operator=(const Tr& o) {
    o.enter("copy-assign from");
    enter("copy-assign to");
    L.fault_point(false);
    set(o.v);
    L.assigned(this, AS_COPY);
    return *this;
  }
  Tr& operator=(int x) {
    enter("value-assign to");
    L.fault_point(false);
    set(x);
    L.assigned(this, AS_VAL);
    return *this;
  }
  ~Tr() { died(); }
};

template <>
struct Tr<3> : TrBase<3> {
  Tr() { init(0, H_DEF); }
  explicit Tr(int x) { init(x, H_VAL); }
  Tr(int a, int b) { init(pair_value(a, b), H_VAL2); }
  Tr(std::initializer_list<int> l) { init(list_value(l), H_ILIST); }
  Tr(const Tr& o) {
    o.enter("copy from");
    init(o.v, H_COPY);
  }
  // Preferred for a non-const lvalue; a copy must never select it.
  Tr(Tr& o) {
    o.enter("non-const copy from");
    init(o.v, H_NCCOPY);
    o.set(o.v + 1);
  }
  Tr(Tr&& o) {
    o.enter("move from");
    init(o.v, H_MOVE);
    o.set(MOVED);
  }
  Tr& operator=(const Tr& o) {
    o.enter("copy-assign from");
    enter("copy-assign to");
    L.fault_point(false);
    set(o.v);
    L.assigned(this, AS_COPY);
    return *this;
  }
  Tr& operator=(Tr& o) {
    o.enter("non-const assign from");
    enter("non-const assign to");
    L.fault_point(false);
    set(o.v);
    o.set(o.v + 1);
    L.assigned(this, AS_NC);
    return *this;
  }
  Tr& operator=(Tr&& o) {
    o.enter("move-assign from");
    enter("move-assign to");
    L.fault_point(false);
    int x = o.v;
    o.set(MOVED);
    set(x);
    L.assigned(this, AS_MOVE);
    return *this;
  }
  Tr& operator=(int x) {
    enter("value-assign to");
    L.fault_point(false);
    set(x);
    L.assigned(this, AS_VAL);
    return *this;
  }
  ~Tr() { died(); }
};

template <int K>
bool operator==(const Tr<K>& a, const Tr<K>& b) {
  return a.get("==") == b.get("==");
}
template <int K>
bool operator!=(const Tr<K>& a, const Tr<K>& b) {
  return a.get("!=") != b.get("!=");
}
template <int K>
bool operator<(const Tr<K>& a, const Tr<K>& b) {
  return a.get("<") < b.get("<");
}
template <int K>
bool operator>(const Tr<K>& a, const Tr<K>& b) {
  return a.get(">") > b.get(">");
}
template <int K>
bool operator<=(const Tr<K>& a, const Tr<K>& b) {
  return a.get("<=") <= b.get("<=");
}
template <int K>
bool operator>=(const Tr<K>& a, const Tr<K>& b) {
  return a.get(">=") >= b.get(">=");
}
template <int K>
bool operator==(const Tr<K>& a, int b) {
  return a.get("==") == b;
}

// ---------------------------------------------------------------------------
// A hierarchy for polymorphic. The base has a non-virtual destructor.

struct PB {
  static constexpr bool vp_tracked = true;
  virtual int kind() const = 0;
  virtual const void* whole() const = 0;  // address of the most derived object
  virtual int get(const char* what) const = 0;
  virtual void set(int v) = 0;
  int base_v;

  // Access overloads reveal the constness of the access path.
  int access() { return 1; }
  int access() const { return 2; }

 protected:
  PB() : base_v(0) { ++L.base_live; }
  PB(const PB& o) : base_v(o.base_v) { ++L.base_live; }
  PB& operator=(const PB&) = default;
  ~PB() {
    --L.base_live;
    base_v = -1;
  }
};

// All derived types share construction/bookkeeping through this mixin.
// NoThrowMove selects a nothrow move constructor; HasMove == false means only
// a copy constructor exists.
template <class D, int K, class Data>
struct PImpl {};

struct Extra0 {
  void put(unsigned) {}
  bool ok(unsigned) const { return true; }
};
template <int N>
struct ExtraN {
  unsigned w[N];
  void put(unsigned s) {
    for (int i = 0; i < N; ++i) w[i] = s + static_cast<unsigned>(i) * 7u;
  }
  bool ok(unsigned s) const {
    for (int i = 0; i < N; ++i)
      if (w[i] != s + static_cast<unsigned>(i) * 7u) return false;
    return true;
  }
};
struct alignas(128) ExtraA {
  unsigned w[3];
  void put(unsigned s) { w[0] = w[1] = w[2] = s; }
  bool ok(unsigned s) const { return w[0] == s && w[1] == s && w[2] == s; }
};

struct Filler {
  long f[3];
  virtual long filler() const { return f[0]; }
  Filler() : f{101, 102, 103} {}

 protected:
  ~Filler() { f[0] = -1; }
};
struct VB : virtual PB {
  int vb = 5;

 protected:
  ~VB() = default;
};
struct VC : virtual PB {
  int vc = 6;

 protected:
  ~VC() = default;
};

#define VP_DERIVED(NAME, K, BASES, EXTRA, MOVEPART)                          \
  struct NAME BASES {                                                        \
    static constexpr int K_ = K;                                             \
    EXTRA x;                                                                 \
    const void* self;                                                        \
    int v;                                                                   \
    void put(int n) {                                                        \
      v = n;                                                                 \
      this->base_v = n;                                                      \
      x.put(scramble(n, K));                                                 \
    }                                                                        \
    void init(int n, How how, bool may_throw = true) {                       \
      if (may_throw) L.fault_point(false);                                   \
      put(n);                                                                \
      self = this;                                                           \
      L.born(this, sizeof(*this), K, how);                                   \
    }                                                                        \
    NAME() { init(0, H_DEF); }                                               \
    explicit NAME(int n) { init(n, H_VAL); }                                 \
    NAME(int a, int b) { init(pair_value(a, b), H_VAL2); }                   \
    NAME(std::initializer_list<int> l) { init(list_value(l), H_ILIST); }     \
    NAME(const NAME& o) : PB(o) {                                            \
      o.get("copy from");                                                    \
      init(o.v, H_COPY);                                                     \
    }                                                                        \
    MOVEPART                                                                 \
    ~NAME() {                                                                \
      L.died(this, K);                                                       \
      self = nullptr;                                                        \
      v = -1;                                                                \
    }                                                                        \
    int kind() const override { return K; }                                  \
    const void* whole() const override { return this; }                      \
    int get(const char* what) const override {                               \
      L.check_live(this, K, what);                                           \
      if (self != this)                                                      \
        L.error(RES | VALUE, "owned object was relocated bytewise");         \
      if (!x.ok(scramble(v, K)) || this->base_v != v)                        \
        L.error(VALUE, "owned object is torn or sliced");                    \
      return v;                                                              \
    }                                                                        \
    void set(int n) override { put(n); }                                     \
  };

#define VP_MOVE_THROWING(NAME)   \
  NAME(NAME&& o) : PB(o) {       \
    o.get("move from");          \
    init(o.v, H_MOVE);           \
    o.put(MOVED);                \
  }
#define VP_MOVE_NOTHROW(NAME)       \
  NAME(NAME&& o) noexcept : PB(o) { \
    o.get("move from");             \
    init(o.v, H_MOVE, false);       \
    o.put(MOVED);                   \
  }
#define VP_NONCONST(NAME)           \
  NAME(NAME& o) : PB(o) {           \
    o.get("non-const copy from");   \
    init(o.v, H_NCCOPY);            \
    o.put(o.v + 1);                 \
  }                                 \
  VP_MOVE_THROWING(NAME)
#define VP_EMPTY

#define VP_B0 : PB
#define VP_B1 : Filler, PB
#define VP_B2 : VB, VC
VP_DERIVED(D0, 10, VP_B0, Extra0, VP_MOVE_THROWING(D0))
VP_DERIVED(D1, 11, VP_B0, ExtraN<5>, VP_MOVE_NOTHROW(D1))
VP_DERIVED(D2, 12, VP_B1, ExtraN<2>, VP_MOVE_THROWING(D2))
VP_DERIVED(D3, 13, VP_B2, ExtraN<3>, VP_EMPTY)
VP_DERIVED(D4, 14, VP_B0, ExtraN<60>, VP_NONCONST(D4))
VP_DERIVED(D5, 15, VP_B1, ExtraA, VP_MOVE_NOTHROW(D5))
enum { NKIND = 6 };

}  // namespace vp
#endif
