// Ordinary owned types: they keep no books, and cover what code could tell
// apart with type traits (size, triviality, assignability, finality, partial
// order, coarse equality, move-only).
#ifndef VP_PLAIN_HPP
#define VP_PLAIN_HPP
#include <cmath>
#include <cstdlib>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include "alloc.hpp"

namespace vp {

template <int K>
struct Plain;

#define VP_ORDER(T)                                            \
  friend bool operator==(const T& a, const T& b) { return a.key() == b.key(); } \
  friend bool operator!=(const T& a, const T& b) { return a.key() != b.key(); } \
  friend bool operator<(const T& a, const T& b) { return a.key() < b.key(); }   \
  friend bool operator>(const T& a, const T& b) { return a.key() > b.key(); }   \
  friend bool operator<=(const T& a, const T& b) { return a.key() <= b.key(); } \
  friend bool operator>=(const T& a, const T& b) { return a.key() >= b.key(); }

struct PlainInt {
  template <class T>
  static int get(const T& t) { return static_cast<int>(t); }
};
template <>
struct Plain<20> : PlainInt {
  using T = int;
  static T make(int v) { return v; }
};
template <>
struct Plain<21> {  // -3 stands for NaN
  using T = double;
  static T make(int v) { return v == -3 ? std::numeric_limits<double>::quiet_NaN() : v; }
  static int get(const T& t) { return std::isnan(t) ? -3 : static_cast<int>(t); }
};
// Equality and order look at a part of the value.
struct Rec {
  int key_ = 0, payload = 0;
  int key() const { return key_; }
  VP_ORDER(Rec)
};
template <>
struct Plain<22> {
  using T = Rec;
  static T make(int v) {
    T r;
    r.key_ = v % 3;
    r.payload = v;
    return r;
  }
  static int get(const T& t) { return t.key_ == t.payload % 3 ? t.payload : -5; }
};
// A string that is empty exactly when it was moved from.
struct Str {
  std::string s;
  Str() : Str(0) {}
  explicit Str(int v) : s((v % 2 ? "" : "a string too long to be kept in place ") + std::to_string(v)) {}
  int value() const {
    if (s.empty()) return -1;
    const std::string::size_type at = s.rfind(' ');
    const int v = std::atoi(s.c_str() + (at == std::string::npos ? 0 : at + 1));
    return s == Str(v).s ? v : -7;
  }
  int key() const { return value(); }
  VP_ORDER(Str)
};
template <>
struct Plain<23> {
  using T = Str;
  static T make(int v) { return T(v); }
  static int get(const T& t) { return t.value(); }
};
// Neither assignable nor trivial to replace.
struct Frozen {
  const int v;
  Frozen() : v(0) {}
  explicit Frozen(int n) : v(n) {}
  int key() const { return v; }
  VP_ORDER(Frozen)
};
template <>
struct Plain<24> {
  using T = Frozen;
  static T make(int v) { return T(v); }
  static int get(const T& t) { return t.v; }
};
template <int N, std::size_t Align>
struct alignas(Align) Block_ {
  int w[N];
  int key() const { return w[0]; }
  VP_ORDER(Block_)
};
template <int N, std::size_t Align>
struct PlainBlock {
  using T = Block_<N, Align>;
  static T make(int v) {
    T t;
    for (int i = 0; i < N; ++i) t.w[i] = v + i;
    return t;
  }
  static int get(const T& t) {
    int v = t.w[0];
    for (int i = 0; i < N; ++i)
      if (t.w[i] != (v ? v + i : t.w[i])) return -6;
    return v;
  }
};
template <>
struct Plain<25> : PlainBlock<300, alignof(int)> {};
template <>
struct Plain<26> : PlainBlock<3, 2 * sizeof(void*)> {};
struct Empty {
  int key() const { return 0; }
  VP_ORDER(Empty)
};
template <>
struct Plain<27> {
  using T = Empty;
  static T make(int) { return T(); }
  static int get(const T&) { return 0; }
};
template <>
struct Plain<28> {
  using T = std::vector<int>;
  static T make(int v) { return T(3, v); }
  static int get(const T& t) {
    if (t.empty()) return -1;
    return t.size() == 3 && t[1] == t[0] && t[2] == t[0] ? t[0] : -7;
  }
};
template <>
struct Plain<29> : PlainInt {
  using T = char;
  static T make(int v) { return static_cast<char>(v & 0x7f); }
};
// Overloads what generic code must not use.
struct Hostile {
  int v = 0;
  int key() const { return v; }
  void operator&() const = delete;
  template <class U>
  void operator,(const U&) const = delete;
  static void* operator new(std::size_t) = delete;
  static void operator delete(void*) {}
  VP_ORDER(Hostile)
};
template <>
struct Plain<30> {
  using T = Hostile;
  static T make(int v) {
    T t;
    t.v = v;
    return t;
  }
  static int get(const T& t) { return t.v; }
};
struct MoveOnly {
  std::unique_ptr<int> p;
  MoveOnly() = default;
  explicit MoveOnly(int v) : p(new int(v)) {}
  int key() const { return p ? *p : -1; }
  VP_ORDER(MoveOnly)
};
template <>
struct Plain<31> {
  using T = MoveOnly;
  static T make(int v) { return T(v); }
  static int get(const T& t) { return t.key(); }
};

// Families of base and derived types for polymorphic.
//  0 not polymorphic, data in the base   1 virtual destructor, concrete base
//  2 final class   3 empty base
template <int Fam>
struct Family;

struct NB {
  int tag, v;
};
struct NB1 : NB {
  int w;
};
struct NB2 : NB {
  Str s;
};
struct CB {
  int tag = 43, v = 0;
  virtual ~CB() = default;
  virtual int value() const { return v; }
  virtual void set(int n) { v = n; }
};
struct CB1 : CB {
  long w[6] = {};
  int value() const override { return w[5] == v && w[0] == v ? v : -8; }
  void set(int n) override { v = n, w[0] = w[5] = n; }
};
struct CB2 final : CB {
  Str s;
  int value() const override { return s.value(); }
  void set(int n) override { v = n, s = Str(n); }
};
struct Fin final {
  int v, w;
};
struct EB {};
struct ED : EB {
  Str s;
};

template <>
struct Family<0> {
  using T = NB;
  enum { KIND0 = 40, KINDS = 3 };
  using K0 = NB;
  using K1 = NB1;
  using K2 = NB2;
  static int kind(const T& t) { return t.tag; }
  static void set(T& t, int v) {
    t.v = v;
    if (t.tag == 41) static_cast<NB1&>(t).w = v;
    if (t.tag == 42) static_cast<NB2&>(t).s = Str(v);
  }
  static int get(const T& t) {
    if (t.tag == 41) return static_cast<const NB1&>(t).w == t.v ? t.v : -9;
    if (t.tag == 42) return static_cast<const NB2&>(t).s.value();
    return t.v;
  }
  template <class D>
  static D make(int kind, int v) {
    D d{};
    d.tag = kind;
    set(d, v);
    return d;
  }
};
template <>
struct Family<1> {
  using T = CB;
  enum { KIND0 = 43, KINDS = 3 };
  using K0 = CB;
  using K1 = CB1;
  using K2 = CB2;
  static int kind(const T& t) { return t.tag; }
  static void set(T& t, int v) { t.set(v); }
  static int get(const T& t) { return t.value(); }
  template <class D>
  static D make(int kind, int v) {
    D d{};
    d.tag = kind;
    d.set(v);
    return d;
  }
};
template <>
struct Family<2> {
  using T = Fin;
  enum { KIND0 = 46, KINDS = 1 };
  using K0 = Fin;
  using K1 = Fin;
  using K2 = Fin;
  static int kind(const T&) { return 46; }
  static void set(T& t, int v) { t.v = t.w = v; }
  static int get(const T& t) { return t.v == t.w ? t.v : -9; }
  template <class D>
  static D make(int, int v) {
    D d;
    set(d, v);
    return d;
  }
};
template <>
struct Family<3> {
  using T = EB;
  enum { KIND0 = 47, KINDS = 1 };
  using K0 = ED;
  using K1 = ED;
  using K2 = ED;
  static int kind(const T&) { return 47; }
  static void set(T& t, int v) { static_cast<ED&>(t).s = Str(v); }
  static int get(const T& t) { return static_cast<const ED&>(t).s.value(); }
  template <class D>
  static D make(int, int v) {
    D d;
    set(d, v);
    return d;
  }
};
#undef VP_ORDER
#define VP_COUNT(...) \
  template <>         \
  struct counts_calls<__VA_ARGS__> : std::true_type {};
VP_COUNT(int) VP_COUNT(double) VP_COUNT(char) VP_COUNT(Rec) VP_COUNT(Str) VP_COUNT(Frozen)
VP_COUNT(Plain<25>::T) VP_COUNT(Plain<26>::T) VP_COUNT(Empty) VP_COUNT(std::vector<int>)
VP_COUNT(Hostile) VP_COUNT(MoveOnly) VP_COUNT(NB) VP_COUNT(NB1) VP_COUNT(NB2) VP_COUNT(CB)
VP_COUNT(CB1) VP_COUNT(CB2) VP_COUNT(Fin) VP_COUNT(ED)
#undef VP_COUNT
}  // namespace vp
#endif
