// Checks on one handle type; generated programs (gen20.py) call these.
#ifndef VP_C20_HPP
#define VP_C20_HPP
#include <cstddef>
#include <cstdio>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "hdr.hpp"

namespace c20 {
static int failures = 0;
static long checks = 0;
inline void expect(bool ok, const char* combo, const char* what, std::size_t got = 0,
                   std::size_t want = 0) {
  ++checks;
  if (ok) return;
  ++failures;
  std::printf("FAIL %s: %s (%zu, expected %zu)\n", combo, what, got, want);
}

template <class A>
struct PointerAnd {
  void* p;
  A a;
};
template <class A>
struct AndPointer {
  A a;
  void* p;
};

// Layout facts; only needs the owned type to be declared.
template <class H, class A>
void layout(const char* name) {
  const bool one = std::is_empty<A>::value && !std::is_final<A>::value && sizeof(A) == 1;
  if (one) {
    expect(sizeof(H) == sizeof(void*), name, "size with an empty allocator", sizeof(H),
           sizeof(void*));
    expect(alignof(H) == alignof(void*), name, "alignment with an empty allocator", alignof(H),
           alignof(void*));
  } else {
    std::size_t a = sizeof(PointerAnd<A>), b = sizeof(AndPointer<A>);
    expect(sizeof(H) <= (a > b ? a : b), name, "size with a stateful allocator", sizeof(H),
           a > b ? a : b);
    expect(sizeof(H) >= sizeof(void*), name, "size is at least a pointer", sizeof(H),
           sizeof(void*));
    expect(alignof(H) <= alignof(PointerAnd<A>), name, "alignment with a stateful allocator",
           alignof(H), alignof(PointerAnd<A>));
  }
  expect(std::is_class<H>::value && !std::is_polymorphic<H>::value, name,
         "the handle is not polymorphic");
  expect(!std::is_convertible<H*, A*>::value && !std::is_convertible<H&, A&>::value, name,
         "the handle does not pass for an allocator");
  expect(std::is_same<typename H::allocator_type, A>::value, name, "allocator_type");
  expect(sizeof(H[7]) == 7 * sizeof(H), name, "arrays of handles");
  struct Two {
    H a;
    H b;
  };
  expect(sizeof(Two) == 2 * sizeof(H), name, "two members", sizeof(Two), 2 * sizeof(H));
}

// The handle works with this allocator and owned type.
template <class H, class A, class Make, class Value>
void use(const char* name, A a1, A a2, bool equal, Make make, Value value) {
  {
    H x = make(a1, 3);
    H y = make(a2, 5);
    expect(value(*x) == 3 && value(*y) == 5, name, "value after construction");
    const H c(x);
    expect(value(*c) == 3 && value(*x) == 3, name, "value of a copy");
    H e(std::allocator_arg, a2, c);
    expect(value(*e) == 3, name, "value of an allocator-extended copy");
    y = c;
    expect(value(*y) == 3, name, "value after copy assignment");
    H m(std::move(x));
    expect(value(*m) == 3 && x.valueless_after_move(), name, "move construction");
    x = make(a1, 9);
    expect(value(*x) == 9, name, "assignment to a valueless handle");
    m = std::move(x);
    expect(value(*m) == 9, name, "value after move assignment");
    if (equal) {
      swap(m, e);
      expect(value(*m) == 3 && value(*e) == 9, name, "swap");
    }
    alignas(H) unsigned char buf[sizeof(H) + 1];
    buf[sizeof(H)] = 0x5a;
    H* p = ::new (static_cast<void*>(buf)) H(e);
    expect(value(**p) == value(*e), name, "value in a buffer of its size");
    p->~H();
    expect(buf[sizeof(H)] == 0x5a, name, "nothing is written past the end");
  }
}
}  // namespace c20
#endif
