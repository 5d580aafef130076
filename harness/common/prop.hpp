// A small property-testing layer. A case is a finite sequence of choices: while
// generating, choices come from a PRNG and are recorded; on replay they are
// read back (0 once they run out), so any prefix or edit of the sequence is a
// valid case and shrinking is done on the sequence, in another process.
// C++14, no dependency on the code under test.
#ifndef VP_PROP_HPP
#define VP_PROP_HPP
#include <cstddef>
#include <cstdint>
#include <sstream>
#include <string>
#include <vector>

#include "ledger.hpp"

namespace vp {

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t x) : s(x) {}
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

struct Ctx {
  Rng rng{0};
  bool replaying = false;
  std::vector<std::uint32_t> tape;
  std::size_t pos = 0;

  // The choices made so far, in shared memory: they survive a crash.
  std::uint32_t* mirror = nullptr;
  std::uint32_t mirror_cap = 0;

  bool failed = false;
  std::string msg;
  bool nontrivial_ = false;
  std::vector<const char*> classes;
  bool want_note = false;
  std::ostringstream notes;
  long checks = 0;

  // A choice in [0, n). 0 should be the simplest choice.
  int below(int n) {
    std::uint32_t r;
    if (replaying) {
      r = pos < tape.size() ? tape[pos] % static_cast<std::uint32_t>(n) : 0;
      ++pos;
    } else {
      r = static_cast<std::uint32_t>(rng.next() % static_cast<std::uint32_t>(n));
      tape.push_back(r);
      if (mirror && mirror[0] < mirror_cap) mirror[++mirror[0]] = r;
    }
    return static_cast<int>(r);
  }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool chance(int pct) { return below(100) >= 100 - pct; }

  void fail(const std::string& m) {
    if (!failed) msg = m;
    failed = true;
  }
  bool check(bool ok, const char* what) {
    ++checks;
    if (!ok) fail(what);
    return ok;
  }
  template <class F>
  bool check(bool ok, const char* what, F detail) {
    ++checks;
    if (!ok) {
      std::ostringstream o;
      o << what << ": ";
      detail(o);
      fail(o.str());
    }
    return ok;
  }
  void cls(const char* name) {
    for (const char* c : classes)
      if (c == name) return;
    classes.push_back(name);
  }
  void nontrivial() { nontrivial_ = true; }
  template <class T>
  Ctx& operator<<(const T& t) {
    if (want_note) notes << t;
    return *this;
  }
};

typedef void (*SuiteFn)(Ctx&);
struct Suite {
  const char* name;
  int weight;  // share of the cases; 0: run exactly once (a table of facts)
  SuiteFn fn;
};
std::vector<Suite>& suites();
struct RegisterSuite {
  RegisterSuite(const char* name, int weight, SuiteFn fn);
};

#define VP_SUITE(NAME, WEIGHT)                                               \
  static void vp_suite_##NAME(::vp::Ctx&);                                   \
  static const ::vp::RegisterSuite vp_reg_##NAME(#NAME, WEIGHT,              \
                                                 &vp_suite_##NAME);          \
  static void vp_suite_##NAME(::vp::Ctx& c)

}  // namespace vp
#endif
