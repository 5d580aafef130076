#include "engine.hpp"

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_set>

namespace vp {
std::vector<Entry>& entries() {
  static std::vector<Entry> e;
  return e;
}
Registrar::Registrar(int index, const char* name, Factory make) {
  std::vector<Entry>& e = entries();
  std::size_t at = e.size();
  while (at > 0 && e[at - 1].index > index) --at;
  e.insert(e.begin() + static_cast<std::ptrdiff_t>(at), Entry{index, name, make});
}
const char* const code_name[N_CODE] = {
    "create", "copy_ctor", "copy_ctor_alloc", "move_ctor", "move_ctor_alloc",
    "copy_assign", "move_assign", "swap", "mutate", "value_assign", "take",
    "destroy", "compare"};
const char* const create_name[N_CREATE] = {
    "default", "rvalue", "lvalue", "const_lvalue", "in_place1", "in_place2",
    "in_place_list"};

static int same_(int v) { return v; }
static int to_zero_(int) { return 0; }
static int to_gone_(int) { return -1; }
static int byte_(int v) { return v & 0x7f; }
static int nan_(int v) { return v % 4 == 3 ? -3 : v; }
static int cmp_int_(int a, int b) { return a < b ? -1 : a > b; }
static int cmp_key_(int a, int b) { return cmp_int_(a % 3, b % 3); }
static int cmp_nan_(int a, int b) { return a == -3 || b == -3 ? 2 : cmp_int_(a, b); }

enum { MOVED_ = -77777 };
static int to_moved_(int) { return MOVED_; }

KindTraits kind_traits(int k) {
  KindTraits t;
  t.norm = same_;
  t.moved = to_moved_;
  t.cmp = cmp_int_;
  if (k >= 20) {
    t.plain = true;
    t.moved = same_;
    switch (k) {
      case 21: t.norm = nan_; t.cmp = cmp_nan_; break;
      case 22: t.cmp = cmp_key_; break;
      case 23: case 28: t.moved = to_gone_; break;
      case 24: t.assignable = false; break;
      case 27: t.norm = to_zero_; break;
      case 29: t.norm = byte_; break;
      case 31: t.copyable = false; t.moved = to_gone_; break;
      case 42: case 45: case 47: t.moved = to_gone_; break;
      default: break;
    }
  }
  if (k == 1 || k == 11 || k == 15) t.nothrow_move = true;
  if (k == 2 || k == 13) t.has_move = false;
  if (k == 3 || k == 14) t.nonconst = true;
  return t;
}
static int pair_value_(int a, int b) { return (a * 131 + b) & 0xffffff; }
static int list_value_(const std::vector<int>& l) {
  unsigned v = 17u + static_cast<unsigned>(l.size());
  for (int x : l) v = v * 31u + static_cast<unsigned>(x);
  return static_cast<int>(v & 0xffffff);
}

std::string to_text(const Case& c) {
  std::ostringstream o;
  if (c.sweep >= 0) o << "sweep " << c.sweep << "\n";
  for (const Op& p : c.ops) {
    o << "op " << code_name[p.code] << " a=" << p.a << " b=" << p.b
      << " how=" << p.how << " kind=" << p.kind << " v=" << p.v
      << " ext=" << p.ext << " arena=" << p.arena << " fault=" << p.fault
      << "\n";
  }
  return o.str();
}
bool from_text(const std::string& t, Case& c) {
  std::istringstream in(t);
  std::string line;
  c = Case();
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w) || w[0] == '#') continue;
    if (w == "sweep") {
      l >> c.sweep;
    } else if (w == "op") {
      std::string name;
      l >> name;
      Op p;
      p.code = -1;
      for (int i = 0; i < N_CODE; ++i)
        if (name == code_name[i]) p.code = i;
      if (p.code < 0) return false;
      while (l >> w) {
        auto e = w.find('=');
        if (e == std::string::npos) return false;
        int x = std::atoi(w.c_str() + e + 1);
        std::string k = w.substr(0, e);
        if (k == "a") p.a = x;
        else if (k == "b") p.b = x;
        else if (k == "how") p.how = x;
        else if (k == "kind") p.kind = x;
        else if (k == "v") p.v = x;
        else if (k == "ext") p.ext = x;
        else if (k == "arena") p.arena = x;
        else if (k == "fault") p.fault = x;
      }
      c.ops.push_back(p);
    }
  }
  return true;
}

// ---------------------------------------------------------------------------
// Model

struct M {
  bool alive = false, empty = true;
  int kind = 0, value = 0, arena = 0, label = 0;
  const void* addr = nullptr;
  bool moved_over = false;  // was source of an unequal transfer
};

// Classification of what a case exercised.
enum Feature {
  F_CREATE, F_COPY, F_COPY_OF_EMPTY, F_MUTATE, F_MUTATE_COPY, F_MOVE_EQ,
  F_MOVE_NEQ, F_ASSIGN_IN_PLACE, F_ASSIGN_NEW, F_ASSIGN_FROM_EMPTY,
  F_ASSIGN_TO_EMPTY, F_SELF, F_KIND_CHANGE, F_SWAP, F_SWAP_EMPTY,
  F_ALLOC_REPLACED, F_ALLOC_KEPT, F_VASSIGN, F_VASSIGN_EMPTY, F_THROW_ALLOC,
  F_THROW_OBJECT, F_THROW_LATE, F_FAIL_ENV, F_EXT, F_ILIST, F_DESTROY,
  F_COMPARE, F_COMPARE_EMPTY, F_TAKE, N_FEATURE
};
static const char* const feature_name[N_FEATURE] = {
    "create", "copy", "copy_of_valueless", "mutate", "mutate_a_copied_value",
    "move_equal_alloc", "move_unequal_alloc", "copy_assign_in_place",
    "copy_assign_new_object", "assign_from_valueless", "assign_to_valueless",
    "self_assign", "dynamic_type_changed", "swap", "swap_with_valueless",
    "allocator_replaced", "allocator_kept_though_different", "value_assign",
    "value_assign_to_valueless", "allocation_threw", "owned_type_threw",
    "threw_with_target_value", "move_or_swap_in_failing_environment",
    "explicit_allocator", "initializer_list", "destroy", "compare",
    "compare_with_valueless", "moved_out_of_object"};

struct Runner {
  Iface* f;
  Traits t;
  M m[SLOTS];
  unsigned mask;
  bool trace_on;
  int last_compare = 0;
  std::string trace;
  bool features[N_FEATURE];
  int label_counter;
  bool copied_value[SLOTS];
  // result
  bool failed;
  unsigned fail_cat;
  std::string fail;
  bool any_fired;

  void reset() {
    L.reset();
    L.spy_construct = t.cons;
    L.global = t.global;
    for (auto& x : m) x = M();
    for (auto& x : copied_value) x = false;
    trace.clear();
    label_counter = 0;
    failed = false;
    fail_cat = 0;
    fail.clear();
    any_fired = false;
  }

  bool eq(int a1, int a2) const { return t.ae || a1 == a2; }
  int norm(int arena) const { return t.ae ? 0 : arena; }
  bool plain() const { return t.kind0 >= 20; }

  std::vector<int> alive() const {
    std::vector<int> r;
    for (int i = 0; i < SLOTS; ++i)
      if (m[i].alive) r.push_back(i);
    return r;
  }

  void kill(int d, const char* why);
  void step(const Op& op, int fault);
  void check(const M (&before)[SLOTS], const Op& op, int d, int s, bool threw,
             unsigned extra);
  void raise(unsigned cat, const std::string& msg) { L.error(cat, msg); }
  void run(const Case& c, int sweep_fault);
  void finish();
  void collect(const char* what, int opi) {
    if (L.err_cat & mask) {
      failed = true;
      fail_cat = L.err_cat & mask;
      std::ostringstream o;
      o << what << " (op " << opi << "): " << L.err;
      fail = o.str();
    }
    L.err_cat = 0;
    L.err.clear();
  }
};

struct Expect {
  Counts c;
};

static void cmp_counts(const Counts& e, const Counts& g, unsigned extra,
                       bool cons, bool plain) {
  std::ostringstream o;
  bool bad = false;
  if (e.alloc != g.alloc || e.dealloc != g.dealloc) {
    bad = true;
    o << "allocations " << g.alloc << " (expected " << e.alloc
      << "), deallocations " << g.dealloc << " (expected " << e.dealloc << ") ";
  }
  for (int i = 0; i < H_N; ++i)
    if (!plain && e.how[i] != g.how[i]) {
      bad = true;
      o << how_name[i] << " x" << g.how[i] << " (expected " << e.how[i] << ") ";
    }
  if (!plain && e.dtor != g.dtor) {
    bad = true;
    o << "destructions " << g.dtor << " (expected " << e.dtor << ") ";
  }
  if (g.out_ctor != e.out_ctor || g.out_assign != e.out_assign ||
      g.out_dtor != e.out_dtor) {
    bad = true;
    o << "temporary objects of the owned type were made or assigned ";
  }
  if (bad) L.error(COST | extra, "wrong work done: " + o.str());
  if (cons && !bad) {
    int ctor = 0;
    for (int i = 0; i <= H_GREEDY; ++i) ctor += e.how[i];
    if (g.acons != ctor || g.adest != e.dtor)
      L.error(AUSE | extra,
              "construct/destroy calls of the allocator do not match");
  }
}

static std::string show(const Snap& s) {
  std::ostringstream o;
  if (s.empty)
    o << "valueless";
  else
    o << "kind " << s.kind << " value " << s.value;
  o << " arena " << s.arena << " label " << s.label;
  return o.str();
}

void Runner::check(const M (&before)[SLOTS], const Op& op, int d, int s,
                   bool threw, unsigned extra) {
  (void)op;
  int nonempty = 0;
  std::set<std::uintptr_t> bases;
  Counts saved = L.win;
  for (int i = 0; i < SLOTS; ++i) {
    if (!m[i].alive) continue;
    Snap q;
    {
      Window w;
      q = f->snap(i);
    }
    if (L.win.alloc || L.win.dealloc || L.win.dtor || L.win.out_ctor ||
        L.win.out_dtor)
      L.error(ACCESS | COST, "reading a handle did work");
    M& x = m[i];
    bool involved = i == d || i == s;
    unsigned add = extra;
    if (threw) add |= EXC;
    if (!involved) add |= ALIAS;
    bool is_src = i == s && i != d;
    std::ostringstream o;
    o << "handle " << i << " is [" << show(q) << "] expected [";
    Snap e;
    e.empty = x.empty;
    e.kind = x.kind;
    e.value = x.value;
    e.arena = x.arena;
    e.label = x.label;
    o << show(e) << "]";
    if (q.empty != x.empty) {
      if (x.moved_over && q.empty) {
        // Source of a move across unequal allocators: may be valueless.
      } else {
        unsigned c = VALUELESS | VALUE | add;
        if (is_src && !threw &&
            (op.code == COPY_CTOR || op.code == COPY_CTOR_A ||
             op.code == COPY_ASSIGN))
          c |= SRC;
        L.error(c, "valueless state: " + o.str());
      }
    } else if (!q.empty) {
      if (q.kind != x.kind) L.error(VALUE | add, "dynamic type: " + o.str());
      if (q.value != x.value) {
        unsigned c = VALUE | add;
        if (is_src && (op.code == COPY_CTOR || op.code == COPY_CTOR_A ||
                       op.code == COPY_ASSIGN))
          c |= SRC;
        L.error(c, "value: " + o.str());
      }
      if (x.addr && q.addr != x.addr)
        L.error(ADDR | add, "address of the owned object changed: " + o.str());
    }
    if (q.arena != x.arena || q.label != x.label)
      L.error(ALLOC | add, "allocator: " + o.str());
    x.moved_over = false;
    // Resynchronise with the implementation (matters only for categories this
    // run does not check).
    x.empty = q.empty;
    x.kind = q.kind;
    x.value = q.value;
    x.arena = q.arena;
    x.label = q.label;
    x.addr = q.addr;
    if (!q.empty) {
      ++nonempty;
      std::uintptr_t base = 0;
      const Block* b = L.block_of(q.addr, &base);
      if (!b) {
        L.error(ALIAS | RES | ALLOC | add,
                "owned object is not in storage from the allocator");
      } else {
        if (!bases.insert(base).second)
          L.error(ALIAS | add, "two handles share an owned object");
        if (!eq(b->arena, q.arena))
          L.error(ALLOC | add,
                  "owned object lives in storage of an allocator unequal to "
                  "the handle's: " +
                      show(q));
      }
    }
  }
  L.win = saved;
  unsigned add = extra | (threw ? unsigned(EXC) : 0u);
  if (static_cast<int>(L.blocks.size()) != nonempty) {
    std::ostringstream o;
    o << L.blocks.size() << " blocks allocated for " << nonempty
      << " handles with a value";
    L.error(RES | add, o.str());
  }
  if (!plain() && static_cast<int>(L.objects.size()) != nonempty) {
    std::ostringstream o;
    o << L.objects.size() << " owned objects alive for " << nonempty
      << " handles with a value";
    L.error(RES | add, o.str());
  }
  if (!t.indirect && !plain() && L.base_live != static_cast<long>(L.objects.size()))
    L.error(RES | VALUE, "base sub-objects and complete objects do not match");
  (void)before;
}

void Runner::kill(int d, const char*) {
  Counts e;
  if (!m[d].empty) {
    e.dtor = 1;
    e.dealloc = 1;
  }
  f->destroy(d);
  cmp_counts(e, L.win, 0, t.cons, plain());
  m[d] = M();
}

void Runner::step(const Op& op, int fault) {
  M before[SLOTS];
  for (int i = 0; i < SLOTS; ++i) before[i] = m[i];
  std::vector<int> al = alive();
  int n = static_cast<int>(al.size());
  int d = -1, s = -1;
  Op o = op;
  bool creates = o.code <= MOVE_CTOR_A;
  bool two = o.code >= COPY_CTOR && o.code <= SWAP;
  if (o.code == COMPARE || o.code == VALUE_ASSIGN) two = true;
  if (!t.indirect && (o.code == VALUE_ASSIGN || o.code == COMPARE)) return;
  if (creates) {
    d = ((o.a % SLOTS) + SLOTS) % SLOTS;
    if (two) {
      // The source must be another live handle.
      std::vector<int> cand;
      for (int x : al)
        if (x != d) cand.push_back(x);
      if (cand.empty()) return;
      s = cand[static_cast<std::size_t>(o.b) % cand.size()];
    }
    if (m[d].alive) {
      kill(d, "make room");
      features[F_DESTROY] = true;
      copied_value[d] = false;
    }
  } else {
    if (n == 0) return;
    std::size_t at = static_cast<std::size_t>(o.a) % al.size();
    d = al[at];
    // b = 7 (mod 8) selects the handle itself, anything else another one.
    if (two)
      s = n == 1 || o.b % 8 == 7
              ? d
              : al[(at + 1 + static_cast<std::size_t>(o.b % 8) % (al.size() - 1)) %
                   al.size()];
  }
  int kind = t.indirect ? t.kind0 : t.kind0 + o.kind % t.kinds;
  int label = t.stateless ? 0 : ++label_counter;
  int arena = norm(o.arena % 4);
  int newv = o.v & 0xffff;

  Counts e;           // expected work
  M nd = d >= 0 ? m[d] : M();  // expected new states
  M ns = s >= 0 ? m[s] : M();
  unsigned extra = 0;
  bool noexcept_op = false;   // must not throw even if everything fails
  bool no_arm = false;        // cannot inject here
  bool returned_self = true;
  KindTraits kt = kind_traits(kind);
  if (!kt.copyable && (o.code == COPY_CTOR || o.code == COPY_CTOR_A || o.code == COPY_ASSIGN))
    return;
  // (copy assignment of an indirect requires a copy-assignable type)
  if (!kt.assignable && (o.code == VALUE_ASSIGN || o.code == MUTATE ||
                         (t.indirect && o.code == COPY_ASSIGN)))
    return;
  if (kt.plain && (o.code == CREATE || o.code == VALUE_ASSIGN || o.code == MUTATE))
    newv = kt.norm(newv);

  auto release = [&](const M& x) {
    if (!x.empty) {
      ++e.dtor;
      ++e.dealloc;
    }
  };

  switch (o.code) {
    case CREATE: {
      int how = o.how % N_CREATE;
      if (!t.indirect && how == C_DEF) how = C_INPLACE1;
      if (kt.plain && (how == C_INPLACE2 || how == C_ILIST)) how = C_INPLACE1;
      if (!kt.copyable && how != C_DEF) how = C_RVALUE;
      o.how = how;
      nd = M();
      nd.alive = true;
      nd.empty = false;
      nd.kind = kind;
      nd.arena = o.ext ? arena : 0;
      nd.label = o.ext ? label : 0;
      ++e.alloc;
      features[F_CREATE] = true;
      if (o.ext) features[F_EXT] = true;
      switch (how) {
        case C_DEF: nd.value = kind == 28 || kind == 31 ? -1 : kt.norm(0); ++e.how[H_DEF]; break;
        case C_RVALUE:
          nd.value = newv;
          ++e.how[kt.has_move ? H_MOVE : H_COPY];
          break;
        case C_LVALUE:
          nd.value = newv;
          ++e.how[kt.nonconst ? H_NCCOPY : H_COPY];
          break;
        case C_CLVALUE: nd.value = newv; ++e.how[H_COPY]; break;
        case C_INPLACE1: nd.value = newv; ++e.how[H_VAL]; break;
        case C_INPLACE2:
          nd.value = pair_value_(newv, newv ^ 5);
          ++e.how[H_VAL2];
          break;
        case C_ILIST:
          nd.value = list_value_({newv, 2, newv + 3});
          ++e.how[H_ILIST];
          features[F_ILIST] = true;
          break;
      }
      break;
    }
    case COPY_CTOR:
    case COPY_CTOR_A: {
      nd = M();
      nd.alive = true;
      nd.empty = m[s].empty;
      nd.kind = m[s].kind;
      nd.value = m[s].value;
      if (o.code == COPY_CTOR_A) {
        nd.arena = arena;
        nd.label = label;
        features[F_EXT] = true;
      } else {
        nd.arena = t.socc ? norm(m[s].arena % 3 + 7) : m[s].arena;
        nd.label = t.socc ? m[s].label + 1000 : m[s].label;
      }
      if (!nd.empty) {
        ++e.alloc;
        ++e.how[H_COPY];
        features[F_COPY] = true;
      } else {
        features[F_COPY_OF_EMPTY] = true;
      }
      break;
    }
    case MOVE_CTOR:
    case MOVE_CTOR_A: {
      nd = M();
      nd.alive = true;
      nd.kind = m[s].kind;
      nd.value = m[s].value;
      nd.empty = m[s].empty;
      bool ext = o.code == MOVE_CTOR_A;
      nd.arena = ext ? arena : m[s].arena;
      nd.label = ext ? label : m[s].label;
      if (ext) features[F_EXT] = true;
      KindTraits ks = kind_traits(m[s].kind);
      if (m[s].empty) {
        noexcept_op = true;
      } else if (!ext || eq(arena, m[s].arena)) {
        noexcept_op = true;
        nd.addr = m[s].addr;
        ns.empty = true;
        features[F_MOVE_EQ] = true;
      } else {
        ++e.alloc;
        ++e.how[ks.has_move ? H_MOVE : H_COPY];
        if (ks.has_move) ns.value = ks.moved(m[s].value);
        ns.moved_over = true;
        features[F_MOVE_NEQ] = true;
      }
      break;
    }
    case COPY_ASSIGN: {
      if (d == s) {
        noexcept_op = true;
        features[F_SELF] = true;
        break;
      }
      bool alloc_eq = eq(m[d].arena, m[s].arena);
      if (t.pocca && (m[d].arena != m[s].arena || m[d].label != m[s].label))
        features[F_ALLOC_REPLACED] = true;
      if (!t.pocca && m[d].label != m[s].label) features[F_ALLOC_KEPT] = true;
      if (m[s].empty) {
        release(m[d]);
        nd.empty = true;
        noexcept_op = true;
        features[F_ASSIGN_FROM_EMPTY] = true;
      } else if (t.indirect && !m[d].empty && alloc_eq) {
        ++e.how[AS_COPY];
        nd.value = m[s].value;
        features[F_ASSIGN_IN_PLACE] = true;
      } else {
        if (m[d].empty) features[F_ASSIGN_TO_EMPTY] = true;
        else if (m[d].kind != m[s].kind) features[F_KIND_CHANGE] = true;
        features[F_ASSIGN_NEW] = true;
        ++e.alloc;
        ++e.how[H_COPY];
        release(m[d]);
        nd.empty = false;
        nd.kind = m[s].kind;
        nd.value = m[s].value;
        nd.addr = nullptr;
      }
      if (t.pocca) {
        nd.arena = m[s].arena;
        nd.label = m[s].label;
      }
      break;
    }
    case MOVE_ASSIGN: {
      if (d == s) {
        noexcept_op = true;
        features[F_SELF] = true;
        break;
      }
      bool alloc_eq = eq(m[d].arena, m[s].arena);
      KindTraits ks = kind_traits(m[s].kind);
      if (t.pocma && (m[d].arena != m[s].arena || m[d].label != m[s].label))
        features[F_ALLOC_REPLACED] = true;
      if (!t.pocma && m[d].label != m[s].label) features[F_ALLOC_KEPT] = true;
      if (m[s].empty) {
        release(m[d]);
        nd.empty = true;
        noexcept_op = true;
        features[F_ASSIGN_FROM_EMPTY] = true;
      } else if (alloc_eq) {
        noexcept_op = true;
        release(m[d]);
        nd.empty = false;
        nd.kind = m[s].kind;
        nd.value = m[s].value;
        nd.addr = m[s].addr;
        ns.empty = true;
        features[F_MOVE_EQ] = true;
        if (m[d].empty) features[F_ASSIGN_TO_EMPTY] = true;
        else if (m[d].kind != m[s].kind) features[F_KIND_CHANGE] = true;
      } else {
        ++e.alloc;
        ++e.how[ks.has_move ? H_MOVE : H_COPY];
        release(m[d]);
        nd.empty = false;
        nd.kind = m[s].kind;
        nd.value = m[s].value;
        nd.addr = nullptr;
        if (ks.has_move) ns.value = ks.moved(m[s].value);
        ns.moved_over = true;
        no_arm = t.pocma;  // declared noexcept although it may have to allocate
        features[F_MOVE_NEQ] = true;
      }
      if (t.pocma) {
        nd.arena = m[s].arena;
        nd.label = m[s].label;
      }
      break;
    }
    case SWAP: {
      if (!t.pocs && !eq(m[d].arena, m[s].arena)) return;  // precondition
      noexcept_op = true;
      features[F_SWAP] = true;
      if (m[d].empty || m[s].empty) features[F_SWAP_EMPTY] = true;
      if (d != s) {
        std::swap(nd, ns);
        if (!t.pocs) {
          std::swap(nd.arena, ns.arena);
          std::swap(nd.label, ns.label);
        }
      }
      break;
    }
    case MUTATE: {
      if (m[d].empty) return;
      noexcept_op = true;
      nd.value = newv;
      features[F_MUTATE] = true;
      if (copied_value[d]) features[F_MUTATE_COPY] = true;
      break;
    }
    case VALUE_ASSIGN: {
      extra = VASSIGN;
      // 0 const T&, 1 T&&, 2 int, 3 T&, 4 own value, 5 value of another handle,
      // 6 the same moved
      int how = o.how % 7;
      if (how == 4 && m[d].empty) how = 0;
      if (how > 4 && (s == d || m[s].empty)) how -= 5;
      if (kt.plain && how == 2) how = 0;
      if (!kt.copyable && how != 6) how = 1;
      o.how = how;
      nd.value = how == 4 ? m[d].value : how > 4 ? m[s].value : newv;
      if (how == 6 && kt.has_move) ns.value = kt.moved(m[s].value);
      if (how >= 4) how = how == 6;
      features[m[d].empty ? F_VASSIGN_EMPTY : F_VASSIGN] = true;
      if (m[d].empty) {
        nd.empty = false;
        nd.kind = kind;
        nd.addr = nullptr;
        ++e.alloc;
        ++e.how[how == 0   ? H_COPY
                : how == 1 ? (kt.has_move ? H_MOVE : H_COPY)
                : how == 2 ? H_VAL
                           : (kt.nonconst ? H_NCCOPY : H_COPY)];
      } else {
        ++e.how[how == 0   ? AS_COPY
                : how == 1 ? (kt.has_move ? AS_MOVE : AS_COPY)
                : how == 2 ? AS_VAL
                           : (kt.nonconst ? AS_NC : AS_COPY)];
      }
      break;
    }
    case TAKE: {
      if (m[d].empty) return;
      KindTraits ks = kind_traits(m[d].kind);
      if (ks.has_move) nd.value = ks.moved(m[d].value);
      features[F_TAKE] = true;
      break;
    }
    case DESTROY: {
      release(m[d]);
      nd = M();
      noexcept_op = true;
      features[F_DESTROY] = true;
      break;
    }
    case COMPARE: {
      features[m[d].empty || m[s].empty ? F_COMPARE_EMPTY : F_COMPARE] = true;
      break;
    }
    default: return;
  }

  // Arm faults.
  L.fired_id = 0;
  L.fault_left = 0;
  L.always_fail = false;
  if (o.code != TAKE && o.code != COMPARE && !no_arm) {
    if (noexcept_op && fault != 0) {
      L.always_fail = true;
      features[F_FAIL_ENV] = true;
    } else if (fault > 0) {
      L.fault_left = fault;
    }
  }

  bool threw = false;
  long caught = 0;
  bool foreign = false;
  try {
    switch (o.code) {
      case CREATE:
        f->create(d, o.how, kind, newv, o.ext != 0, arena, label);
        break;
      case COPY_CTOR: f->copy_ctor(d, s, false, 0, 0); break;
      case COPY_CTOR_A: f->copy_ctor(d, s, true, arena, label); break;
      case MOVE_CTOR: f->move_ctor(d, s, false, 0, 0); break;
      case MOVE_CTOR_A: f->move_ctor(d, s, true, arena, label); break;
      case COPY_ASSIGN: returned_self = f->copy_assign(d, s); break;
      case MOVE_ASSIGN: returned_self = f->move_assign(d, s); break;
      case SWAP: f->swap(d, s, o.how % 2); break;
      case MUTATE: f->mutate(d, o.how % 2, newv); break;
      case VALUE_ASSIGN: returned_self = f->value_assign(d, o.how, newv, s); break;
      case TAKE: f->take(d); break;
      case DESTROY: f->destroy(d); break;
      case COMPARE: {
        int got = f->compare(d, s);
        last_compare = got;
        bool ed = m[d].empty, es = m[s].empty;
        int c = ed && es ? 0 : ed ? -1 : es ? 1 : kt.cmp(m[d].value, m[s].value);
        int want = (c == 0) | (c != 0) << 1 | (c < 0) << 2 | (c == 1) << 3 |
                   (c <= 0) << 4 | (c == 0 || c == 1) << 5;
        if (got != want) L.error(CMP, "comparison of two handles is wrong");
        break;
      }
      default: break;
    }
  } catch (const InjectedAlloc& x) {
    threw = true;
    caught = x.id;
    features[F_THROW_ALLOC] = true;
  } catch (const Injected& x) {
    threw = true;
    caught = x.id;
    features[F_THROW_OBJECT] = true;
  } catch (...) {
    threw = true;
    foreign = true;
  }
  L.window = false;
  L.fault_left = 0;
  L.always_fail = false;
  if (L.fired_id) any_fired = true;

  if (noexcept_op && threw)
    L.error(NOEX | EXC | extra, "an operation that must not throw threw");
  else if (threw && (foreign || caught != L.fired_id))
    L.error(EXC | extra, "a different exception than the injected one");
  else if (!threw && L.fired_id)
    L.error(EXC | extra, "an injected exception was swallowed");
  if (noexcept_op && L.fired_id && !threw)
    L.error(NOEX, "a throwing operation was attempted");
  if (!threw && !returned_self)
    L.error(VALUE | extra, "assignment did not return the target");

  if (!threw) {
    if (d >= 0) m[d] = nd;
    if (s >= 0 && s != d) m[s] = ns;
  } else {
    if (creates) m[d] = M();
    if (!creates && !before[d].empty) features[F_THROW_LATE] = true;
  }

  // Work done.
  if (!threw && o.code != TAKE && o.code != COMPARE) {
    Counts got = L.win;
    if (s >= 0 && s != d && ns.moved_over) {
      bool src_empty = f->snap(s).empty;
      if (src_empty) {
        ++e.dtor;
        ++e.dealloc;
      }
    }
    cmp_counts(e, got, extra, t.cons, plain());
    L.win = got;
  }
  Counts done = L.win;
  check(before, o, d, s, threw, extra);

  if (!threw) {
    if (o.code == COPY_CTOR || o.code == COPY_CTOR_A ||
        (o.code == COPY_ASSIGN && d != s)) {
      copied_value[d] = copied_value[s] = true;
    } else if (o.code == CREATE || o.code == DESTROY) {
      copied_value[d] = false;
    }
  }
  if (trace_on) {
    std::ostringstream tr;
    tr << code_name[o.code] << " d=" << d << " s=" << s << " how=" << o.how
       << (threw ? (foreign ? " threw-foreign" : " threw") : "");
    if (o.code != TAKE && o.code != COMPARE) {
      tr << " alloc=" << done.alloc << " dealloc=" << done.dealloc
         << " dtor=" << done.dtor << " tmp=" << done.out_ctor << ","
         << done.out_assign << "," << done.out_dtor;
      for (int i = 0; i < H_N; ++i)
        if (done.how[i]) tr << " " << how_name[i] << "=" << done.how[i];
      tr << " acons=" << done.acons << " adest=" << done.adest;
    }
    tr << " |";
    if (o.code == COMPARE) tr << " result=" << last_compare;
    // What the handles show, not what the model expects; the history goes on
    // from there, so that two implementations can be compared to the end.
    for (int i = 0; i < SLOTS; ++i)
      if (m[i].alive) {
        const Snap q = f->snap(i);
        tr << " " << i << ":";
        if (q.empty)
          tr << "-";
        else
          tr << q.kind << "/" << q.value;
        tr << "@" << q.arena << "." << q.label;
        if (!before[i].empty && !q.empty) tr << (before[i].addr == q.addr ? "=" : "+");
        m[i].empty = q.empty;
        if (!q.empty) {
          m[i].kind = q.kind;
          m[i].value = q.value;
        }
        m[i].addr = q.addr;
        m[i].arena = q.arena;
        m[i].label = q.label;
      }
    tr << " blocks=" << L.blocks.size() << " objects=" << L.objects.size()
       << " errors=" << std::hex << L.err_cat << "\n";
    trace += tr.str();
  }
}

void Runner::finish() {
  for (int i = 0; i < SLOTS; ++i)
    if (m[i].alive) kill(i, "end");
  if (!L.blocks.empty()) L.error(RES, "blocks remain after the last handle died");
  if (!L.objects.empty())
    L.error(RES, "owned objects remain after the last handle died");
}

void Runner::run(const Case& c, int sweep_fault) {
  reset();
  for (std::size_t i = 0; i < c.ops.size(); ++i) {
    int fault = c.ops[i].fault;
    if (c.sweep == static_cast<int>(i)) fault = sweep_fault;
    if (c.sweep == static_cast<int>(i)) any_fired = false;
    step(c.ops[i], fault);
    collect(code_name[c.ops[i].code], static_cast<int>(i));
    if (failed) break;
  }
  bool fired = any_fired;
  if (!failed) {
    finish();
    collect("end of history", static_cast<int>(c.ops.size()));
  }
  any_fired = fired;
}

// ---------------------------------------------------------------------------
// Generation

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t x) : s(x) {}
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int below(int n) { return static_cast<int>(next() % static_cast<unsigned>(n)); }
  bool chance(int pct) { return below(100) < pct; }
};

struct Profile {
  const char* name;
  int weight[N_CODE];
  int fault_pct;  // ops with an injected fault
  int sweep_pct;  // cases in which one op gets a complete fault sweep
  int ext_pct;    // explicit allocators
};
//                      CRE CC CCA MC MCA CA MA SW MU VA TA DE CMP
static const Profile profiles[] = {
    {"values",        {12, 8, 4, 6, 3, 14, 10, 8, 16, 5, 3, 5, 6}, 6, 3, 40},
    {"moves",         {10, 5, 3, 12, 8, 8, 18, 14, 4, 6, 3, 6, 3}, 10, 3, 50},
    {"faults",        {10, 8, 6, 5, 8, 18, 16, 5, 4, 10, 2, 4, 2}, 45, 40, 60},
    {"allocators",    {10, 8, 8, 5, 10, 18, 18, 10, 2, 6, 1, 4, 0}, 5, 5, 75},
    {"valueassign",   {10, 4, 3, 8, 3, 6, 10, 5, 3, 40, 3, 3, 2}, 25, 10, 45},
    {"compare",       {14, 6, 4, 8, 2, 8, 8, 6, 8, 6, 2, 3, 25}, 3, 0, 40},
    {"resources",     {12, 8, 6, 8, 8, 14, 14, 8, 3, 6, 2, 8, 0}, 25, 10, 55},
};

static Case generate(Rng& r, const Profile& p, int max_ops) {
  Case c;
  // Swarm testing: each case uses a random subset of the operations, a random
  // pool of arenas, values, kinds and variants.
  int w[N_CODE], total = 0;
  for (int i = 0; i < N_CODE; ++i) {
    w[i] = p.weight[i];
    if (i != CREATE && r.chance(25)) w[i] = 0;
    if (r.chance(15)) w[i] *= 4;
    total += w[i];
  }
  int slots = r.chance(5) ? 1 : 2 + r.below(SLOTS - 1);
  int arenas = 1 + r.below(3);
  int kinds = 1 + r.below(6);
  int kindbase = r.below(6);
  int values = r.chance(30) ? 3 : 50;
  int n = 1 + r.below(max_ops);
  if (r.chance(30)) n = 1 + r.below(5);
  int fault = r.chance(60) ? p.fault_pct : 0;
  int ext = r.chance(75) ? p.ext_pct : r.below(101);
  for (int i = 0; i < n; ++i) {
    Op o;
    int x = r.below(total);
    bool fresh = i == 0 || (i < slots && r.chance(60));
    if (fresh) x = 0;
    while (x >= w[o.code]) x -= w[o.code++];
    o.a = fresh ? i : r.below(slots);
    o.b = r.below(8);
    o.how = r.below(14);
    o.kind = kindbase + r.below(kinds);
    o.v = 1 + r.below(values);
    o.ext = r.chance(ext);
    o.arena = r.below(arenas);
    if (r.chance(fault)) o.fault = 1 + r.below(4);
    c.ops.push_back(o);
  }
  if (r.chance(p.sweep_pct)) c.sweep = r.below(n);
  return c;
}

static std::uint64_t hash_text(const std::string& s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
  return h;
}

static Case from_bytes(const std::uint8_t* d, std::size_t n) {
  Case c;
  if (n < 2) return c;
  int sw = d[0];
  for (std::size_t i = 1; i + 6 <= n && c.ops.size() < 40; i += 6) {
    Op o;
    o.code = d[i] % N_CODE;
    o.a = d[i + 1] % SLOTS;
    o.b = (d[i + 1] / SLOTS) % 8;
    o.how = d[i + 2] % 14;
    o.kind = (d[i + 2] / 14) % 6;
    o.v = d[i + 3];
    o.ext = d[i + 4] & 1;
    o.arena = (d[i + 4] >> 1) % 3;
    o.fault = d[i + 5] < 128 ? 0 : 1 + d[i + 5] % 4;
    c.ops.push_back(o);
  }
  if (!c.ops.empty() && sw < 64)
    c.sweep = sw % static_cast<int>(c.ops.size());
  return c;
}

struct Outcome {
  bool failed = false;
  std::string msg;
  long execs = 0;
};
static Outcome run_case(Runner& r, const Case& c) {
  Outcome out;
  if (c.sweep < 0) {
    r.run(c, 0);
    ++out.execs;
    out.failed = r.failed;
    out.msg = r.fail;
    return out;
  }
  std::string all;
  for (int k = 0; k <= 12; ++k) {
    r.run(c, k);
    ++out.execs;
    if (r.trace_on) all += r.trace;
    if (r.failed) {
      std::ostringstream o;
      o << "[fault point " << k << "] " << r.fail;
      out.failed = true;
      out.msg = o.str();
      break;
    }
    if (k > 0 && !r.any_fired) break;
  }
  r.trace = all;
  return out;
}

}  // namespace vp

using namespace vp;

static std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (static_cast<unsigned char>(ch) < 32) {
      o += ' ';
    } else {
      o += ch;
    }
  }
  return o + "\"";
}

static bool has_feature(const char* list, const bool* f) {
  // "a+b,c" : (a and b) or c
  std::string s(list);
  std::istringstream in(s);
  std::string alt;
  while (std::getline(in, alt, ',')) {
    std::istringstream a(alt);
    std::string one;
    bool all = true;
    while (std::getline(a, one, '+')) {
      bool ok = false;
      for (int i = 0; i < N_FEATURE; ++i)
        if (one == feature_name[i]) ok = f[i];
      all = all && ok;
    }
    if (all) return true;
  }
  return false;
}

#ifdef VP_LIBFUZZER
static unsigned fuzz_mask() {
  const char* m = std::getenv("VP_MASK");
  return m ? static_cast<unsigned>(std::strtoul(m, nullptr, 0)) : ~0u;
}
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
  static const unsigned mask = fuzz_mask();
  if (n < 8) return 0;
  int which = d[0] % static_cast<int>(entries().size());
  Case c = from_bytes(d + 1, n - 1);
  std::unique_ptr<Iface> f(entries()[which].make());
  static Runner r;
  r.f = f.get();
  r.t = f->traits();
  r.mask = mask;
  r.trace_on = false;
  Outcome o = run_case(r, c);
  if (o.failed) {
    std::fprintf(stderr, "VP-FAIL config=%s %s\n%s", entries()[which].name,
                 o.msg.c_str(), to_text(c).c_str());
    std::abort();
  }
  L.reset();
  return 0;
}
#else
int main(int argc, char** argv) {
  std::string config, replay, cur, profile = "values", nontrivial = "create",
                                   dump, decode;
  std::uint64_t seed = 1;
  long cases = 1000;
  int max_ops = 24, nsamples = 2;
  unsigned mask = ~0u;
  bool trace = false;
  long print = -1;
  double budget = 1e9;
  const std::clock_t t0 = std::clock();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--config") config = v;
    else if (k == "--seed") seed = std::strtoull(v.c_str(), nullptr, 0);
    else if (k == "--cases") cases = std::atol(v.c_str());
    else if (k == "--max-ops") max_ops = std::atoi(v.c_str());
    else if (k == "--mask") mask = static_cast<unsigned>(std::strtoul(v.c_str(), nullptr, 0));
    else if (k == "--profile") profile = v;
    else if (k == "--replay") replay = v;
    else if (k == "--current") cur = v;
    else if (k == "--nontrivial") nontrivial = v;
    else if (k == "--dump") dump = v;
    else if (k == "--decode") decode = v;
    else if (k == "--samples") nsamples = std::atoi(v.c_str());
    else if (k == "--budget") budget = std::atof(v.c_str());
    else if (k == "--trace") trace = v == "1";
    else if (k == "--print") print = std::atol(v.c_str());
    else return 2;
  }
  if (config == "list") {
    for (int i = 0; i < static_cast<int>(entries().size()); ++i) std::printf("%s\n", entries()[i].name);
    return 0;
  }
  if (!decode.empty()) {
    FILE* fp = std::fopen(decode.c_str(), "rb");
    if (!fp) return 2;
    std::uint8_t buf[4096];
    std::size_t n = std::fread(buf, 1, sizeof buf, fp);
    std::fclose(fp);
    if (n < 2) return 2;
    std::printf("# config %s\n%s", entries()[buf[0] % static_cast<int>(entries().size())].name,
                to_text(from_bytes(buf + 1, n - 1)).c_str());
    return 0;
  }
  Runner* rp = new Runner;
  Runner& r = *rp;
  r.mask = mask;
  r.trace_on = trace;

  if (!replay.empty()) {
    FILE* fp = std::fopen(replay.c_str(), "rb");
    if (!fp) return 2;
    std::string text;
    char buf[4096];
    std::size_t n;
    while ((n = std::fread(buf, 1, sizeof buf, fp)) > 0) text.append(buf, n);
    std::fclose(fp);
    Case c;
    if (!from_text(text, c)) return 2;
    if (config.empty() && text.compare(0, 9, "# config ") == 0)
      config = text.substr(9, text.find('\n') - 9);
    for (int i = 0; i < static_cast<int>(entries().size()); ++i) {
      if (config != entries()[i].name) continue;
      std::unique_ptr<Iface> f(entries()[i].make());
      r.f = f.get();
      r.t = f->traits();
      std::memset(r.features, 0, sizeof r.features);
      Outcome o = run_case(r, c);
      if (trace) std::printf("%s", r.trace.c_str());
      if (o.failed) {
        std::printf("FAIL cat=0x%x %s\n", r.fail_cat, o.msg.c_str());
        std::fflush(stdout);
        _exit(3);
      }
      std::printf("PASS\n");
      L.reset();
      return 0;
    }
    return 2;
  }

  char* shared = nullptr;
  const std::size_t shared_size = 1 << 16;
  if (!cur.empty()) {
    int fd = ::open(cur.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ::ftruncate(fd, shared_size)) return 2;
    shared = static_cast<char*>(::mmap(nullptr, shared_size,
                                       PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
  const Profile* prof = nullptr;
  for (const Profile& p : profiles)
    if (profile == p.name) prof = &p;
  if (!prof) return 2;
  FILE* dumpf = dump.empty() ? nullptr : std::fopen(dump.c_str(), "wb");

  long total_execs = 0, total_cases = 0, total_ops = 0;
  long feat_total[N_FEATURE] = {};
  long distinct = 0;
  std::vector<std::string> samples;
  for (int i = 0; i < static_cast<int>(entries().size()); ++i) {
    if (!config.empty() && config != "all" && config != entries()[i].name) continue;
    std::unique_ptr<Iface> f(entries()[i].make());
    r.f = f.get();
    r.t = f->traits();
    Rng rng(seed * 1000003ull + hash_text(entries()[i].name));
    std::unordered_set<std::uint64_t> seen;
    const double stop = budget * (i + 1) / static_cast<int>(entries().size());
    for (long k = 0; k < cases; ++k) {
      if (double(std::clock() - t0) / CLOCKS_PER_SEC > stop) break;
      Case c = generate(rng, *prof, max_ops);
      std::string text = to_text(c);
      if (print >= 0) {  // only show one generated case
        if (k == print) {
          std::printf("# config %s\n%s", entries()[i].name, text.c_str());
          return 0;
        }
        continue;
      }
      if (shared) {
        std::string t = std::string("# config ") + entries()[i].name + "\n" + text;
        if (t.size() + 1 > shared_size) continue;
        std::memcpy(shared, t.c_str(), t.size() + 1);
      }
      std::memset(r.features, 0, sizeof r.features);
      Outcome o = run_case(r, c);
      total_execs += o.execs;
      ++total_cases;
      total_ops += static_cast<long>(c.ops.size());
      for (int q = 0; q < N_FEATURE; ++q) feat_total[q] += r.features[q];
      if (o.failed) {
        std::printf("FAIL {\"config\": %s, \"cat\": %u, \"msg\": %s, \"case\": %s}\n",
                    json_str(entries()[i].name).c_str(), r.fail_cat,
                    json_str(o.msg).c_str(), json_str(text).c_str());
        std::fflush(stdout);
        _exit(3);
      }
      if (has_feature(nontrivial.c_str(), r.features)) {
        if (seen.insert(hash_text(text)).second) {
          ++distinct;
          if (static_cast<int>(samples.size()) < nsamples && c.ops.size() <= 9 &&
              c.ops.size() >= 3)
            samples.push_back(std::string("config ") + entries()[i].name + "\n" + text);
        }
      }
      if (dumpf)
        std::fprintf(dumpf, "%s %ld %016llx\n", entries()[i].name, k,
                     static_cast<unsigned long long>(hash_text(r.trace)));
    }
  }
  if (dumpf) std::fclose(dumpf);
  L.reset();
  std::printf("OK {\"cases\": %ld, \"execs\": %ld, \"ops\": %ld, \"distinct\": %ld, \"features\": {",
              total_cases, total_execs, total_ops, distinct);
  for (int q = 0; q < N_FEATURE; ++q)
    std::printf("%s\"%s\": %ld", q ? ", " : "", feature_name[q], feat_total[q]);
  std::printf("}, \"samples\": [");
  for (std::size_t q = 0; q < samples.size(); ++q)
    std::printf("%s%s", q ? ", " : "", json_str(samples[q]).c_str());
  std::printf("]}\n");
  delete rp;
  return 0;
}
#endif
