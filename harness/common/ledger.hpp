// Shared bookkeeping for all history checks: which blocks and owned objects are
// alive, what events happened, and where the next fault is injected.
// C++14, no dependency on the code under test.
#ifndef VP_LEDGER_HPP
#define VP_LEDGER_HPP
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <new>
#include <utility>
#include <string>

namespace vp {

// What kind of observation an error is about; a property enables a subset.
enum Cat : unsigned {
  VALUE = 1u << 0,      // value or dynamic type of a handle is wrong
  ALIAS = 1u << 1,      // two handles share an object / object not in own block
  VALUELESS = 1u << 2,  // valueless flag is wrong
  RES = 1u << 3,        // leak, double release, wrong release, use after destroy
  EXC = 1u << 4,        // exception swallowed/invented, or effects after throw
  ALLOC = 1u << 5,      // wrong allocator on a handle or for a block
  COST = 1u << 6,       // wrong number/kind of events
  ADDR = 1u << 7,       // address changed / did not change
  AUSE = 1u << 8,       // construct/destroy not through allocator, alignment, n
  ACCESS = 1u << 9,     // access paths disagree, const not respected
  CMP = 1u << 10,       // comparison result
  HASH = 1u << 11,      // hash result
  SRC = 1u << 12,       // the source of a copy was modified
  NOEX = 1u << 13,      // something promised not to throw threw
  VASSIGN = 1u << 14,   // set in addition on errors raised by value assignment
};

enum How {
  H_DEF, H_VAL, H_VAL2, H_ILIST, H_COPY, H_MOVE, H_NCCOPY, H_GREEDY,
  AS_COPY, AS_MOVE, AS_VAL, AS_NC, H_N
};
extern const char* const how_name[H_N];

struct Injected {  // thrown by payload operations
  long id;
};
struct InjectedAlloc : std::bad_alloc {  // thrown by allocate
  long id;
  explicit InjectedAlloc(long i) : id(i) {}
};

struct Block {
  std::size_t bytes, n, align;
  int arena;
  const void* type;
};
struct Object {
  int kind;
  std::size_t size;
  bool in_block;
  bool acons;  // constructed through the allocator
};

struct Counts {
  int alloc = 0, dealloc = 0;
  int how[H_N] = {};
  int dtor = 0;
  int out_ctor = 0, out_assign = 0, out_dtor = 0;  // objects outside any block
  int acons = 0, adest = 0;                        // owned objects only
};

// The books themselves stay away from operator new.
template <class T>
struct Malloc {
  using value_type = T;
  Malloc() = default;
  template <class U>
  Malloc(const Malloc<U>&) noexcept {}
  T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { std::free(p); }
  friend bool operator==(const Malloc&, const Malloc&) { return true; }
  friend bool operator!=(const Malloc&, const Malloc&) { return false; }
};
template <class V>
using Book = std::map<std::uintptr_t, V, std::less<std::uintptr_t>,
                      Malloc<std::pair<const std::uintptr_t, V>>>;

struct Ledger {
  Book<Block> blocks;
  Book<Object> objects;
  Counts win;
  bool window = false;
  bool spy_construct = false;  // the allocator in use records construct/destroy
  bool global = false;  // operator new inside a window is an owned block
  const void* acons_at = nullptr;  // construct() in progress at this address
  long base_live = 0;          // live base sub-objects (polymorphic payloads)

  long fault_left = 0;   // >0: armed
  long fired_id = 0;     // id of the fault that was thrown, 0 if none
  long next_id = 1;
  bool always_fail = false;  // every fault point throws
  long fault_points = 0;     // passed in this window

  unsigned err_cat = 0;
  std::string err;

  void error(unsigned cat, const std::string& m);
  void reset();
  void fault_point(bool is_alloc);
  const Block* block_of(const void* p, std::uintptr_t* base = nullptr) const;

  void* allocate(std::size_t n, std::size_t size, std::size_t align, int arena,
                 const void* type, bool arrays = false);
  void deallocate(void* p, std::size_t n, std::size_t size, int arena,
                  bool any_arena, const void* type);
  void born(const void* p, std::size_t size, int kind, How how);
  void died(const void* p, int kind);
  void assigned(const void* p, How how);
  void check_live(const void* p, int kind, const char* what);
};
extern Ledger L;

// Marks "the allocator is constructing/destroying at p"; restores on exit.
struct AllocScope {
  const void* prev;
  explicit AllocScope(const void* p) : prev(L.acons_at) { L.acons_at = p; }
  ~AllocScope() { L.acons_at = prev; }
};

struct Window {  // events between construction and destruction are counted
  Window() {
    L.win = Counts();
    L.fault_points = 0;
    L.window = true;
  }
  ~Window() { L.window = false; }
};

}  // namespace vp
#endif
