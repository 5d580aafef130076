// The history engine: operations, the abstract binding to one instantiation of
// a handle type, and the reference model.
#ifndef VP_ENGINE_HPP
#define VP_ENGINE_HPP
#include <cstdint>
#include <string>
#include <vector>

#include "ledger.hpp"

namespace vp {

enum Code {
  CREATE, COPY_CTOR, COPY_CTOR_A, MOVE_CTOR, MOVE_CTOR_A, COPY_ASSIGN,
  MOVE_ASSIGN, SWAP, MUTATE, VALUE_ASSIGN, TAKE, DESTROY, COMPARE, N_CODE
};
extern const char* const code_name[N_CODE];

enum CreateHow {
  C_DEF, C_RVALUE, C_LVALUE, C_CLVALUE, C_INPLACE1, C_INPLACE2, C_ILIST,
  N_CREATE
};
extern const char* const create_name[N_CREATE];

struct Op {
  int code = 0;
  int a = 0, b = 0;    // slots (resolved against what is alive)
  int how = 0;         // variant of the operation
  int kind = 0;        // dynamic type (polymorphic)
  int v = 0;           // value
  int ext = 0;         // explicit allocator?
  int arena = 0;       // arena of the explicit allocator
  int fault = 0;       // 0 none, k: k-th fault point, -1: every fault point
};
struct Case {
  int sweep = -1;  // index of an op whose fault points are all tried in turn
  std::vector<Op> ops;
};
std::string to_text(const Case&);
bool from_text(const std::string&, Case&);

struct Snap {
  bool empty = true;
  int kind = 0, value = 0;
  const void* addr = nullptr;
  int arena = 0, label = 0;
};

enum { SLOTS = 5 };

struct Traits {
  bool indirect = true;
  bool pocca = false, pocma = false, pocs = false, ae = false, socc = false,
       cons = false;
  bool stateless = false;  // allocators carry no label
  bool global = false;     // std::allocator
  int kinds = 1, kind0 = 0;
};
struct KindTraits {
  bool has_move = true, nothrow_move = false, nonconst = false;
  // Ordinary types that keep no books: their work is not counted.
  bool plain = false, assignable = true, copyable = true;
  int (*norm)(int) = nullptr;      // value stored for v
  int (*moved)(int) = nullptr;     // value left behind by a move
  int (*cmp)(int, int) = nullptr;  // -1 0 1, 2 unordered
};
KindTraits kind_traits(int kind);

// One instantiation of the code under test. Slots hold raw storage.
struct Iface {
  virtual ~Iface() = default;
  virtual Traits traits() const = 0;
  // All of these open the event window exactly around the operation.
  virtual void create(int d, int how, int kind, int v, bool ext, int arena,
                      int label) = 0;
  virtual void copy_ctor(int d, int s, bool ext, int arena, int label) = 0;
  virtual void move_ctor(int d, int s, bool ext, int arena, int label) = 0;
  virtual bool copy_assign(int d, int s) = 0;  // returned *this?
  virtual bool move_assign(int d, int s) = 0;
  virtual void swap(int a, int b, int how) = 0;
  virtual void mutate(int d, int how, int v) = 0;
  virtual bool value_assign(int d, int how, int v, int s) = 0;
  virtual void take(int s) = 0;
  virtual void destroy(int d) = 0;
  virtual int compare(int a, int b) = 0;  // bit mask == != < > <= >=
  virtual Snap snap(int s) = 0;
};

typedef Iface* (*Factory)();
struct Entry {
  int index;
  const char* name;
  Factory make;
};
// Filled in by the binding translation units (one per slice of the table).
std::vector<Entry>& entries();
struct Registrar {
  Registrar(int index, const char* name, Factory make);
};

}  // namespace vp
#endif
