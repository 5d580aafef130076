"""Random programs for C20: owned types and allocators of every shape."""

STATES = {
    'none': (), 'char': ('char c1 = 1;',), 'char3': ('char c3[3] = {1, 2, 3};',),
    'char9': ('char c9[9] = {};',), 'short': ('short s = 2;',), 'int': ('int i = 3;',),
    'double': ('double d = 4;',), 'ptr': ('void* q = nullptr;',),
    'two': ('void* q = nullptr;', 'char c = 1;'), 'mixed': ('char c = 1;', 'double d = 2;'),
    'big': ('char big[200] = {};',), 'shared': ('std::shared_ptr<int> sp = std::make_shared<int>(1);',),
    'string': ('std::string str = "an allocator with a string in it";',),
}
BASES = ['', 'struct_empty', 'std_allocator', 'struct_data', 'private_empty', 'two_empty']


# Which special members the composite declares; the others are implicit, and what
# they need may be looked at while the owned type is incomplete.
HOLDERS = [('()', '(const C&)', '~'), ('()', '~'), ('()', '(const C&)'),
           ('()', '(const C&)', '(C&&)', '=const C&', '=C&&', '~'), ('()', '(const C&)', '=C&&', '~'), ('()',), ()]


def gen(rng, poly, overaligned=True):
    """overaligned: new and std::allocator handle it (C++17)."""
    a = {
        'state': rng.choice(['none'] * 8 + sorted(STATES)),
        'final': rng.random() < 0.3,
        'base': rng.choice(BASES) if rng.random() < 0.5 else '',
        'virtual': rng.random() < 0.1,
        'align': rng.choice([0] * 8 + [1, 2, 16] + [64] * overaligned),
        'default': rng.random() < 0.7,
        'ae': rng.randrange(3),            # not given, true, false
        'prop': rng.randrange(8),
        'members': rng.random() < 0.3,     # members with the names handles use
        'construct': rng.random() < 0.3,
        'std': rng.random() < 0.12,        # std::allocator instead
    }
    t = {
        'size': rng.choice([0, 1, 2, 3, 8, 24, 100, 5000]),
        'align': rng.choice([0] * 5 + [16] + [32, 128] * overaligned),
        'final': rng.random() < 0.2,
        'virtual': rng.random() < 0.3,
        'abstract': poly and rng.random() < 0.4,
        'amp': rng.random() < 0.2,
        'scalar': not poly and rng.random() < 0.15,
        'incomplete': rng.random() < 0.5,
        'self': rng.random() < 0.2,        # holds a handle of its own type
    }
    members = [rng.choice(['handle', 'char', 'int', 'double', 'vector', 'handle'])
               for _ in range(rng.randint(1, 5))]
    return {'a': a, 't': t, 'm': members, 'holder': rng.randrange(len(HOLDERS))}


SIMPLE = {'a': {'state': 'none', 'final': False, 'base': '', 'virtual': False, 'align': 0,
                'default': True, 'ae': 0, 'prop': 0, 'members': False, 'construct': False,
                'std': False},
          't': {'size': 0, 'align': 0, 'final': False, 'virtual': False, 'abstract': False,
                'amp': False, 'scalar': False, 'incomplete': False, 'self': False},
          'm': ['handle'], 'holder': 0}


def alloc_empty(a):
    return a['std'] or (a['state'] == 'none' and not a['virtual'] and a['base'] != 'struct_data')


def render_alloc(a, k):
    if a['std']:
        return ''
    # A base that is a dependent class must not make the type look final etc.
    base = {'': '', 'struct_empty': ' : E1', 'private_empty': ' : private E1',
            'std_allocator': ' : std::allocator<T>', 'struct_data': ' : D1',
            'two_empty': ' : E1, private E2'}[a['base']]
    align = 'alignas(%d) ' % a['align'] if a['align'] and (
        a['align'] >= 16 or alloc_empty(a)) else ''
    o = ['template <class T>', 'struct %sA%d%s%s {' % (align, k, ' final' if a['final'] else '', base)]
    o.append('  using value_type = T;')
    o.append('  template <class U> struct rebind { using other = A%d<U>; };' % k)
    if a['base'] == 'std_allocator':
        a = dict(a, ae=a['ae'] or 1)
    if a['ae']:
        o.append('  using is_always_equal = std::%s_type;' % ('true' if a['ae'] == 1 else 'false'))
    for bit, n in enumerate(('copy_assignment', 'move_assignment', 'swap')):
        # Given explicitly: std::allocator as a base has them too.
        o.append('  using propagate_on_container_%s = std::%s_type;' % (
            n, 'true' if a['prop'] >> bit & 1 else 'false'))
    o += ['  ' + m for m in STATES[a['state']]]
    if a['default']:
        o.append('  A%d() {}' % k)
    o.append('  explicit A%d(int) {}' % k)
    o.append('  A%d(const A%d&) = default;' % (k, k))
    o.append('  A%d& operator=(const A%d&) = default;' % (k, k))
    o.append('  template <class U> A%d(const A%d<U>&) noexcept {}' % (k, k))
    if a['virtual']:
        o.append('  virtual ~A%d() {}' % k)
        o.append('  virtual int size() const { return 0; }')
    o.append('  T* allocate(std::size_t n) { return static_cast<T*>(raw(n * sizeof(T), alignof(T))); }')
    o.append('  void deallocate(T* p, std::size_t n) { unraw(p, n * sizeof(T), alignof(T)); }')
    if a['construct']:
        o.append('  template <class U, class... As> void construct(U* p, As&&... as) '
                 '{ ::new (static_cast<void*>(p)) U(std::forward<As>(as)...); }')
        o.append('  template <class U> void destroy(U* p) { p->~U(); }')
    if a['members']:
        o.append('  int get() const { return 1; }')
        o.append('  int p_() const { return 1; }')
        o.append('  int t_() const { return 1; }')
        o.append('  int reset() const { return 1; }')
        o.append('  int valueless_after_move() const { return 1; }')
        o.append('  int operator*() const { return 1; }')
    o.append('  friend bool operator==(const A%d&, const A%d&) { return true; }' % (k, k))
    o.append('  friend bool operator!=(const A%d&, const A%d&) { return false; }' % (k, k))
    o.append('};')
    return '\n'.join(o) + '\n'


def render(c, k, poly):
    a, t = c['a'], c['t']
    o = [render_alloc(a, k)]
    T = 'double' if t['scalar'] else 'T%d' % k
    A = 'std::allocator<%s>' % T if a['std'] else 'A%d<%s>' % (k, T)
    handle = 'xyz::%s<%s, %s>' % ('polymorphic' if poly else 'indirect', T, A)
    body = []
    if not t['scalar']:
        o.append('struct T%d;' % k)
    early = t['incomplete'] and not t['scalar']
    self = t['self'] and not t['scalar']
    H = 'H%d' % k
    o.append('using %s = %s;' % (H, handle))
    o.append('namespace {')
    # A composite, defined while the owned type may still be incomplete.
    comp = []
    ptrs = []
    for i, m in enumerate(c['m']):
        if m == 'handle':
            comp.append('  %s m%d;' % (H, i))
            ptrs.append('  PtrOf%d m%d;' % (k, i))
        elif m == 'vector':
            comp.append('  std::vector<%s> m%d;' % (H, i))
            ptrs.append('  std::vector<PtrOf%d> m%d;' % (k, i))
        else:
            comp.append('  %s m%d;' % (m, i))
            ptrs.append('  %s m%d;' % (m, i))
    facts = []
    if early:
        facts.append('constexpr std::size_t early_size%d = sizeof(%s), early_align%d = alignof(%s);'
                     % (k, H, k, H))
    facts.append('struct PtrOf%d { alignas(alignof(%s)) unsigned char b[sizeof(%s)]; };' % (k, H, H))
    special = []
    defs = []
    for x in HOLDERS[c['holder']]:
        C = 'Comp%d' % k
        arg = x.replace('C', C)
        if x == '~':
            special.append('  ~%s();' % C)
            defs.append('%s::~%s() = default;' % (C, C))
        elif x == '()':
            special.append('  %s();' % C)
        elif x[0] == '=':
            special.append('  %s& operator=(%s);' % (C, arg[1:]))
            defs.append('%s& %s::operator=(%s) = default;' % (C, C, arg[1:]))
        else:
            special.append('  %s%s;' % (C, arg))
            defs.append('%s::%s%s = default;' % (C, C, arg))
    facts.append('struct Comp%d {\n%s\n%s\n};' % (k, '\n'.join(comp), '\n'.join(special)))
    facts.append('struct Plain%d {\n%s\n};' % (k, '\n'.join(ptrs)))
    derived = 'struct Derived%d : %s {\n  using %s::%s;\n};' % (
        k, H, H, 'polymorphic' if poly else 'indirect')
    if early:
        o.append('}')
        o.append('namespace {')
        o += facts
        o.append('constexpr std::size_t early_comp%d = sizeof(Comp%d);' % (k, k))
    o.append('}')
    if not t['scalar']:
        align = 'alignas(%d) ' % t['align'] if t['align'] else ''
        fin = ' final' if t['final'] and not t['abstract'] else ''
        o.append('struct %sT%d%s {' % (align, k, fin))
        if t['size']:
            o.append('  unsigned char bytes[%d] = {};' % t['size'])
        o.append('  int v;')
        if self:
            o.append('  std::vector<%s> kids;' % H)
        o.append('  explicit T%d(int x = 0) : v(x) {}' % k)
        if t['virtual'] or t['abstract']:
            o.append('  virtual ~T%d() = default;' % k)
            o.append('  T%d(const T%d&) = default;\n  T%d& operator=(const T%d&) = default;' %
                     (k, k, k, k))
        if t['abstract']:
            o.append('  virtual int it() const = 0;')
        if t['amp']:
            o.append('  void operator&() const = delete;')
        o.append('};')
        if t['abstract']:
            o.append('struct U%d%s : T%d {\n  using T%d::T%d;\n  double more[2] = {};\n'
                     '  int it() const override { return v; }\n};' %
                     (k, ' final' if t['final'] else '', k, k, k))
    if not early:
        o.append('namespace {')
        o += facts
        o.append('}')
    o.append('namespace {')
    o.append(derived)
    o += defs
    U = 'U%d' % k if t['abstract'] else T
    name = '"combo %d"' % k
    make = 'std::allocator_arg, a, ' + ('VP_IN_PLACE_TYPE(%s), v' % U if poly else 'VP_IN_PLACE, v')
    o.append('void run%d() {' % k)
    o.append('  c20::layout<%s, %s>(%s);' % (H, A, name))
    if early:
        o.append('  c20::expect(early_size%d == sizeof(%s) && early_align%d == alignof(%s), %s, '
                 '"size while the owned type is incomplete");' % (k, H, k, H, name))
    o.append('  c20::expect(sizeof(Comp%d) == sizeof(Plain%d), %s, "size of a composite", '
             'sizeof(Comp%d), sizeof(Plain%d));' % (k, k, name, k, k))
    o.append('  c20::expect(sizeof(Derived%d) == sizeof(%s), %s, "a class derived from the handle");'
             % (k, H, name))
    two = '%s a1 = c20mk<%s>(1), a2 = c20mk<%s>(2);' % (A, A, A)
    o.append('  ' + two)
    o.append('  auto mk = [](const %s& a, int v) { return %s(%s); };' % (A, H, make))
    o.append('  c20::use<%s>(%s, a1, a2, true, mk, [](const %s& t) { return %s; });' % (
        H, name, T, 'int(t)' if t['scalar'] else 't.v'))
    if self:
        o.append('  { %s h = mk(a1, 1); h->kids.push_back(mk(a1, 7)); %s g(h); '
                 'g->kids[0]->v = 8; c20::expect(h->kids[0]->v == 7 && g->kids[0]->v == 8, %s, '
                 '"recursive values"); }' % (H, H, name))
    o.append('}')
    o.append('}')
    return '\n'.join(o) + '\n'


def program(combos, poly):
    o = ['#include "c20.hpp"', 'namespace {',
         'void* raw(std::size_t n, std::size_t al) { return al > 16 ? '
         '__builtin_assume_aligned(::aligned_alloc(al, (n + al - 1) / al * al), 1) : ::operator new(n); }',
         'void unraw(void* p, std::size_t, std::size_t al) { if (al > 16) std::free(p); '
         'else ::operator delete(p); }',
         'struct E1 {}; struct E2 {}; struct D1 { int d1 = 3; };',
         'template <class A> A c20mk_(int, std::true_type) { return A(); }',
         'template <class A> A c20mk_(int x, std::false_type) { return A(x); }',
         'template <class A> A c20mk(int x) { return c20mk_<A>(x, '
         'std::integral_constant<bool, !std::is_constructible<A, int>::value>{}); }', '}']
    o += [render(c, i, poly) for i, c in enumerate(combos)]
    o.append('int main() {')
    o += ['  run%d();' % i for i in range(len(combos))]
    o.append('  std::printf("DONE %ld %d\\n", c20::checks, c20::failures);\n'
             '  return c20::failures ? 3 : 0;\n}')
    return '#include <cstdlib>\n' + '\n'.join(o)
