"""Random programs for C21: several translation units that include the headers of the
library in random orders, built in different ways, and pass handles to each other."""

PAIRS = {  # family -> (indirect header, polymorphic header, standards)
    '20': ('indirect.h', 'polymorphic.h', ('20', '23')),
    '14': ('indirect_cxx14.h', 'polymorphic_cxx14.h', ('14', '17', '20', '23')),
    'i20p14': ('indirect.h', 'polymorphic_cxx14.h', ('20', '23')),
    'i14p20': ('indirect_cxx14.h', 'polymorphic.h', ('20', '23')),
}
HELPERS = ['feature_check.h', 'tracking_allocator.h', 'tagged_allocator.h', 'test_helpers.h']
STD = ['cassert', 'cstddef', 'memory', 'utility', 'type_traits', 'functional', 'string', 'vector',
       'initializer_list', 'algorithm', 'new', 'cstdint', 'iostream']
TYPES = ['I0', 'I1', 'P0', 'P1']
SLOTS = 3
OPS = ['copy', 'move', 'copy_assign', 'move_assign', 'swap', 'member_swap', 'renew', 'set',
       'compare', 'hash']


def gen_tu(rng, fam, both):
    ind, pol, stds = PAIRS[fam]
    must = [ind, pol]
    inc = list(must)
    for h in HELPERS:
        if rng.random() < 0.35:
            inc.append(h)
    if rng.random() < 0.5:
        inc += rng.choices(must + HELPERS[:2], k=rng.randint(1, 3))  # again
    if rng.random() < 0.5:
        inc += ['<%s>' % h for h in rng.sample(STD, rng.randint(1, 3))]
    rng.shuffle(inc)
    return {'inc': inc, 'std': rng.choice(stds), 'cxx': rng.choice(['g++', 'clang++']),
            'ndebug': rng.random() < 0.5, 'opt': rng.choice(['-O0', '-O0', '-O1', '-O2']),
            'rtti': both['rtti'], 'after': rng.random() < 0.3}


def gen(rng):
    fam = rng.choice(['20', '20', '14', '14', '14', 'i20p14', 'i14p20'])
    both = {'rtti': rng.random() < 0.8}
    n = rng.randint(2, 4)
    tus = [gen_tu(rng, fam, both) for _ in range(n)]
    steps = []
    for _ in range(rng.randint(20, 60)):
        op = rng.choice(OPS)
        t = 'I0' if op in ('compare', 'hash') else rng.choice(TYPES)
        steps.append([op, t, rng.randrange(n), rng.randrange(SLOTS), rng.randrange(SLOTS),
                      rng.randrange(3), rng.randrange(50)])
    return {'fam': fam, 'tus': tus, 'steps': steps, 'main_last': rng.random() < 0.5,
            'linker': rng.choice(['g++', 'clang++'])}


FEATURES = ['XYZ_HAS_STD_OPTIONAL', 'XYZ_HAS_STD_IN_PLACE_TYPE_T', 'XYZ_HAS_STD_IN_PLACE_T',
            'XYZ_HAS_TEMPLATE_ARGUMENT_DEDUCTION', 'XYZ_HAS_STD_MEMORY_RESOURCE',
            'XYZ_HAS_STD_THREE_WAY_COMPARISON']
USES = {  # what each feature macro promises
    'XYZ_HAS_STD_OPTIONAL': ('#include <optional>', 'std::optional<int> o(3); n += *o == 3;'),
    'XYZ_HAS_STD_IN_PLACE_TYPE_T': ('#include <utility>', 'n += sizeof(std::in_place_type_t<int>) == 1;'),
    'XYZ_HAS_STD_IN_PLACE_T': ('#include <utility>', 'n += sizeof(std::in_place_t) == 1;'),
    'XYZ_HAS_TEMPLATE_ARGUMENT_DEDUCTION': ('#include <utility>', 'std::pair p(1, 2.5); n += p.first == 1;'),
    'XYZ_HAS_STD_MEMORY_RESOURCE': ('#include <memory_resource>',
                                    'n += std::pmr::get_default_resource() != nullptr;'),
    'XYZ_HAS_STD_THREE_WAY_COMPARISON': ('#include <compare>', 'n += (1 <=> 2) < 0;'),
}


def features(tu):
    """The macros a translation unit must have, or None when it never asked."""
    if 'feature_check.h' not in tu['inc'] and 'indirect_cxx14.h' not in tu['inc']:
        return None
    if 'feature_check.h' not in tu['inc']:
        return None     # indirect_cxx14.h need not bring them
    s = int(tu['std'])
    return [s >= 17] * 5 + [s >= 20]


def render_tu(tu, k):
    o = []
    for h in tu['inc']:
        o.append('#include %s' % (h if h[0] == '<' else '"%s"' % h))
    f = features(tu)
    if f is not None:
        for m, on in zip(FEATURES, f):
            o.append('#if%sdef %s\n#error FEATURE %s should %sbe defined with C++%s\n#endif' % (
                'n' if on else '', m, m, '' if on else 'not ', tu['std']))
    o.append('#include "types.hpp"')
    if tu['after']:     # and once more after use
        o += ['#include "%s"' % h for h in tu['inc'] if h[0] != '<']
    if f is not None:
        o += [USES[m][0] for m, on in zip(FEATURES, f) if on]
    o.append('namespace tu%d {' % k)
    o.append('int features() { int n = 0; (void)n;')
    n = 0
    if f is not None:
        for m, on in zip(FEATURES, f):
            if on:
                n += 1
                o.append('  { %s }' % USES[m][1])
    o.append('  return n == %d; }' % n)
    if 'tracking_allocator.h' in tu['inc']:
        o.append('static_assert(sizeof(xyz::TrackingAllocator<int>) == 2 * sizeof(unsigned*), "");')
        o.append('inline int track() { unsigned a = 0, d = 0; xyz::TrackingAllocator<int> t(&a, &d); '
                 'int* p = t.allocate(2); t.deallocate(p, 2); return static_cast<int>(a + d); }')
    if 'tagged_allocator.h' in tu['inc']:
        o.append('inline int tagged() { xyz::TaggedAllocator<int> t(5); int* p = t.allocate(2); '
                 't.construct(p, 4); int r = *p; t.deallocate(p, 2); return r; }')
    for t in TYPES:
        o.append('extern const vp::Ops<vp::%s> %s;' % (t, t))
        o.append('const vp::Ops<vp::%s> %s = vp::Do<vp::%s>::ops();' % (t, t, t))
    o.append('extern const vp::Cmp cmp;')
    o.append('const vp::Cmp cmp = {vp::compare, vp::hash, features};')
    o.append('}')
    return '\n'.join(o) + '\n'


def kind_name(t, kind, arena):
    return {'I0': 0, 'I1': arena, 'P0': kind, 'P1': kind + 10 * arena}[t]


def script(c):
    """The main function and what it has to print."""
    n = len(c['tus'])
    st = {t: [{'v': i, 'k': i if t[0] == 'P' else 0, 'a': i} for i in range(SLOTS)] for t in TYPES}
    out, exp = [], []
    hard = 0

    def live():
        return sum(1 for t in TYPES for s in st[t] if s['v'] is not None)

    def blocks():
        return sum(1 for t in ('I1', 'P1') for s in st[t] if s['v'] is not None)
    last = {}
    for i, (op, t, u, a, b, k, v) in enumerate(c['steps']):
        u %= n
        A, B = st[t][a], st[t][b]
        h = '%s[%d]' % (t, a), '%s[%d]' % (t, b)
        f = 'tu%d::%s' % (u, t)
        r = None
        if op in ('move', 'move_assign', 'copy', 'copy_assign') and last.get((t, b), u) != u:
            hard += 1
        if op == 'copy':
            if a == b:
                continue
            out.append('{ vp::%s x(%s.copy(%s)); put(x, %s); }' % (t, f, h[1], h[0]))
            st[t][a] = dict(B)
        elif op == 'move':
            if a == b:
                continue
            out.append('{ vp::%s x(%s.move(%s)); put(x, %s); }' % (t, f, h[1], h[0]))
            st[t][a] = dict(B)
            B['v'] = None
        elif op == 'copy_assign':
            out.append('%s.copy_assign(%s, %s);' % (f, h[0], h[1]))
            A['v'], A['k'] = B['v'], B['k']
        elif op == 'move_assign':
            if t in ('I1', 'P1') and A['a'] != B['a']:
                continue    # whether the source keeps an object is left open
            out.append('%s.move_assign(%s, %s);' % (f, h[0], h[1]))
            if a != b:
                A['v'], A['k'] = B['v'], B['k']
                B['v'] = None
        elif op in ('swap', 'member_swap'):
            if t in ('I1', 'P1') and A['a'] != B['a']:
                continue
            out.append('%s.%s(%s, %s);' % (f, op, h[0], h[1]))
            if a != b:
                A['v'], B['v'] = B['v'], A['v']
                A['k'], B['k'] = B['k'], A['k']
        elif op == 'renew':
            out.append('%s.renew(%s, %d, %d);' % (f, h[0], k, v))
            st[t][a] = {'v': v, 'k': k if t[0] == 'P' else 0, 'a': k}
        elif op == 'set':
            if t[0] == 'P' and A['v'] is None:
                continue
            out.append('%s.set(%s, %d);' % (f, h[0], v))
            A['v'] = v
        elif op == 'compare':
            x, y = [-1 if s['v'] is None else s['v'] for s in (A, B)]
            r = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5
            out.append('std::printf("%%d\\n", tu%d::cmp.compare(%s, %s));' % (u, h[0], h[1]))
            exp.append(str(r))
        elif op == 'hash':
            if A['v'] is None:      # the same everywhere
                out.append('std::printf("%%d\\n", tu%d::cmp.hash(%s) == tu0::cmp.hash(gone));' % (u, h[0]))
                exp.append('1')
            else:
                out.append('std::printf("%%lu\\n", tu%d::cmp.hash(%s));' % (u, h[0]))
                exp.append(str(A['v'] * 31 + 5))
        last[(t, a)] = u
        # Every state, read by another translation unit.
        w = (u + 1 + i) % n
        out.append('at(%d); show(tu%d::%s, %s);' % (i, w, t, t))
        exp.append('%d:%s' % (i, ''.join(' -' if s['v'] is None else ' %d/%d' % (
            s['v'], kind_name(t, s['k'], s['a'])) for s in st[t])))
        out.append('std::printf("%d %d\\n", user::objects, (int)(vp::allocs - vp::deallocs));')
        exp.append('%d %d' % (live(), blocks()))
    for k in range(n):
        out.append('std::printf("%%d\\n", tu%d::cmp.features());' % k)
        exp.append('1')
        for t in TYPES:
            out.append('std::printf("%%d\\n", tu%d::%s.size() == sizeof(vp::%s) && '
                       'tu%d::%s.align() == alignof(vp::%s));' % (k, t, t, k, t, t))
            exp.append('1')
    return out, exp, hard


def render_main(c, out):
    ind, pol, _ = PAIRS[c['fam']]
    o = ['#include "%s"' % ind, '#include "%s"' % pol, '#include "types.hpp"', '#include <cstdio>',
         'namespace user { int objects = 0; }', 'namespace vp { unsigned allocs = 0, deallocs = 0; }']
    for k in range(len(c['tus'])):
        o.append('namespace tu%d {' % k)
        for t in TYPES:
            o.append('extern const vp::Ops<vp::%s> %s;' % (t, t))
        o.append('extern const vp::Cmp cmp; }')
    o.append('''
static void at(int i) { std::printf("%d:", i); }
template <class H>
void show(const vp::Ops<H>& f, H* h) {
  for (int i = 0; i < 3; ++i) {
    if (f.valueless(h[i])) std::printf(" -");
    else std::printf(" %d/%d", f.get(h[i]), f.kind(h[i]));
  }
  std::printf("\\n");
}
template <class H>
void put(H& x, H& to) {
  to.~H();
  ::new (static_cast<void*>(std::addressof(to))) H(std::move(x));
}
int main() {
  {
    vp::I0 gone(user::V(1));
    { vp::I0 x(std::move(gone)); }''')
    n = len(c['tus'])
    for j, t in enumerate(TYPES):
        o.append('    vp::%s %s[3] = {vp::Make<vp::%s>::go(0, 0), vp::Make<vp::%s>::go(1, 1), '
                 'vp::Make<vp::%s>::go(2, 2)};' % (t, t, t, t, t))
    o += ['    ' + l for l in out]
    o.append('  }')
    o.append('  std::printf("end %d %d\\n", user::objects, (int)(vp::allocs - vp::deallocs));')
    o.append('}')
    return '\n'.join(o) + '\n'
