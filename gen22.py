"""Random programs for C22: owned types with random capabilities, and questions about them."""

CTORS = {
    'int': ('int', 'int'), 'cstr': ('const char*', 'const char*'), 'lv': ('Arg&', 'Arg&'),
    'clv': ('const Arg&', 'const Arg&'), 'rv': ('Arg&&', 'Arg'), 'two': ('int, int', ''),
    'list': ('std::initializer_list<int>', ''), 'list2': ('std::initializer_list<int>, int', ''),
    'listlv': ('std::initializer_list<int>, Arg&', ''), 'listrv': ('std::initializer_list<int>, Arg&&', ''),
    'listclv': ('std::initializer_list<int>, const Arg&', ''),
    'listunique': ('std::initializer_list<int>, std::unique_ptr<int>', ''),
    'unique': ('std::unique_ptr<int>', ''),
    'string': ('const std::string&', ''), 'alloc': ('std::allocator_arg_t', ''),
}
SPECIAL = ['default', 'delete', 'none']
ARGS = ['int', 'int&', 'const char*', 'Arg', 'Arg&', 'const Arg&', 'const Arg', 'Unrelated',
        'std::string', 'const std::string&', 'std::unique_ptr<int>', 'std::unique_ptr<int>&',
        'std::initializer_list<int>', 'std::allocator_arg_t', 'std::nullptr_t', 'double']
MANY = [('int', 'int'), ('int', 'int', 'int'), ('Arg&', 'int'), ('std::allocator_arg_t', 'int')]
ALLOCS = ['std::allocator', 'NoDef', 'ExplicitDef']


def gen_type(rng):
    copy = rng.choice(['default'] * 4 + ['delete', 'nonconst', 'explicit'])
    move = rng.choice(['none'] * 3 + ['default'] * 3 + ['delete'])
    if copy == 'delete' and move == 'none':
        move = rng.choice(['none', 'default'])
    return {
        'default': rng.choice(['yes'] * 3 + ['no', 'explicit', 'no', 'deleted']),
        'ctors': {c: rng.random() < 0.5 for c in CTORS if rng.random() < 0.3},
        'greedy': rng.choice(['', '', '', '', 'int', 'all']),
        'copy': copy, 'move': move,
        'cassign': rng.choice(['default'] * 3 + ['delete', 'none']),
        'massign': rng.choice(['none', 'none', 'default', 'delete']),
        'from': [a for a in ('int', 'const Arg&', 'Arg&&', 'const std::string&') if rng.random() < 0.25],
        'less': rng.choice(['no', 'yes', 'nonconst', 'void', 'three']),
        'hash': rng.choice(['no', 'yes', 'disabled']),
        'final': rng.random() < 0.2,
    }


def gen_poly(rng):
    b = {'abstract': rng.random() < 0.3, 'default': rng.random() < 0.6, 'copy': rng.random() < 0.75,
         'dtor': rng.choice(['virtual', 'virtual', 'public', 'protected'])}
    ds = []
    for _ in range(rng.randint(2, 4)):
        d = gen_type(rng)
        d['base'] = rng.choice(['public'] * 4 + ['private', 'virtual', 'ambiguous', 'unrelated', 'protected'])
        if b['dtor'] == 'protected' and rng.random() < 0.5:
            d['base'] = 'public'
        ds.append(d)
    return {'b': b, 'd': ds}


def gen(rng, poly):
    return {'a': rng.choice(['std::allocator'] * 3 + ALLOCS), 't': gen_poly(rng) if poly else gen_type(rng)}


def members(t, n, base=None):
    """base: an initialiser for the base, with its comma."""
    init = ' : %s' % base if base else ''
    o = []
    if t['default'] == 'deleted':
        o.append('  %s() = delete;' % n)
    elif t['default'] != 'no':
        o.append('  %s%s()%s {}' % ('explicit ' * (t['default'] == 'explicit'), n, init))
    for c, ex in sorted(t['ctors'].items()):
        o.append('  %s%s(%s)%s {}' % ('explicit ' * ex, n, CTORS[c][0], init))
    if t['greedy'] == 'int':
        o.append('  template <class X, typename std::enable_if<std::is_convertible<X, int>::value, int>::type = 0> '
                 'explicit %s(X&&)%s {}' % (n, init))
    elif t['greedy'] == 'all':
        o.append('  template <class X, typename std::enable_if<!std::is_same<bare<X>, %s>::value, int>::type = 0> '
                 '%s(X&&, Unrelated = Unrelated())%s {}' % (n, n, init))
    o.append({'default': '  %s(const %s&) = default;' % (n, n), 'delete': '  %s(const %s&) = delete;' % (n, n),
              'nonconst': '  %s(%s&)%s {}' % (n, n, init),
              'explicit': '  explicit %s(const %s&)%s {}' % (n, n, init)}[t['copy']])
    if t['move'] != 'none':
        o.append('  %s(%s&&) = %s;' % (n, n, t['move']) if not base or t['move'] == 'delete' else
                 '  %s(%s&&)%s {}' % (n, n, init))
    if t['cassign'] == 'none':
        o.append('  void operator=(const %s&) const {}' % n)
    else:
        o.append('  %s& operator=(const %s&) = %s;' % (n, n, t['cassign']))
    if t['massign'] != 'none':
        o.append('  %s& operator=(%s&&) = %s;' % (n, n, t['massign']))
    for f in t['from']:
        o.append('  %s& operator=(%s) { return *this; }' % (n, f))
    return o


def render(c, k, poly, cxx14):
    t, o = c['t'], []
    if poly:
        b = t['b']
        o.append('struct B%d {' % k)
        o.append('  B%d() {}' % k if b['default'] else '  explicit B%d(const int*) {}' % k)
        o.append('  B%d(const B%d&)%s' % (k, k, ' {}' if b['copy'] else ' = delete;'))
        o.append('  B%d& operator=(const B%d&) { return *this; }' % (k, k))
        d = b['dtor']
        if d == 'protected':
            o.append(' protected: ~B%d() {} public:' % k)
        else:
            o.append('  %s~B%d() {}' % ('virtual ' * (d == 'virtual'), k))
        if b['abstract']:
            o.append('  virtual int f() const = 0;')
        o.append('};')
        names = []
        for j, d in enumerate(t['d']):
            n = 'D%d_%d' % (k, j)
            B = 'B%d' % k
            init = '' if b['default'] or d['base'] in ('unrelated', 'ambiguous') else \
                '%s(static_cast<const int*>(nullptr))' % B
            if d['base'] == 'ambiguous':
                arg = '' if b['default'] else 'static_cast<const int*>(nullptr)'
                for s in 'xy':
                    o.append('struct M%d_%d%s : B%d { M%d_%d%s() : %s(%s) {} M%d_%d%s(const M%d_%d%s&) : %s(%s) {} %s};' % (
                        (k, j, s, k) + (k, j, s, B, arg) + (k, j, s) * 2 + (B, arg) +
                        ('int f() const { return 1; } ' * b['abstract'],)))
                inh = ' : M%d_%dx, M%d_%dy' % (k, j, k, j)
            elif d['base'] == 'unrelated':
                inh = ''
            else:
                inh = ' : %s %s' % (d['base'] if d['base'] != 'virtual' else 'public virtual', B)
            o.append('struct %s%s%s {' % (n, ' final' * d['final'], inh))
            o += members(d, n, init)
            if b['abstract'] and d['base'] != 'unrelated':
                o.append('  int f() const { return 1; }')
            o.append('};')
            names.append((n, d['base']))
        o.append('static void run%d() {' % k)
        o.append('  using F = Facts<B%d, %s<B%d>>;' % (k, c['a'], k))
        o.append('  F::all();')
        for n, base in names:
            o.append('  F::derived<%s>("%s");' % (n, base))
        if b['dtor'] != 'protected':
            o.append('  F::derived<B%d>("base");' % k)
        o.append('}')
        return '\n'.join(o) + '\n'
    n = 'T%d' % k
    o.append('struct %s%s {' % (n, ' final' * t['final']))
    o += members(t, n)
    o.append('};')
    less = {'yes': 'inline bool operator<(const {0}&, const {0}&) {{ return false; }}',
            'nonconst': 'inline bool operator<({0}&, {0}&) {{ return false; }}',
            'void': '', 'no': '',
            'three': 'inline std::partial_ordering operator<=>(const {0}&, const {0}&) '
                     '{{ return std::partial_ordering::unordered; }}' if not cxx14 else ''}[t['less']]
    if less:
        o.append(less.format(n))
    if t['hash'] == 'yes':
        o.append('template <> struct std::hash<%s> { std::size_t operator()(const %s&) const { return 1; } };' % (n, n))
    elif t['hash'] == 'disabled':
        o.append('template <> struct std::hash<%s> { hash() = delete; hash(const hash&) = delete; };' % n)
    o.append('static void run%d() {' % k)
    o.append('  using F = Facts<%s, %s<%s>>;' % (n, c['a'], n))
    o.append('  F::all();')
    for a in ARGS + [n, n + '&', 'const %s&' % n, 'const ' + n, 'To<%s>' % n, n + '*', 'F::H', 'F::H&',
                     'const F::H&', 'const F::H', 'xyz::indirect<Unrelated>',
                     'xyz::indirect<%s, %s<%s>>' % (n, 'ExplicitDef' if c['a'] != 'ExplicitDef' else 'NoDef', n)]:
        o.append('  F::one<%s>("%s");' % (a, a))
    for m in MANY:
        o.append('  F::many<%s>("%s");' % (', '.join(m), ', '.join(m)))
    for m in ('int', 'int, int', 'Unrelated', 'Arg', 'Arg&', 'const Arg&', 'std::unique_ptr<int>',
              'std::unique_ptr<int>&'):
        o.append('  F::list<%s>("%s");' % (m, m))
    for m in ('int', 'Arg&', 'Unrelated'):
        o.append('  F::bad_tags<%s>("%s");' % (m, m))
    o.append('}')
    return '\n'.join(o) + '\n'


def program(cs, poly, cxx14):
    o = ['#include "traits.hpp"']
    o += [render(c, k, poly, cxx14) for k, c in enumerate(cs)]
    o.append('int main() {')
    for k in range(len(cs)):
        o.append('  combo = %d; run%d();' % (k, k))
    o.append('  std::printf("DONE %d %d %d\\n", asked, failures, refused);')
    o.append('}')
    return '\n'.join(o) + '\n'


PLAIN = {'default': 'yes', 'ctors': {}, 'greedy': '', 'copy': 'default', 'move': 'none',
         'cassign': 'default', 'massign': 'none', 'from': [], 'less': 'no', 'hash': 'no', 'final': False}


def simpler(c, poly):
    """Simpler variants of a case, most drastic first."""
    if c['a'] != 'std::allocator':
        yield dict(c, a='std::allocator')

    def plainer(t):
        for k, v in PLAIN.items():
            if t[k] != v:
                yield dict(t, **{k: v})
        for x in sorted(t['ctors']):
            yield dict(t, ctors={k: v for k, v in t['ctors'].items() if k != x})
        for x in t['from']:
            yield dict(t, **{'from': [y for y in t['from'] if y != x]})
    if not poly:
        for t in plainer(c['t']):
            yield dict(c, t=t)
        return
    b, ds = c['t']['b'], c['t']['d']
    for i in range(len(ds)):
        yield dict(c, t={'b': b, 'd': ds[:i] + ds[i + 1:]})
    for k, v in (('abstract', False), ('default', True), ('copy', True), ('dtor', 'virtual')):
        if b[k] != v:
            yield dict(c, t={'b': dict(b, **{k: v}), 'd': ds})
    for i, d in enumerate(ds):
        for n in plainer(d):
            yield dict(c, t={'b': b, 'd': ds[:i] + [n] + ds[i + 1:]})
        if d['base'] != 'public':
            yield dict(c, t={'b': b, 'd': ds[:i] + [dict(d, base='public')] + ds[i + 1:]})
