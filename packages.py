"""C24: projects that use the library as an installed package or as a subdirectory."""
import json
import os
import random
import re
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

from vlib import Inconclusive, JOBS, REPO, Violation, crash_message, ddmin, sh

NAMES = {  # target -> (kind, header, lowest standard)
    'indirect': ('i', 'indirect.h', 20), 'polymorphic': ('p', 'polymorphic.h', 20),
    'indirect_cxx14': ('i', 'indirect_cxx14.h', 14), 'indirect_cxx17': ('i', 'indirect_cxx14.h', 17),
    'polymorphic_cxx14': ('p', 'polymorphic_cxx14.h', 14),
    'polymorphic_cxx17': ('p', 'polymorphic_cxx14.h', 17),
}
WHOLE = 'xyz_value_types'
VERSIONS = {None: True, '0': True, '0.0': True, '0.0.1': True, '0.0.0': True, '0.0.2': False, '0.1': False,
            '1.0': False, '1': False}
OPS = ['copy', 'move', 'copy_assign', 'move_assign', 'swap', 'set', 'make']
SLOTS = 3


def gen_steps(rng):
    return [[rng.choice(OPS), rng.randrange(SLOTS), rng.randrange(SLOTS), rng.randrange(100)]
            for _ in range(rng.randint(4, 20))]


def gen_program(rng, target):
    """One executable: the target it links, the header it uses, standard, steps, units."""
    if target == WHOLE:
        kind = rng.choice('ip')
        low, hdr = 20, {'i': 'indirect.h', 'p': 'polymorphic.h'}[kind]
    else:
        kind, hdr, low = NAMES[target]
    return {'target': target, 'kind': kind, 'hdr': hdr,
            'std': rng.choice([None, None] + [x for x in (14, 17, 20, 23) if x >= low]),
            'through': rng.random() < 0.3,      # linked by way of another library
            'both': target == WHOLE and rng.random() < 0.5,
            'steps': gen_steps(rng)}


def gen(rng, i):
    mode = rng.choice(['installed', 'installed', 'moved', 'subdir', 'subdir'])
    if i in (0, 400, 800):
        mode = 'top'
    c = {'mode': mode, 'generator': rng.choice(['Ninja', 'Ninja', 'Unix Makefiles']),
         'cxx': rng.choice(['g++', 'clang++']), 'type': rng.choice(['', 'Debug', 'Release']),
         'space': rng.random() < 0.3, 'ext': rng.random() < 0.5,
         'include': rng.choice(['include', 'include', 'include/xyz', 'headers']),
         'find': rng.choice(['prefix', 'prefix', 'dir']), 'twice': rng.random() < 0.3,
         'version': rng.choice([None, None] + sorted(k for k in VERSIONS if k)),
         'nested': rng.random() < 0.3}
    if mode in ('installed', 'moved'):
        targets = [WHOLE]
    else:
        c['version'] = None
        targets = [WHOLE] + sorted(NAMES)
    c['programs'] = [gen_program(rng, rng.choice(targets)) for _ in range(rng.randint(1, 4))]
    return c


def run_model(p):
    """The lines the program prints, and the program's statements."""
    v = [i * 10 for i in range(SLOTS)]
    code, out = [], []
    for op, a, b, x in p['steps']:
        A, B = 's[%d]' % a, 's[%d]' % b
        if op == 'copy':
            if v[b] is None:
                code.append('{ H t(%s); %s = t; }' % (B, A))
            else:
                code.append('{ H t(%s); put(t, %d); put(%s, get(t)); }' % (B, x, 's[0]'))
                if v[0] is not None:
                    v[0] = x
                out.append(v[0])
                code.append('show(s[0]);')
                continue
            v[a] = None
        elif op == 'move':
            if a == b:
                continue
            code.append('{ H t(std::move(%s)); %s = std::move(t); }' % (B, A))
            v[a], v[b] = v[b], None
        elif op == 'copy_assign':
            code.append('{ const H& c = %s; %s = c; }' % (B, A))
            v[a] = v[b]
        elif op == 'move_assign':
            if a == b:
                continue
            code.append('%s = std::move(%s);' % (A, B))
            v[a], v[b] = v[b], None
        elif op == 'swap':
            code.append('{ using std::swap; swap(%s, %s); }' % (A, B))
            v[a], v[b] = v[b], v[a]
        elif op == 'set':
            code.append('put(%s, %d);' % (A, x))
            if v[a] is not None:
                v[a] = x
        else:
            code.append('%s = make(%d);' % (A, x))
            v[a] = x
        code.append('show(%s);' % A)
        out.append(v[a])
    out += v
    return code, ['-' if x is None else str(x) for x in out]


def source(p):
    c14 = 'cxx14' in p['hdr']
    o = ['#include "%s"' % p['hdr']]
    if p['both']:
        o.append('#include "%s"' % ('polymorphic.h' if p['kind'] == 'i' else 'indirect.h'))
    if c14:
        m = 'XYZ_%s_CXX_14' % ('INDIRECT' if p['kind'] == 'i' else 'POLYMORPHIC')
        o.append('#ifndef %s\n#error %s is not defined\n#endif' % (m, m))
    low = 20 if not c14 else 14 if p['target'].endswith('14') else 17
    o.append('#if __cplusplus < %s\n#error the standard is too old\n#endif' %
             {14: '201402L', 17: '201703L', 20: '202002L'}[low])
    o += ['#include <cstdio>', '#include <string>', '#include <utility>']
    tag = 'xyz' if c14 else 'std'
    if p['kind'] == 'i':
        o += ['struct V { std::string s; explicit V(int i) : s(std::to_string(i)) {} };',
              'using H = xyz::indirect<V>;',
              'H make(int i) { return H(%s::in_place_t{}, i); }' % tag,
              'void put(H& h, int i) { if (!h.valueless_after_move()) h->s = std::to_string(i); }',
              'int get(const H& h) { return std::stoi(h->s); }']
    else:
        o += ['struct B { virtual ~B() = default; virtual int get() const = 0; virtual void put(int) = 0; };',
              'struct D : B { std::string s; explicit D(int i) : s(std::to_string(i)) {}',
              '  int get() const override { return std::stoi(s); }',
              '  void put(int i) override { s = std::to_string(i); } };',
              'using H = xyz::polymorphic<B>;',
              'H make(int i) { return H(%s::in_place_type_t<D>{}, i); }' % tag,
              'void put(H& h, int i) { if (!h.valueless_after_move()) h->put(i); }',
              'int get(const H& h) { return h->get(); }']
    o += ['void show(const H& h) { if (h.valueless_after_move()) std::puts("-"); else std::printf("%d\\n", get(h)); }',
          'int main() {', '  H s[] = {%s};' % ', '.join('make(%d)' % (i * 10) for i in range(SLOTS))]
    code, _ = run_model(p)
    o += ['  ' + x for x in code]
    o.append('  for (auto& h : s) show(h);\n}')
    return '\n'.join(o) + '\n'


def lists(c, where):
    """The consumer's CMakeLists.txt (and that of a directory below it)."""
    o = ['cmake_minimum_required(VERSION 3.22)', 'project(consumer CXX)']
    if not c['ext']:
        o.append('set(CMAKE_CXX_EXTENSIONS OFF)')
    if c['mode'] == 'subdir':
        use = ['add_subdirectory("%s" value_types)' % where]
    else:
        v = ' ' + c['version'] if c['version'] else ''
        use = ['find_package(xyz_value_types%s REQUIRED CONFIG)' % v] * (2 if c['twice'] else 1)
    progs = []
    for k, p in enumerate(c['programs']):
        lib = 'xyz_value_types::' + ('value_types' if c['mode'] == 'subdir' and p['target'] == WHOLE
                                     else p['target'])
        progs.append('add_executable(m%d "${CMAKE_SOURCE_DIR}/m%d.cc")' % (k, k))
        if p['through']:
            progs += ['add_library(l%d INTERFACE)' % k, 'target_link_libraries(l%d INTERFACE %s)' % (k, lib)]
            lib = 'l%d' % k
        progs.append('target_link_libraries(m%d PRIVATE %s)' % (k, lib))
        if p['std']:
            progs.append('set_target_properties(m%d PROPERTIES CXX_STANDARD %d CXX_STANDARD_REQUIRED ON)' %
                         (k, p['std']))
        progs.append('set_target_properties(m%d PROPERTIES RUNTIME_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}")' % k)
    if c['nested']:
        return '\n'.join(o + (use if c['mode'] == 'subdir' else []) + ['add_subdirectory(below)']) + '\n', \
            '\n'.join(([] if c['mode'] == 'subdir' else use) + progs) + '\n'
    return '\n'.join(o + use + progs) + '\n', None


def cmake_error(text):
    t = re.sub(r'\s+', ' ', text)
    m = re.search(r'CMake Error.{0,300}', t) or re.search(r'\S*error:.{0,300}', t)
    m = m.group(0) if m else t[-300:]
    return re.sub(r'/\S*/', '', m)


class Case:
    def __init__(self, s):
        self.s = s
        with s.lock:
            s.n += 1
            self.dir = os.path.join(s.dir, 'k%d' % s.n)
        os.makedirs(self.dir)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def cmd(self, *a):
        rc, out, err = sh(list(a), cpu=300, wall=max(30, min(400, self.s.left())))
        if rc is None or rc == 127 or 'Killed' in err:
            raise Inconclusive('%s gave no answer' % a[0])
        return rc, out, err

    def configure(self, c, src, build, *extra):
        return self.cmd('cmake', '-S', src, '-B', build, '-G', c['generator'],
                        '-DCMAKE_CXX_COMPILER=' + c['cxx'], '-DCMAKE_BUILD_TYPE=' + c['type'],
                        '-DCMAKE_FIND_USE_PACKAGE_REGISTRY=OFF', *extra)

    def go(self, c):
        """Returns a message, or None."""
        d = os.path.join(self.dir, 'a b' if c['space'] else 'a')
        os.makedirs(d)
        try:
            return self.run(c, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, c, d):
        prefix = os.path.join(d, 'prefix')
        where = REPO
        if c['mode'] != 'subdir':
            b = os.path.join(d, 'lib')
            rc, out, err = self.configure(c, REPO, b, '-DBUILD_TESTING=OFF', '-DCMAKE_INSTALL_PREFIX=' + prefix,
                                          '-DCMAKE_INSTALL_INCLUDEDIR=' + c['include'])
            if rc:
                return 'the library does not configure: ' + cmake_error(err)
            if c['mode'] == 'top':
                rc, out, err = self.cmd('cmake', '--build', b, '--', '-k' + '0' * (c['generator'] == 'Ninja'))
                if rc:
                    return 'the library does not build: ' + cmake_error(out + err)
            rc, out, err = self.cmd('cmake', '--install', b)
            if rc:
                return 'the library does not install: ' + cmake_error(err)
            shutil.rmtree(b)
            if c['mode'] == 'moved':
                os.rename(prefix, prefix + '2')
                prefix += '2'
        src, b = os.path.join(d, 'src'), os.path.join(d, 'build')
        os.makedirs(os.path.join(src, 'below'))
        if c['mode'] == 'top':
            c = dict(c, programs=[p for p in c['programs'] if p['target'] == WHOLE])
        top, below = lists(c, where)
        for name, text in [('CMakeLists.txt', top), ('below/CMakeLists.txt', below)] + \
                [('m%d.cc' % k, source(p)) for k, p in enumerate(c['programs'])]:
            if text is not None:
                with open(os.path.join(src, name), 'w') as f:
                    f.write(text)
        extra = []
        if c['mode'] != 'subdir':
            extra = ['-DCMAKE_PREFIX_PATH=' + prefix] if c['find'] == 'prefix' else \
                ['-Dxyz_value_types_DIR=' + os.path.join(prefix, 'lib/cmake/xyz_value_types')]
        rc, out, err = self.configure(c, src, b, *extra)
        if not VERSIONS[c['version']]:
            if rc == 0:
                return 'version %s is found in a package of version 0.0.1' % c['version']
            return None if 'compatible' in err else 'version %s: %s' % (c['version'], cmake_error(err))
        if rc:
            return 'a project that uses the library does not configure: ' + cmake_error(err)
        rc, out, err = self.cmd('cmake', '--build', b)
        if rc:
            return 'a project that uses the library does not build: ' + cmake_error(out + err)
        for k, p in enumerate(c['programs']):
            rc, out, err = sh([os.path.join(b, 'm%d' % k)], cpu=20, wall=100)
            exp = run_model(p)[1]
            got = out.split('\n')[:-1]
            if got != exp:
                i = next((i for i, (x, y) in enumerate(zip(got + ['(end)'], exp + ['(end)'])) if x != y), 0)
                return ('program %d printed %s instead of %s' % (k, (got + ['(end)'])[i], (exp + ['(end)'])[i])
                        if not rc else crash_message(rc, err))
        return None


def simpler(c):
    for kw in ({'space': False}, {'ext': True}, {'include': 'include'}, {'find': 'prefix'}, {'twice': False},
               {'nested': False}, {'generator': 'Ninja'}, {'cxx': 'g++'}, {'type': ''}, {'version': None},
               {'mode': 'installed'} if c['mode'] in ('moved', 'top') else {}):
        if kw and any(c[k] != v for k, v in kw.items()):
            yield dict(c, **kw)
    for k, p in enumerate(c['programs']):
        if len(c['programs']) > 1:
            yield dict(c, programs=[p])
        for kw in ({'std': None}, {'through': False}, {'both': False}, {'steps': []}):
            if any(p[x] != v for x, v in kw.items()):
                q = list(c['programs'])
                q[k] = dict(p, **kw)
                yield dict(c, programs=q)


def c24_shrink(s, c, msg):
    k = Case(s)
    end = time.time() + min(150, max(10, s.left() - 60))
    best = [c, msg]

    def bad(n):
        if time.time() > end:
            return False
        r = k.go(n)
        if r:
            best[:] = [n, r]
        return bool(r)
    try:
        if not bad(c):
            return None
        again = True
        while again and time.time() < end:
            again = any(bad(n) for n in simpler(best[0]))
        for i, p in enumerate(best[0]['programs']):
            def with_steps(x):
                q = list(best[0]['programs'])
                q[i] = dict(p, steps=x)
                return bad(dict(best[0], programs=q))
            if p['steps']:
                ddmin(list(p['steps']), with_steps)
        return best
    finally:
        k.close()


def cmake_works(s):
    k = Case(s)
    try:
        with open(os.path.join(k.dir, 'CMakeLists.txt'), 'w') as f:
            f.write('cmake_minimum_required(VERSION 3.22)\nproject(t CXX)\nadd_executable(t t.cc)\n')
        with open(os.path.join(k.dir, 't.cc'), 'w') as f:
            f.write('int main() {}\n')
        for g in ('Ninja', 'Unix Makefiles'):
            for cxx in ('g++', 'clang++'):
                b = os.path.join(k.dir, g[0] + cxx[0])
                c = {'generator': g, 'cxx': cxx, 'type': ''}
                if k.configure(c, k.dir, b)[0] or k.cmd('cmake', '--build', b)[0]:
                    raise Inconclusive('cmake does not work with %s and %s' % (g, cxx))
    finally:
        k.close()


def c24_run(s, spec):
    n = 90 if s.tier == 'quick' else 1500
    found, seen = [], set()

    def one(i):
        if found or s.left() < 120 or (s.tier == 'quick' and time.time() - s.t0 > 150):
            return
        c = gen(random.Random('%d/%d/package' % (s.seed, i)), i)
        k = Case(s)
        try:
            msg = k.go(c)
        except Inconclusive as e:
            s.note('project %d: %s' % (i, e))
            return
        finally:
            k.close()
        if msg:
            with s.lock:
                if found:
                    return
                found.append(None)
            b = c24_shrink(s, c, msg)
            if b is None:
                s.note('a failure did not reproduce: ' + msg)
                found.clear()
                return
            found[0] = Violation(b[1], '# property C24\n# %s\n%s\n' % (b[1], json.dumps(b[0])), 'package')
            return
        with s.lock:
            s.evals += 1
            s.execs += sum(len(run_model(p)[1]) for p in c['programs'])
            if any(len(p['steps']) > 4 for p in c['programs']):
                seen.add(json.dumps(c, sort_keys=True))
            for name, on in ((c['mode'], True), ('version refused', not VERSIONS[c['version']]),
                             ('path with a space', c['space']),
                             ('C++14 target', any('cxx1' in p['target'] for p in c['programs']))):
                if on:
                    s.classes[name] = s.classes.get(name, 0) + 1
            if len(s.samples) < 3:
                s.samples.append(json.dumps(dict(c, programs=c['programs'][:1])))
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, range(n)))
    finally:
        s.distinct = len(seen)
        s.builds_done.append('cmake with Ninja and Makefiles, g++ and clang++')
    if found and found[0]:
        cmake_works(s)
        raise found[0]


def c24_replay(s, text):
    k = Case(s)
    try:
        return k.go(json.loads(text.strip().splitlines()[-1]))
    finally:
        k.close()


CHECKS3 = {'C24': {
    'run': c24_run, 'replay': c24_replay, 'builds': lambda s: [],
    'rule': 'Random consumer projects: the library configured, installed to a random prefix (perhaps moved '
    'afterwards, with spaces, another include directory) and found with find_package, with or without a '
    'version, or added as a subdirectory; one to four programs linked to random targets, directly or '
    'through another library, at a random standard, each running a random sequence of operations. '
    'Non-trivial: a program with more than four operations is built and run.',
    'technique': 'random generation of consumer projects and programs, against a model, with shrinking',
    'level_note': 'Sampled projects; CMake 3.28, Ninja and Makefiles, gcc 13 and clang 18 on Linux.',
}}
