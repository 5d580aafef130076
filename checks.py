"""What each check builds, runs and counts."""
import json
import os
import random
import re
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import gen20
from commands import CHECKS4
from packages import CHECKS3
from programs import CHECKS2
from vlib import (Build, DBG, H, Inconclusive, JOBS, OPT, REPO, SAN, TSAN, Tu, Violation,
                  crash_message, ddmin, read_current, sh, shrink_engine)

# Categories of observations made by the history engine (ledger.hpp).
(VALUE, ALIAS, VALUELESS, RES, EXC, ALLOC, COST, ADDR, AUSE, ACCESS, CMP, HASH, SRC,
 NOEX, VASSIGN) = [1 << i for i in range(15)]

HEADERS = {
    'ind20': ('indirect.h', 0, 0), 'pol20': ('polymorphic.h', 1, 0),
    'ind14': ('indirect_cxx14.h', 0, 1), 'pol14': ('polymorphic_cxx14.h', 1, 1),
}


def engine_build(h, cxx, std, flags, suffix):
    hdr, poly, c14 = HEADERS[h]
    d = ('VP_HEADER="%s"' % hdr, 'VP_POLY=%d' % poly, 'VP_CXX14=%d' % c14)
    tus = [Tu('engine/bind.cc', d + ('VP_PART=%d' % i,)) for i in range(6)]
    tus += [Tu('engine/engine.cc', own=True), Tu('common/ledger.cc', own=True),
            Tu('engine/new_hook.cc', own=True)]
    return Build('%s-%s' % (h, suffix), cxx, std, flags, tus, kind='engine')


def engine_matrix(heads, tier):
    """Every header is run at its own standard with sanitizers by one compiler and
    at a newer standard, optimised and without assertions, by the other."""
    out = []
    for h in heads:
        c14 = HEADERS[h][2]
        out.append(engine_build(h, 'g++', '14' if c14 else '20', SAN, 'gcc-san'))
        out.append(engine_build(h, 'clang++', '17' if c14 else '23', OPT, 'clang-opt'))
        if tier == 'thorough':
            out.append(engine_build(h, 'clang++', '14' if c14 else '20', SAN, 'clang-san'))
            out.append(engine_build(h, 'g++', '20' if c14 else '23', OPT, 'gcc-opt'))
            if c14:
                out.append(engine_build(h, 'g++', '17', OPT, 'gcc17-opt'))
    return out


def fuzz_build(h):
    hdr, poly, c14 = HEADERS[h]
    d = ('VP_HEADER="%s"' % hdr, 'VP_POLY=%d' % poly, 'VP_CXX14=%d' % c14)
    flags = ['-O1', '-g1', '-fsanitize=address,undefined,fuzzer']
    tus = [Tu('engine/bind.cc', d + ('VP_PART=%d' % i,)) for i in range(6)]
    tus += [Tu('engine/engine.cc', ('VP_LIBFUZZER',), own=True),
            Tu('common/ledger.cc', own=True), Tu('engine/new_hook.cc', own=True)]
    return Build('%s-fuzz' % h, 'clang++', '17' if c14 else '20', flags, tus, kind='engine')


ENGINE_TECH = ('model-based random testing of operation histories (swarm generation, fault '
               'injection, reference model and ledger, shrinking; libFuzzer in the thorough tier)')
ENGINE_NOTE = ('Sampled histories, not exhaustive: bounded length, 5 handles, 22-30 combinations '
               'of allocator configuration and owned type per header. Trusts the reference model, the '
               'compilers and the sanitizers.')


def engine_check(heads, mask, profile, nontrivial, cases, rule, thorough=20, also=()):
    """profile/cases: per configuration and worker, quick tier."""
    def builds(s):
        return engine_matrix(heads, s.tier)

    def run(s, spec):
        bs = builds(s)
        s.build(bs)
        runs = []
        shards = 4 if s.tier == 'quick' else 8
        scale = 1 if s.tier == 'quick' else thorough
        # Profiles: the property's own, and a share of the others.
        for sh_ in range(shards):
            for i, b in enumerate(bs):
                for prof, share in [(profile, 1.0)] + list(also):
                    n = max(1, int(cases * share * scale * (2 if 'opt' in b.name else 1)))
                    args = ['--seed', (s.seed * 64 + sh_) * 64 + i, '--cases', n,
                            '--mask', mask, '--profile', prof, '--nontrivial', nontrivial,
                            '--budget', 60 if s.tier == 'quick' else 1800]
                    runs.append({'build': b, 'args': list(map(str, args)),
                                 'replay_args': ['--mask', str(mask)]})
        s.run_all(runs)
        if s.tier == 'thorough':
            run_fuzz(s, heads, mask)
    return {'run': run, 'builds': builds, 'rule': rule, 'technique': ENGINE_TECH,
            'level_note': ENGINE_NOTE}


def prop_build(src, h, cxx, std, flags, suffix, extra=(), tag=''):
    hdr, poly, c14 = HEADERS[h]
    d = ('VP_HEADER="%s"' % hdr, 'VP_POLY=%d' % poly, 'VP_CXX14=%d' % c14) + tuple(extra)
    tus = [Tu('props/%s.cc' % src, d),
           Tu('common/prop_main.cc', ('VP_LIBFUZZER',) if 'fuzz' in suffix else (), own=True),
           Tu('common/ledger.cc', own=True)]
    return Build('%s-%s-%s%s' % (src, h, suffix, tag), cxx, std, flags, tus, kind='prop')


def prop_matrix(src, heads, tier, extra=(), tag='', san=None):
    """san: sanitizer flags for the quick tier, for what is slow to compile."""
    out = []
    for h in heads:
        c14 = HEADERS[h][2]

        def add(cxx, std, flags, suffix):
            out.append(prop_build(src, h, cxx, std, flags, suffix, extra, tag))
        add('g++', '14' if c14 else '20', san if san and tier == 'quick' else SAN, 'gcc-san')
        add('clang++', '17' if c14 else '23', OPT, 'clang-opt')
        if tier == 'thorough':
            add('clang++', '14' if c14 else '20', SAN, 'clang-san')
            add('g++', '20' if c14 else '23', OPT, 'gcc-opt')
            if c14:
                add('g++', '17', OPT, 'gcc17-opt')
    return out


def worker(s, b, i, shard, cases, args=(), replay_args=(), budget=None):
    a = ['--seed', (s.seed * 64 + shard) * 64 + i, '--cases', cases,
         '--budget', budget or (60 if s.tier == 'quick' else 1800)] + list(args)
    return {'build': b, 'args': list(map(str, a)), 'replay_args': list(map(str, replay_args))}


PROP_TECH = ('property-based testing: seeded random cases against %s, out-of-process shrinking; '
             'libFuzzer over the same generators in the thorough tier')
PROP_NOTE = ('Sampled inputs, not exhaustive; the owned types and allocators are those of the '
             'harness. Trusts the oracle, the compilers and the sanitizers.')


def prop_check(src, heads, cases, rule, oracle, thorough=20, engine=None, fuzz=True, san=None,
               more=()):
    """cases: per worker, quick tier. engine: an engine_check spec to run as well. more:
    definitions for the thorough tier."""
    def matrix(s):
        return prop_matrix(src, heads, s.tier, extra=more if s.tier == 'thorough' else (), san=san)

    def builds(s):
        r = matrix(s)
        if s.tier == 'thorough' and fuzz:
            r += [prop_fuzz_build(src, h) for h in heads]
        return r + (engine['builds'](s) if engine else [])

    def run(s, spec):
        bs = matrix(s)
        fz = [prop_fuzz_build(src, h) for h in heads] if s.tier == 'thorough' and fuzz else []
        s.build(bs + fz + (engine['builds'](s) if engine else []))
        shards = 4 if s.tier == 'quick' else 8
        scale = 1 if s.tier == 'quick' else thorough
        s.run_all([worker(s, b, i, k, int(cases * scale * (3 if 'opt' in b.name else 1)))
                   for k in range(shards) for i, b in enumerate(bs)])
        for h, b in zip(heads, fz):
            plain = [x for x in bs if x.name == '%s-%s-clang-san' % (src, h)][0]
            fuzz_one(s, b, plain, [])
        if engine:
            engine['run'](s, spec)
    return {'run': run, 'builds': builds, 'rule': rule, 'technique': PROP_TECH % oracle,
            'level_note': PROP_NOTE}


def prop_fuzz_build(src, h):
    return prop_build(src, h, 'clang++', '17' if HEADERS[h][2] else '20',
                      ['-O1', '-g1', '-fsanitize=address,undefined,fuzzer'], 'fuzz')


def fuzz_one(s, b, plain, replay_args, secs=400, env=()):
    """Coverage-guided search with b; findings are replayed and shrunk with plain."""
    corpus = tempfile.mkdtemp(dir=s.dir)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1',
               **dict(env))
    rc, out, err = sh([b.exe, '-seed=%d' % (s.seed or 1), '-max_total_time=%d' % secs,
                       '-max_len=180', '-fork=%d' % 8, '-print_final_stats=1',
                       '-artifact_prefix=%s/' % corpus, corpus],
                      cpu=secs * 12, wall=secs + 300, env=env)
    n = max([int(x) for x in re.findall(r'#(\d+):? ', err)] or [0])
    s.evals += n
    s.classes['libfuzzer executions ' + b.name] = n
    s.classes['libfuzzer corpus ' + b.name] = len(os.listdir(corpus))
    for f in sorted(os.listdir(corpus)):
        if not f.startswith('crash-'):
            continue
        rc, text, _ = sh([plain.exe, '--decode', os.path.join(corpus, f)])
        if rc:
            continue
        if all(s.replay(plain, text, replay_args)[0] for _ in range(3)):
            msg = s.replay(plain, text, replay_args)[1]
            text, msg = s.shrink(plain, text, replay_args, msg)
            s.raise_violation(plain, replay_args, text, msg)


def run_fuzz(s, heads, mask):
    """The engine's histories under libFuzzer (thorough tier)."""
    for h in heads:
        b = fuzz_build(h)
        plain = [x for x in engine_matrix([h], 'thorough') if x.name.endswith('clang-san')][0]
        s.build([b, plain])
        fuzz_one(s, b, plain, ['--mask', str(mask)], env={'VP_MASK': str(mask)})


IND = ['ind20', 'ind14']
POL = ['pol20', 'pol14']
ALL = IND + POL
GEN = ('Histories of up to 24 operations over up to 5 handles (constructions, copies, moves, '
       'assignments, swaps, mutations, destructions; explicit allocators; injected faults), '
       'swarm-generated from the seed for 22-30 combinations of allocator traits and owned '
       'types per header (instrumented and plain ones), compared '
       'after every operation with a reference model and a ledger of blocks and owned objects. ')

CHECKS = {}

CHECKS['C01'] = engine_check(
    IND, VALUE | ALIAS | SRC, 'values',
    'copy+mutate_a_copied_value,copy_assign_in_place,copy_assign_new_object+mutate', 900,
    GEN + 'Non-trivial: a copied value is mutated afterwards, or a copy assignment happens '
    'in place or before a mutation.', also=[('faults', 0.1), ('valueassign', 0.2)])

CHECKS['C02'] = engine_check(
    POL, VALUE | ALIAS | SRC | ACCESS, 'values',
    'copy+mutate_a_copied_value,dynamic_type_changed,move_unequal_alloc', 900,
    GEN + 'Six derived types (base at an offset, virtual bases, over-aligned, large, '
    'copy-only). Non-trivial: a copied value is mutated, an assignment changes the dynamic '
    'type, or a value moves to an unequal allocator.', also=[('faults', 0.1), ('moves', 0.3)])

CHECKS['C03'] = engine_check(
    ALL, RES, 'resources',
    'owned_type_threw,allocation_threw,copy_assign_new_object,move_unequal_alloc', 500,
    GEN + 'The ledger checks every construct, destroy, allocate and deallocate and the state '
    'after the last handle is gone. Non-trivial: an exception was thrown, or an object was '
    'replaced or rebuilt.', also=[('faults', 0.1), ('moves', 0.3)])

CHECKS['C04'] = engine_check(
    ALL, VALUELESS, 'moves',
    'move_equal_alloc+assign_to_valueless,assign_from_valueless,copy_of_valueless,'
    'swap_with_valueless,value_assign_to_valueless,threw_with_target_value', 700,
    GEN + 'Non-trivial: a valueless handle is copied, assigned from or to, or swapped, or an '
    'operation on a handle with a value threw.', also=[('faults', 0.1), ('valueassign', 0.2)])

CHECKS['C05'] = engine_check(
    ALL, EXC, 'faults',
    'owned_type_threw,allocation_threw', 200,
    GEN + 'In 40% of the cases one operation has every one of its fault points (each '
    'allocation and each operation of the owned type) made to throw in turn; other faults '
    'are random. Non-trivial: at least one injected exception was thrown.')
CHECKS['C05']['level'] = 'fault_enumeration'

CHECKS['C06'] = engine_check(
    ALL, ALLOC, 'allocators',
    'allocator_replaced,allocator_kept_though_different,move_unequal_alloc,explicit_allocator',
    700, GEN + 'Allocators carry an arena (compared) and a label (not compared), so equal but '
    'distinct allocators are told apart. Non-trivial: allocators differed in the operation or '
    'were given explicitly.', also=[('resources', 0.2), ('faults', 0.1)])

CHECKS['C07'] = engine_check(
    ALL, COST | ADDR, 'moves',
    'move_equal_alloc,move_unequal_alloc,swap,self_assign,copy_assign_in_place', 700,
    GEN + 'Every operation is compared with the exact multiset of allocations, '
    'constructions, assignments and destructions the specification allows. Non-trivial: at '
    'least one move, swap, self-assignment or in-place copy assignment.',
    also=[('values', 0.3), ('allocators', 0.3)])

CHECKS['C13'] = engine_check(
    IND, VASSIGN, 'valueassign', 'value_assign,value_assign_to_valueless', 700,
    GEN + 'Value assignment from const and non-const lvalues, rvalues and a convertible '
    'value. Non-trivial: at least one value assignment.')

CHECKS['C08'] = prop_check(
    'c08_compare', IND, 4000,
    'Random pairs (and triples) of indirects and values: integers, strings, vectors, doubles '
    'with NaN, types with partial, weak, strong or no three-way ordering, mixed owned types and '
    'allocators, nested indirects, valueless operands; every operator compared with the same '
    'operator on the plain values. Non-trivial: counted by the harness when operands differ in '
    'valueless state, type or allocator, or are close to equal.',
    'the comparison of the plain values')

CHECKS['C09'] = prop_check(
    'c09_hash', IND, 3000,
    'Random values hashed through indirect and directly; unordered containers keyed by indirects '
    'against containers keyed by the values. Non-trivial: equal handles at different addresses '
    'or with different allocators, valueless handles, or container histories with collisions.',
    'std::hash of the plain value and a model container')

CHECKS['C10'] = prop_check(
    'c10_zoo', ALL, 1500,
    'Random operation sequences for a zoo of allocators (minimal, pmr, scoped, tagging, '
    'stateful without default constructor, not assignable, fancy construct) and owned types '
    '(over-aligned to 4096, large, final, allocator-aware), plus the history engine with the '
    'construct/destroy/alignment observations. Non-trivial: see the classes.',
    'a ledger of construct, destroy and block events',
    engine=engine_check(ALL, AUSE, 'resources', 'owned_type_threw,allocation_threw,'
                        'copy_assign_new_object,move_unequal_alloc', 200, '',
                        also=[('allocators', 0.3)]))

CHECKS['C11'] = prop_check(
    'c11_access', ALL, 3000,
    'Random sequences of accesses through every access path of const, mutable and rvalue '
    'handles between operations, and composites holding handles; type facts for every '
    'operator. Non-trivial: see the classes.',
    'a shadow value and the address seen first',
    engine=engine_check(ALL, ACCESS | SRC, 'values', 'copy+mutate_a_copied_value,'
                        'swap,self_assign', 200, ''))

CHECKS['C12'] = prop_check(
    'c12_ctors', ALL, 8000,
    'Random constructor forms (default, value, in place, in place with initializer list; with '
    'and without allocator) and argument lists (up to 3 arguments of nine kinds: lvalues, const '
    'lvalues, rvalues, const rvalues, move-only, literals, arrays), compared with constructing '
    'the owned type directly: overload picked, exact argument types, identity of the argument '
    'objects, number of copies and moves, value. Plus standard types, value-initialisation in '
    'poisoned storage, types constructible from anything, and facts on explicitness, '
    'constraints and deduction guides. Non-trivial: at least one argument.',
    'direct construction of the owned type')

CHECKS['C14'] = prop_check(
    'c14_noexcept', ALL, 4000,
    'noexcept facts over 14 allocator configurations and throwing and non-throwing owned types; '
    'random histories of moves and swaps while every allocation and every operation of the owned '
    'type throws (prop harness and history engine); growing vectors of handles. Non-trivial: a '
    'valueless handle took part, or an injected environment was active.',
    'a plain-value model under total failure',
    engine=engine_check(ALL, NOEX, 'moves', 'move_or_swap_in_failing_environment', 200, ''))

CHECKS['C15'] = prop_check(
    'c15_trees', ALL, 4000,
    'Random forests of recursive composites (handles in vectors and as direct members, six '
    'allocator configurations, three arenas) edited by random copy, move, swap, value '
    'assignment, grafting, pruning and whole-composite operations, half of them with the source '
    'inside the target; long chains; objects that look at their own handle while destroyed. '
    'Compared node by node with a plain tree after every edit. Non-trivial: a source inside its '
    'target, or depth over three.',
    'a plain-value tree model and a ledger of nodes and blocks')


# ---- C16: the two headers against each other -------------------------------
def pair_builds(tier):
    """(first, second) pairs of builds whose traces must be equal."""
    out = []
    for a, b in (('ind14', 'ind20'), ('pol14', 'pol20')):
        out.append((engine_build(a, 'g++', '14', SAN, 'gcc-san'),
                    engine_build(b, 'g++', '20', SAN, 'gcc-san')))
        out.append((engine_build(a, 'clang++', '17', OPT, 'clang-opt'),
                    engine_build(b, 'clang++', '23', OPT, 'clang-opt')))
        if tier == 'thorough':
            out.append((engine_build(a, 'g++', '20', OPT, 'gcc20-opt'),
                        engine_build(b, 'g++', '20', OPT, 'gcc20-opt')))
            out.append((engine_build(a, 'clang++', '14', SAN, 'clang-san'),
                        engine_build(b, 'clang++', '20', SAN, 'clang-san')))
    return out


def trace_of(s, b, text):
    with s.lock:
        s.n += 1
        path = os.path.join(s.dir, 't%d.txt' % s.n)
    with open(path, 'w') as f:
        f.write(text)
    rc, out, err = sh([b.exe, '--replay', path, '--trace', '1', '--mask', '0'], cpu=60, wall=200)
    os.unlink(path)
    if rc is None:
        return None
    if rc:
        return out + '\nended with ' + crash_message(rc, err)
    return out


def traces_differ(s, a, b, text):
    """Returns the first difference, or None."""
    x, y = trace_of(s, a, text), trace_of(s, b, text)
    if x is None or y is None or x == y:
        return None
    for l, m in zip((x + '\n').splitlines(), (y + '\n').splitlines()):
        if l != m:
            return '%s: %s\n%s: %s' % (a.name, l, b.name, m)
    return '%s and %s: one history ends earlier' % (a.name, b.name)


def pair_violation(s, a, b, text):
    msg = traces_differ(s, a, b, text)
    if not msg or not traces_differ(s, a, b, text):
        s.note('a difference between %s and %s did not reproduce' % (a.name, b.name))
        return
    text = shrink_engine(text, lambda t: traces_differ(s, a, b, t) is not None,
                         time.time() + min(90, max(10, s.left() - 60)))
    msg = traces_differ(s, a, b, text) or msg
    first, rest = text.split('\n', 1)
    raise Violation('the C++14 and C++20 headers behave differently: ' + msg,
                    '%s\n# property C16, pair %s %s\n# %s\n%s' % (
                        first, a.name, b.name, msg.replace('\n', '\n# '), rest), a.name)


def c16_run(s, spec):
    pairs = pair_builds(s.tier)
    s.build([b for p in pairs for b in p])
    scale = 1 if s.tier == 'quick' else 25
    profiles = [('values', 180), ('moves', 180), ('faults', 30), ('allocators', 180),
                ('valueassign', 60), ('resources', 60),
                ('compare', 100)]
    jobs = []
    for i, (a, b) in enumerate(pairs):
        for j, (prof, n) in enumerate(profiles):
            for k in range(2 if s.tier == 'quick' else 6):
                jobs.append((a, b, prof, n * scale * (2 if 'opt' in a.name else 1),
                             ((s.seed * 64 + k) * 64 + j) * 8))
    found = []

    def one(job):
        a, b, prof, n, seed = job
        if found or s.left() < 30:
            return
        lines = []
        for x in (a, b):
            with s.lock:
                s.n += 1
                d = os.path.join(s.dir, 'd%d' % s.n)
                cur = os.path.join(s.dir, 'cur%d' % s.n)
            rc, out, err = sh([x.exe, '--seed', str(seed), '--cases', str(n), '--profile', prof,
                               '--mask', '0', '--trace', '1', '--dump', d, '--current', cur,
                               '--nontrivial', 'owned_type_threw,allocation_threw,copy_of_valueless,'
                               'move_unequal_alloc,assign_to_valueless'],
                              cpu=3000, wall=max(30, s.left()))
            if rc is None:
                s.note('a worker of %s did not finish' % x.name)
                return
            if rc in (2, 127):
                raise Inconclusive('harness error in %s' % x.name)
            if rc:
                text = read_current(cur, 'engine')
                try:
                    if text:
                        pair_violation(s, a, b, text)
                except Violation as v:
                    found.append(v)
                return
            lines.append(open(d).read().splitlines())
            os.unlink(d)
        if a.name.startswith(('ind14', 'pol14')):
            s.absorb({'build': b}, out)
        for l, m in zip(*lines):
            if l != m:
                config, k = l.split()[:2]
                rc, text, _ = sh([a.exe, '--seed', str(seed), '--cases', str(n), '--profile', prof,
                                  '--config', config, '--print', k])
                try:
                    pair_violation(s, a, b, text)
                except Violation as v:
                    found.append(v)
                return
        with s.lock:
            s.compared += len(lines[0])
    s.compared = 0
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    s.classes['histories compared between the two headers'] = s.compared
    if found:
        found.sort(key=lambda v: len(v.replay_text))
        raise found[0]


def c16_replay(s, text):
    m = re.search(r'^# property C16, pair (\S+) (\S+)', text, re.M)
    for a, b in pair_builds('thorough'):
        if m and a.name == m.group(1) and b.name == m.group(2):
            s.build([a, b])
            return traces_differ(s, a, b, text)
    return None


CHECKS['C16'] = {
    'run': c16_run, 'replay': c16_replay,
    'builds': lambda s: [b for p in pair_builds(s.tier) for b in p],
    'rule': GEN + 'The same history is run with the C++14 and the C++20 header, and the complete '
    'traces (values, dynamic types, valueless states, allocators, address identity, exceptions, '
    'comparison results, counts of allocations, constructions, assignments and destructions per '
    'operation) must be equal. Non-trivial: an exception was thrown, a valueless handle was '
    'copied or assigned to, or a value moved between unequal allocators.',
    'technique': 'differential random testing of operation histories between the two headers, '
                 'with swarm generation, fault injection and shrinking',
    'level_note': ENGINE_NOTE,
}


# ---- C17: programs evaluated by the compiler and at run time ---------------
C17_HEADS = {'ind20': ('indirect.h', 'c17_ind.hpp', 10), 'pol20': ('polymorphic.h', 'c17_pol.hpp', 6)}
C17_LIMITS = {'g++': ['-fconstexpr-ops-limit=1000000000', '-fconstexpr-loop-limit=10000000',
                      '-fconstexpr-depth=4096'],
              'clang++': ['-fconstexpr-steps=1000000000', '-fconstexpr-depth=4096']}


class Combo:
    def __init__(self, head, cxx, std, opt):
        self.head, self.cxx, self.std, self.opt = head, cxx, std, opt
        self.name = '%s-%s-c++%s%s' % (head, cxx, std, opt)
        self.flags = [opt] + C17_LIMITS[cxx]
        self.link = []

    def command(self, cases, out):
        hdr, suite, _ = C17_HEADS[self.head]
        return ([self.cxx, '-std=c++' + self.std] + self.flags +
                ['-w', '-I' + REPO, '-I' + os.path.join(H, 'constexpr'),
                 '-DVP_HEADER="%s"' % hdr, '-DVP_SUITE_HEADER="%s"' % suite,
                 '-DVP_CASES="%s"' % cases, os.path.join(H, 'constexpr', 'c17.cc'), '-o', out])


def c17_combos():
    return [Combo(h, cxx, std, opt) for h in ('ind20', 'pol20')
            for cxx, std, opt in (('g++', '20', '-O0'), ('clang++', '20', '-O1'),
                                  ('g++', '23', '-O2'), ('clang++', '23', '-O0'))]


def c17_gen(rng, i, policies):
    ops = []
    for q in range(rng.randint(1, rng.choice((8, 16, 28)))):
        op = [rng.randrange(256) for _ in range(8)]
        if q < 3:
            op[0], op[1] = rng.randrange(4), q
        ops.append(op)
    return ('P%d' % (i % policies), ops)


def c17_text(cases):
    return ''.join('CASE(%d, %s, %s)\n' % (i, p, ','.join(str(b) for op in ops for b in op))
                   for i, (p, ops) in enumerate(cases))


CODES = {1: 'valueless state', 2: 'value', 3: 'dynamic type', 4: 'operator-> and operator* differ',
         5: 'allocator (label)', 6: 'allocator (arena)', 7: 'live blocks',
         8: 'block freed through another allocator', 9: 'assignment returns another object',
         10: 'something is not released'}


def c17_try(s, combo, cases):
    """Returns (index or None, message, counts) of the first failing case."""
    with s.lock:
        s.n += 1
        base = os.path.join(s.dir, 'k%d' % s.n)
    with open(base + '.inc', 'w') as f:
        f.write(c17_text(cases))
    cmd = combo.command(base + '.inc', base + '.exe')
    rc, out, err = sh(cmd, cpu=600, wall=max(30, s.left()))
    os.unlink(base + '.inc')
    if rc is None or rc == 127 or 'virtual memory exhausted' in err or 'Killed' in err:
        return None, None, None
    if rc:
        errors = [l for l in err.splitlines() if 'error:' in l] or ['?']
        why = [l.strip() for l in err.splitlines() if re.search(r'note: .*(not allowed|cannot|'
               r'non-constexpr|uninitialized|outside|never been|modification|leak|null)', l)]
        guess = re.findall(r'\b[tr](\d+)\b', err)
        return (int(guess[0]) if guess and int(guess[0]) < len(cases) else 0,
                'not a constant expression: ' + ' / '.join([errors[0]] + why[:1])[:500], None)
    rc, out, err = sh([base + '.exe'], cpu=120, wall=300)
    os.unlink(base + '.exe')
    hard = set()
    ops = 0
    n = 0
    for l in out.splitlines():
        m = re.match(r'case (\d+) (\S+) compile (\d+)@(\d+) run (\d+)@(\d+) same (\d) ops (\d+) '
                     r'hard (\d+)', l)
        k, pol, cf, cs, rf, rs, same, o, h = m.groups()
        n += 1
        ops += int(o)
        if int(h):
            hard.add(int(k))
        if cf != '0' or rf != '0' or same != '1':
            what = int(cf) or int(rf)
            return int(k), 'the %s of the model, the compile-time and the run-time evaluation ' \
                'disagree (%s; compile time: check %s after operation %s, run time: check %s ' \
                'after operation %s)' % (CODES.get(what, 'result'), combo.name, cf, cs, rf, rs), None
    if rc:
        return n, 'run time: ' + crash_message(rc, err), None
    return None, None, (n, ops, hard)


def c17_find(s, combo, cases, k, msg):
    """Reduces a failing batch to one minimal case."""
    def bad(cs):
        nonlocal msg
        _, m, _ = c17_try(s, combo, cs)
        if m:
            msg = m
        return m is not None
    if not bad([]):
        # The case named by the error first, then bisection.
        group = [cases[k]]
        if not bad(group):
            group = list(cases)
            while len(group) > 1:
                half = len(group) // 2
                group = group[:half] if bad(group[:half]) else group[half:]
            if not bad(group):
                s.note('a failure of %s did not reproduce: %s' % (combo.name, msg))
                return
        p, ops = group[0]
        deadline = time.time() + min(100, max(10, s.left() - 60))
        ops = ddmin(list(ops), lambda o: bool(o) and time.time() < deadline and bad([(p, o)]))
        for i in range(len(ops)):
            for j in range(1, len(ops[i])):
                c = [list(o) for o in ops]
                c[i][j] = 0
                if c != ops and time.time() < deadline and bad([(p, c)]):
                    ops = c
        bad([(p, ops)])
        text = c17_text([(p, ops)])
    else:
        hdr, _, _ = C17_HEADS[combo.head]
        b = Build('c17', combo.cxx, combo.std, combo.flags, [])
        if not s.compiler_works(b):
            raise Inconclusive('%s does not work' % combo.cxx)
        text = ''
    raise Violation(msg, '# property C17, combo %s\n# %s\n%s' % (
        combo.name, msg.replace('\n', ' '), text), combo.name)


def c17_run(s, spec):
    combos = c17_combos()
    jobs = []
    per = 300
    for r in range(6 if s.tier == 'quick' else 120):
        for i, c in enumerate(combos):
            jobs.append((c, random.Random('%d/%d/%d' % (s.seed, r, i))))
    found = []
    seen = set()

    def one(job):
        c, rng = job
        if found or s.left() < 60:
            return
        cases = [c17_gen(rng, i, C17_HEADS[c.head][2]) for i in range(per)]
        k, msg, counts = c17_try(s, c, cases)
        if msg is None and counts is None:
            s.note('%s gave no answer' % c.name)
            return
        if msg:
            try:
                c17_find(s, c, cases, min(k, per - 1), msg)
            except Violation as v:
                found.append(v)
            return
        n, ops, hard = counts
        with s.lock:
            s.evals += n
            s.execs += ops
            for h in hard:
                seen.add((c.head, cases[h][0], str(cases[h][1])))
            s.classes[c.name + ': programs'] = s.classes.get(c.name + ': programs', 0) + n
            if len(s.samples) < 3:
                s.samples.append(c.name + ' ' + c17_text([cases[min(hard or [0])]]).strip())
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    s.distinct = len(seen)
    s.builds_done += [c.name for c in combos]
    if found:
        found.sort(key=lambda v: len(v.replay_text))
        raise found[0]


def c17_replay(s, text):
    name = re.search(r'^# property C17, combo (\S+)', text, re.M).group(1)
    m = re.search(r'^CASE\(0, (P\d+), (.*)\)$', text, re.M)
    cases = []
    if m:
        b = [int(x) for x in m.group(2).split(',') if x]
        cases = [(m.group(1), [b[i:i + 8] for i in range(0, len(b), 8)])]
    return c17_try(s, [c for c in c17_combos() if c.name == name][0], cases)[1]


CHECKS['C17'] = {
    'run': c17_run, 'replay': c17_replay, 'builds': lambda s: [],
    'rule': 'Random programs of up to 28 operations (22 kinds: every constructor form with and '
    'without allocator, copies, moves, assignments, value assignments, swaps, mutation, '
    'comparison, destruction) over up to 4 handles of the C++20 headers, for int, an owning '
    'buffer, nested handles and a class hierarchy, and constexpr allocators with five '
    'combinations of propagation traits. Each is evaluated by the compiler as a constant '
    'expression (undefined behaviour and leaks are errors there) and again at run time; both '
    'check a model after every operation and must give the same digest. Two compilers, two '
    'standards. Non-trivial: an operation met a valueless handle or different allocators.',
    'technique': 'random program generation, evaluated at compile time and at run time against a '
                 'plain-value model and each other, with shrinking',
    'level_note': 'Sampled programs; the owned types and allocators are those of the harness. '
                  'Trusts the constant evaluators of gcc 13 and clang 18.',
}


# ---- C18: threads ----------------------------------------------------------
def c18_builds(s):
    out = []
    for h in ALL:
        c14 = HEADERS[h][2]
        for cxx, std in (('g++', '14' if c14 else '20'), ('clang++', '17' if c14 else '23')):
            out.append(prop_build('c18_threads', h, cxx, std, TSAN, cxx.strip('+') + '-tsan'))
    return out


def c18_run(s, spec):
    bs = c18_builds(s)
    s.build(bs)
    scale = 1 if s.tier == 'quick' else 40
    # Every process starts cold: state initialised once is met again in each.
    s.run_all([worker(s, b, i, k, 1500 * scale)
               for k in range(3 if s.tier == 'quick' else 12) for i, b in enumerate(bs)])


CHECKS['C18'] = {
    'run': c18_run, 'builds': c18_builds,
    'rule': 'Random programs for 2 to 4 threads (up to 30 operations each on up to 4 own handles: '
    'copy, read, compare, hash and assign from 4 shared const handles, one of them valueless; '
    'mutate, move, swap and destroy own ones), in two phases between which the handles change '
    'threads; std::allocator and per-thread arenas whose counters may only be touched by the '
    'thread that owns them; owned objects with handles inside. Run under ThreadSanitizer and '
    'again in a single thread; values are checked after every operation and both runs must log '
    'the same. Non-trivial: at least two threads use the shared handles.',
    'technique': 'random multi-threaded programs under ThreadSanitizer, compared with a '
                 'plain-value model and a single-threaded run, with shrinking',
    'level_note': 'Schedules are those the machine produces; ThreadSanitizer finds races that did '
                  'not show, but only between accesses that were executed. Trusts ThreadSanitizer.',
}


CHECKS['C19'] = prop_check(
    'c19_containers', ALL, 6000,
    'Random operation sequences on vector, deque and list (insertion, erasure, reallocation, '
    'container copies, moves and swaps, sort, stable_sort, nth_element, heaps, rotate, reverse, '
    'partition, remove, unique, merge, shuffle, permutations), on set, multimap, map and the '
    'unordered containers (with merge and node handles), and on priority_queue, queue, tuple, '
    'pair, array, function, optional, variant and any; elements are handles of owned types with '
    'distinguishable equal values, a quarter of the cases with valueless elements, with '
    'std::allocator and with propagating allocators of three arenas. Compared after every '
    'operation with the same operation on plain values, and the owned objects are counted. '
    'Non-trivial: more than a few elements.',
    'the same containers and algorithms over plain values',
    san=['-O0', '-g1'] + SAN[2:], more=('VP_MORE',))


# ---- C20: layout over generated types --------------------------------------
class Layout:
    def __init__(self, h, cxx, std, flags):
        self.h, self.cxx, self.std, self.flags = h, cxx, std, flags
        self.link = []
        self.name = '%s-%s-c++%s' % (h, cxx, std)


def c20_builds():
    out = []
    for h in ALL:
        c14 = HEADERS[h][2]
        old, new = ('14', '17') if c14 else ('20', '23')
        out += [Layout(h, 'g++', old, ['-O0', '-g1'] + SAN[2:]), Layout(h, 'clang++', old, ['-O0']),
                Layout(h, 'clang++', new, ['-O1']), Layout(h, 'g++', new, ['-O2'])]
    return out


def c20_try(s, b, combos):
    """Returns (failing combo or None, message, number of checks)."""
    hdr, poly, c14 = HEADERS[b.h]
    with s.lock:
        s.n += 1
        base = os.path.join(s.dir, 'l%d' % s.n)
    with open(base + '.cc', 'w') as f:
        f.write(gen20.program(combos, poly))
    cmd = [b.cxx, '-std=c++' + b.std] + b.flags + [
        '-w', '-I' + REPO, '-I' + os.path.join(H, 'common'), '-I' + os.path.join(H, 'layout'),
        '-DVP_HEADER="%s"' % hdr, '-DVP_CXX14=%d' % c14, base + '.cc', '-o', base + '.exe']
    rc, out, err = sh(cmd, cpu=300, wall=max(30, s.left()))
    os.unlink(base + '.cc')
    if rc is None or rc == 127 or 'virtual memory exhausted' in err or 'Killed' in err:
        return None, None, None
    if rc:
        e = [l for l in err.splitlines() if 'error:' in l] or ['?']
        g = re.findall(r'\b(?:T|U|H|A|Comp|run)(\d+)\b', err)
        return int(g[0]) if g and int(g[0]) < len(combos) else 0, \
            'does not compile (%s): %s' % (b.name, re.sub(r'/\S*/', '', e[0])[:400]), None
    rc, out, err = sh([base + '.exe'], cpu=60, wall=200)
    os.unlink(base + '.exe')
    m = re.search(r'^FAIL combo (\d+): (.*)$', out, re.M)
    if m:
        return int(m.group(1)), '%s (%s)' % (m.group(2), b.name), None
    m = re.search(r'^DONE (\d+) 0$', out, re.M)
    if rc or not m:
        return 0, '%s (%s)' % (crash_message(rc, err), b.name), None
    return None, None, int(m.group(1))


def c20_find(s, b, combos, k, msg):
    state = {'msg': msg}

    def bad(cs):
        _, m, _ = c20_try(s, b, cs)
        if m:
            state['msg'] = m
        return m is not None
    if bad([]):
        if not s.compiler_works(Build('c20', b.cxx, b.std, b.flags, [])):
            raise Inconclusive('%s does not work' % b.cxx)
        c = None
    else:
        group = [combos[k]]
        if not bad(group):
            group = list(combos)
            while len(group) > 1:
                half = len(group) // 2
                group = group[:half] if bad(group[:half]) else group[half:]
            if not bad(group):
                s.note('a failure of %s did not reproduce: %s' % (b.name, msg))
                return
        c = group[0]
        end = time.time() + min(80, max(10, s.left() - 60))
        for part in ('a', 't'):
            for key, v in gen20.SIMPLE[part].items():
                n = dict(c, **{part: dict(c[part], **{key: v})})
                if n != c and time.time() < end and bad([n]):
                    c = n
        n = dict(c, holder=0)
        if n != c and bad([n]):
            c = n
        c = dict(c, m=ddmin(list(c['m']), lambda m: bool(m) and time.time() < end and
                            bad([dict(c, m=m)])))
        bad([c])
    raise Violation(state['msg'], '# property C20, build %s\n# %s\n%s\n' % (
        b.name, state['msg'], json.dumps(c)), b.name)


def c20_run(s, spec):
    jobs = [(b, random.Random('%d/%d/%s' % (s.seed, r, b.name)))
            for r in range(4 if s.tier == 'quick' else 150) for b in c20_builds()]
    found = []
    seen = set()

    def one(job):
        b, rng = job
        if found or s.left() < 60:
            return
        poly = HEADERS[b.h][1]
        combos = [gen20.gen(rng, poly, b.std != '14') for _ in range(25)]
        k, msg, n = c20_try(s, b, combos)
        if msg:
            try:
                c20_find(s, b, combos, min(k, len(combos) - 1), msg)
            except Violation as v:
                found.append(v)
            return
        if n is None:
            s.note('%s gave no answer' % b.name)
            return
        with s.lock:
            s.evals += len(combos)
            s.execs += n
            for c in combos:
                if not gen20.alloc_empty(c['a']) or c['a']['final'] or c['t']['incomplete']:
                    seen.add(b.h + json.dumps(c, sort_keys=True))
                for name, on in (('empty allocator', gen20.alloc_empty(c['a'])),
                                 ('final allocator', c['a']['final'] and not c['a']['std']),
                                 ('incomplete owned type', c['t']['incomplete']),
                                 ('abstract owned type', c['t']['abstract'])):
                    if on:
                        s.classes[name] = s.classes.get(name, 0) + 1
            if len(s.samples) < 4:
                s.samples.append(b.name + ' ' + json.dumps(combos[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    s.distinct = len(seen)
    s.builds_done += [b.name + ' ' + ' '.join(b.flags) for b in c20_builds()]
    if found:
        found.sort(key=lambda v: len(v.replay_text))
        raise found[0]


def c20_replay(s, text):
    name = re.search(r'^# property C20, build (\S+)', text, re.M).group(1)
    c = json.loads(text.strip().splitlines()[-1])
    return c20_try(s, [b for b in c20_builds() if b.name == name][0], [c] if c else [])[1]


CHECKS['C20'] = {
    'run': c20_run, 'replay': c20_replay, 'builds': lambda s: [],
    'rule': 'Random pairs of an owned type (size 1 to 5000, over-aligned, final, abstract, virtual, '
    'scalar, with operator& deleted, recursive, incomplete when the handle is first sized) and an '
    'allocator (13 kinds of state, final, 6 kinds of bases, virtual, over-aligned, with members '
    'named like those of the handle, with or without default constructor, construct, traits), '
    'each in a composite of up to five members whose special members are declared or implicit: '
    'sizes and alignments against the plain structs, then constructed, copied, moved, swapped and '
    'written next to a guard byte. Non-trivial: the allocator has state or is final, or the owned '
    'type is incomplete.',
    'technique': 'random program generation over owned and allocator types, compared with the '
                 'layout of plain structs and a plain-value model, with shrinking',
    'level_note': 'Sampled types. The sizes are those of the Itanium ABI with gcc 13 and clang 18.',
}

CHECKS.update(CHECKS2)
CHECKS.update(CHECKS3)
CHECKS.update(CHECKS4)

CHECKS['C23'] = prop_check(
    'c23_helpers', IND, 6000,
    'Random histories of allocators sharing counters in every way (or tags), copied, converted between '
    'four value types, assigned, swapped, compared, allocating and giving back blocks filled with a '
    'pattern; of vectors, lists and maps of int and string using them; and of indirect and polymorphic '
    'handles using them. Non-trivial: several live blocks or equal allocators that are different '
    'objects, containers moved between unequal allocators or spliced, handles moved out and back.',
    'a model of the counters, tags, contents and live blocks')

CHECKS['C25'] = prop_check(
    'c25_pointers', ALL, 4000,
    'Random histories (creation, copies, moves, assignments, swaps, value assignment, mutation, with '
    'injected exceptions) of handles, vectors and trees of handles whose allocators use class-type '
    'pointers: self-relative ones, ones checked against the live blocks at every use, and ones with no '
    'more than the required operations; two arenas, propagating or not; for polymorphic with four dynamic '
    'types, one with its base in the middle, one with a virtual base. Non-trivial: a history of more than '
    'three steps in which an exception was thrown, allocators differed or a valueless handle took part; '
    'a vector of more than three elements; a subtree that replaces its tree.',
    'a model of values, dynamic types, arenas and live blocks')
