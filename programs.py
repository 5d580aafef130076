"""Checks whose cases are whole programs: C21 and C22."""
import json
import os
import random
import re
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

import gen21
import gen22
from vlib import Build, H, Inconclusive, JOBS, REPO, Violation, crash_message, ddmin, sh


def no_answer(rc, err):
    return rc is None or rc == 127 or 'virtual memory exhausted' in err or 'Killed' in err


def first_error(err):
    e = [l for l in err.splitlines() if 'error:' in l or 'undefined reference' in l
         or 'multiple definition' in l] or err.strip().splitlines()[-1:] or ['?']
    return re.sub(r'/\S*/', '', e[0])[:400]


# ---- C21: headers combined, several translation units ----------------------
class Multi:
    """Builds and runs programs; keeps the objects it has built when asked to."""

    def __init__(self, s, keep=False):
        self.s = s
        with s.lock:
            s.n += 1
            self.dir = os.path.join(s.dir, 'm%d' % s.n)
        os.makedirs(self.dir)
        self.keep = keep
        self.cache = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self, tu, text):
        """Returns (object, None) or (None, message); (None, None) without an answer."""
        flags = ['-std=c++' + tu['std'], tu['opt'], '-w'] + ['-DNDEBUG'] * tu['ndebug'] + \
            ['-fno-rtti'] * (not tu['rtti'])
        key = (tu['cxx'], tuple(flags), text)
        if key in self.cache:
            return self.cache[key]
        src = os.path.join(self.dir, 's%d.cc' % len(self.cache))
        obj = src[:-3] + '.o'
        with open(src, 'w') as f:
            f.write(text)
        rc, _, err = sh([tu['cxx']] + flags + ['-I' + REPO, '-I' + os.path.join(H, 'multi'), '-c', src,
                                               '-o', obj], cpu=200, wall=max(30, self.s.left()))
        if no_answer(rc, err):
            return None, None
        r = (None, 'does not compile: ' + first_error(err)) if rc else (obj, None)
        self.cache[key] = r
        return r

    def go(self, c):
        """Returns (message or None, number of comparisons; None without an answer, class)."""
        out, exp, hard = gen21.script(c)
        exp = exp + ['end 0 0']
        newest = max(c['tus'], key=lambda t: int(t['std']))
        jobs = [(tu, gen21.render_tu(tu, k)) for k, tu in enumerate(c['tus'])]
        jobs.append((newest, gen21.render_main(c, out)))
        objs = []
        for k, (tu, text) in enumerate(jobs):
            o, msg = self.compile(tu, text)
            if not o:
                return msg and 'a translation unit %s' % msg, None, hard
            objs.append(o)
        if not c['main_last']:
            objs.reverse()
        exe = os.path.join(self.dir, 'exe')
        rc, _, err = sh([c['linker']] + objs + ['-o', exe], cpu=100, wall=max(30, self.s.left()))
        if no_answer(rc, err):
            return None, None, hard
        if rc:
            return 'does not link: ' + first_error(err), None, hard
        rc, got, err = sh([exe], cpu=20, wall=100)
        got = got.splitlines()
        for i, want in enumerate(exp):
            if i >= len(got) or got[i] != want:
                if i >= len(got):
                    return (crash_message(rc, err) + ' (after %s)' % (exp[i - 1] if i else 'start')), None, hard
                return 'printed "%s", expected "%s"' % (got[i], want), None, hard
        if rc:
            return crash_message(rc, err), None, hard
        return None, len(exp), hard


def c21_shrink(s, c, msg):
    m = Multi(s, keep=True)
    end = time.time() + min(150, max(10, s.left() - 60))
    best = [c, msg]

    def bad(n):
        if time.time() > end:
            return False
        r = m.go(n)[0]
        if r:
            best[:] = [n, r]
        return bool(r)
    try:
        if not bad(c):
            return None
        if 'compile' in best[1]:
            bad(dict(best[0], steps=[]))
        ddmin(list(best[0]['steps']), lambda x: bad(dict(best[0], steps=x)))
        ddmin(list(best[0]['tus']), lambda x: bool(x) and bad(dict(best[0], tus=x)))
        must = gen21.PAIRS[c['fam']][:2]
        for k in range(len(best[0]['tus'])):
            def with_tu(**kw):
                t = list(best[0]['tus'])
                t[k] = dict(t[k], **kw)
                return dict(best[0], tus=t)
            ddmin(list(best[0]['tus'][k]['inc']),
                  lambda x: all(h in x for h in must) and bad(with_tu(inc=x)))
            for kw in ({'after': False}, {'opt': '-O0'}, {'ndebug': False}, {'rtti': True},
                       {'cxx': 'g++'}, {'std': gen21.PAIRS[c['fam']][2][0]}):
                if best[0]['tus'][k][list(kw)[0]] != list(kw.values())[0]:
                    bad(with_tu(**kw))
        return best
    finally:
        m.close()


def c21_text(c, msg):
    return '# property C21\n# %s\n%s\n' % (msg, json.dumps(c))


def c21_run(s, spec):
    n = 170 if s.tier == 'quick' else 4000
    found = []
    seen = set()

    def one(i):
        if found or s.left() < 120 or (s.tier == 'quick' and time.time() - s.t0 > 150):
            return
        c = gen21.gen(random.Random('%d/%d' % (s.seed, i)))
        m = Multi(s)
        try:
            msg, checks, hard = m.go(c)
        finally:
            m.close()
        if msg:
            for x in sorted({t['cxx'] for t in c['tus']} | {c['linker']}):
                if not s.compiler_works(Build('c21', x, '20', [], [])):
                    raise Inconclusive('%s does not work' % x)
            with s.lock:
                if found:
                    return
                found.append(None)
            b = c21_shrink(s, c, msg)
            if b is None:
                s.note('a failure did not reproduce: ' + msg)
                found.clear()
                return
            found[0] = Violation(b[1], c21_text(*b), 'multi')
            return
        if checks is None:
            s.note('program %d gave no answer' % i)
            return
        with s.lock:
            s.evals += 1
            s.execs += checks
            if hard and len({json.dumps(t, sort_keys=True) for t in c['tus']}) > 1:
                seen.add(json.dumps(c, sort_keys=True))
            for name, on in (('units of different standards', len({t['std'] for t in c['tus']}) > 1),
                             ('units of both compilers', len({t['cxx'] for t in c['tus']}) > 1),
                             ('with and without assertions', len({t['ndebug'] for t in c['tus']}) > 1),
                             ('headers of both generations', c['fam'] in ('i20p14', 'i14p20')),
                             ('a helper header first', any(t['inc'][0] in gen21.HELPERS for t in c['tus']))):
                if on:
                    s.classes[name] = s.classes.get(name, 0) + 1
            if len(s.samples) < 3:
                s.samples.append(json.dumps(dict(c, steps=c['steps'][:4])))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, range(n)))
    s.distinct = len(seen)
    s.builds_done.append('g++ and clang++, C++14 to C++23, -O0 to -O2, with and without NDEBUG, mixed')
    if found and found[0]:
        raise found[0]


def c21_replay(s, text):
    m = Multi(s)
    try:
        return m.go(json.loads(text.strip().splitlines()[-1]))[0]
    finally:
        m.close()


# ---- C22: what the traits say, over generated types ------------------------
HEADS = {'ind20': ('indirect.h', 0, 0), 'pol20': ('polymorphic.h', 1, 0),
         'ind14': ('indirect_cxx14.h', 0, 1), 'pol14': ('polymorphic_cxx14.h', 1, 1)}
TRAIT_BUILDS = [('ind20', 'g++', '20'), ('ind20', 'clang++', '23'), ('pol20', 'g++', '23'),
                ('pol20', 'clang++', '20'), ('ind14', 'g++', '14'), ('ind14', 'clang++', '17'),
                ('pol14', 'g++', '17'), ('pol14', 'clang++', '14'), ('ind14', 'clang++', '20'),
                ('pol14', 'g++', '20')]


def c22_try(s, b, cs):
    """Returns (failing case or None, message or None, (asked, refused) or None)."""
    h, cxx, std = b
    hdr, poly, c14 = HEADS[h]
    with s.lock:
        s.n += 1
        base = os.path.join(s.dir, 't%d' % s.n)
    with open(base + '.cc', 'w') as f:
        f.write(gen22.program(cs, poly, c14))
    rc, _, err = sh([cxx, '-std=c++' + std, '-O0', '-w', '-I' + REPO, '-I' + os.path.join(H, 'traits'),
                     '-DVP_HEADER="%s"' % hdr, '-DVP_POLY=%d' % poly, '-DVP_CXX14=%d' % c14,
                     base + '.cc', '-o', base + '.exe'], cpu=300, wall=max(30, s.left()))
    os.unlink(base + '.cc')
    if no_answer(rc, err):
        return None, None, None
    if rc:
        g = re.findall(r'\b(?:T|B|D|M|run)(\d+)(?:_\d+[xy]?)?\b', err)
        k = int(g[0]) if g and int(g[0]) < len(cs) else 0
        return k, 'does not compile (%s C++%s): %s' % (cxx, std, first_error(err)), None
    rc, out, err = sh([base + '.exe'], cpu=60, wall=200)
    os.unlink(base + '.exe')
    m = re.search(r'^FAIL combo (\d+): (.*)$', out, re.M)
    if m:
        return int(m.group(1)), '%s (%s C++%s)' % (m.group(2), cxx, std), None
    m = re.search(r'^DONE (\d+) 0 (\d+)$', out, re.M)
    if rc or not m:
        return 0, crash_message(rc, err), None
    return None, None, (int(m.group(1)), int(m.group(2)))


def c22_find(s, b, cs, k, msg):
    """The smallest case that still fails, with its message; None if none does."""
    state = [None, msg]

    def bad(group, c):
        _, m, _ = c22_try(s, b, group)
        if m:
            state[:] = [c, m]
        return m is not None
    if bad([], {}):
        return state
    if not bad([cs[k]], cs[k]):
        for c in cs:
            if bad([c], c):
                break
        else:
            return None
    end = time.time() + min(120, max(10, s.left() - 60))
    again = True
    while again and time.time() < end:
        again = False
        for n in gen22.simpler(state[0], HEADS[b[0]][1]):
            if time.time() < end and bad([n], n):
                again = True
                break
    return state


def c22_text(b, c, msg):
    return '# property C22, build %s\n# %s\n%s\n' % ('/'.join(b), msg, json.dumps(c))


def c22_run(s, spec):
    n = 100 if s.tier == 'quick' else 3000
    found = []
    seen = set()

    def one(i):
        if found or s.left() < 150 or (s.tier == 'quick' and time.time() - s.t0 > 150):
            return
        b = TRAIT_BUILDS[i % len(TRAIT_BUILDS)]
        rng = random.Random('%d/%d/traits' % (s.seed, i))
        cs = [gen22.gen(rng, HEADS[b[0]][1]) for _ in range(8)]
        k, msg, count = c22_try(s, b, cs)
        if msg:
            if not s.compiler_works(Build('c22', b[1], b[2], [], [])):
                raise Inconclusive('%s does not work' % b[1])
            with s.lock:
                if found:
                    return
                found.append(None)
            r = c22_find(s, b, cs, min(k, len(cs) - 1), msg)
            if r is None:
                s.note('a failure did not reproduce: ' + msg)
                found.clear()
                return
            found[0] = Violation(r[1], c22_text(b, *r), '/'.join(b))
            return
        if count is None:
            s.note('program %d gave no answer' % i)
            return
        with s.lock:
            s.evals += len(cs)
            s.execs += count[0]
            s.classes['questions answered no'] = s.classes.get('questions answered no', 0) + count[1]
            s.classes['questions answered yes'] = s.classes.get('questions answered yes', 0) + \
                count[0] - count[1]
            for c in cs:
                ts = c['t']['d'] if HEADS[b[0]][1] else [c['t']]
                if any(t['default'] != 'yes' or t['copy'] != 'default' or t['ctors'] or t['greedy']
                       for t in ts):
                    seen.add('/'.join(b) + json.dumps(c, sort_keys=True))
            if len(s.samples) < 3:
                s.samples.append('/'.join(b) + ' ' + json.dumps(cs[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, range(n)))
    s.distinct = len(seen)
    s.builds_done += ['/'.join(b) for b in TRAIT_BUILDS]
    if found and found[0]:
        raise found[0]


def c22_replay(s, text):
    b = tuple(re.search(r'^# property C22, build (\S+)', text, re.M).group(1).split('/'))
    c = json.loads(text.strip().splitlines()[-1])
    return c22_try(s, b, [c] if c else [])[1]


CHECKS2 = {'C21': {
    'run': c21_run, 'replay': c21_replay, 'builds': lambda s: [],
    'rule': 'Random programs of two to four translation units. Each unit includes the headers in a '
    'random order, repeated, between standard headers, at a random standard, compiler, optimisation '
    'level and assertion setting; the owned types live in a namespace of deleted greedy templates '
    '(move, forward, addressof, construct, ...) and the global namespace has types named like those '
    'of std. The units then pass handles to each other. Non-trivial: the units differ and a handle '
    'last written by one unit is copied or moved by another.',
    'technique': 'random program generation over include orders, standards, compilers and sequences '
                 'of operations across translation units, against a model, with shrinking',
    'level_note': 'Sampled programs, gcc 13 and clang 18 with libstdc++.',
}, 'C22': {
    'run': c22_run, 'replay': c22_replay, 'builds': lambda s: [],
    'rule': 'Random owned types: which of twelve kinds of constructors exist and are explicit, greedy '
    'templates, copy and move constructors and assignments defaulted, deleted, non-const, explicit '
    'or absent, further assignments, kinds of ordering and hash; for polymorphic, hierarchies of such '
    'types with public, virtual, private, ambiguous or missing bases, abstract bases and protected '
    'destructors; with three allocators. For each, some 250 questions (constructible, convertible, '
    'assignable, hashable, ordered, from 30 argument types and lists) compared with the same traits '
    'of the owned type; what is promised is also instantiated. Non-trivial: an owned type with '
    'declared constructors or without an ordinary default or copy constructor.',
    'technique': 'random program generation over owned types, differential against the traits of the '
                 'owned type, with shrinking',
    'level_note': 'Sampled types, gcc 13 and clang 18. Where the C++14 headers accept less or look '
                  'less closely (value constructors, inaccessible bases, hash) only what they promise is asked.',
}}
