"""Driver for the generated-input checks: builds harnesses against the code
under test, runs them in parallel processes, attributes crashes to the case that
was running, shrinks failures out of process and writes replay and evidence."""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
H = os.path.join(HERE, 'harness')
JOBS = int(os.environ.get('VP_JOBS', '0')) or os.cpu_count() or 4

SAN = ['-O1', '-g1', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
OPT = ['-O2', '-DNDEBUG']
DBG = ['-O0']
TSAN = ['-O1', '-g1', '-fsanitize=thread']

ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=97:'
                    'allocator_may_return_null=1:handle_segv=1:'
                    'detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:report_thread_leaks=0',
    'LC_ALL': 'C',
})


class Inconclusive(Exception):
    pass


class Violation(Exception):
    """A confirmed violation; carries everything the report needs."""

    def __init__(self, msg, replay_text, where=''):
        Exception.__init__(self, msg)
        self.msg = msg
        self.replay_text = replay_text
        self.where = where


def limit(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def sh(cmd, cpu=300, wall=800, cwd=None, env=None):
    """Runs cmd; returns (rc, stdout, stderr). rc is None on a wall timeout.
    ThreadSanitizer cannot start under some random address layouts: try again."""
    for attempt in range(30):
        rc, out, err = sh_once(cmd, cpu, wall, cwd, env)
        if 'ThreadSanitizer: unexpected memory mapping' not in err:
            return rc, out, err
    return 127, out, err


def sh_once(cmd, cpu, wall, cwd, env):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.DEVNULL, cwd=cwd, env=env or ENV,
                             preexec_fn=limit(cpu), start_new_session=True)
    except OSError as e:
        return 127, '', str(e)
    try:
        out, err = p.communicate(timeout=wall)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')


class Tu:
    """One translation unit of a harness."""

    def __init__(self, src, defines=(), own=False):
        self.src = src if os.path.isabs(src) else os.path.join(H, src)
        self.defines = tuple(defines)
        self.own = own  # does not depend on the code under test


class Build:
    def __init__(self, name, cxx, std, flags, tus, link=(), kind='prop',
                 incs=()):
        self.name, self.cxx, self.std = name, cxx, std
        self.flags, self.tus, self.link, self.kind = list(flags), tus, list(link), kind
        self.incs = list(incs)
        self.exe = None

    def describe(self):
        return '%s -std=c++%s %s' % (self.cxx, self.std, ' '.join(self.flags))


class Session:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.limit = 640 if tier == 'quick' else 6 * 3600
        self.dir = os.path.join(HERE, '.build', '%s-%d' % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.lock = threading.Lock()
        self.notes = []
        self.evals = 0
        self.execs = 0
        self.distinct = 0
        self.samples = []
        self.classes = {}
        self.builds_done = []
        self.known = load_known(prop)
        self.known_hits = {}
        self.built = {}
        self.n = 0

    def left(self):
        return self.limit - (time.time() - self.t0)

    def note(self, s):
        with self.lock:
            self.notes.append(s)
        print('note: ' + s, flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        try:
            os.rmdir(os.path.dirname(self.dir))
        except OSError:
            pass

    # -- building ---------------------------------------------------------
    def compile_cmd(self, b, tu, obj):
        return ([b.cxx, '-std=c++' + b.std] + b.flags + ['-w', '-pthread', '-I' + REPO,
                '-I' + os.path.join(H, 'common'), '-I' + os.path.join(H, 'engine')] +
                ['-I' + i for i in b.incs] +
                ['-D' + d for d in tu.defines] + ['-c', tu.src, '-o', obj])

    def build(self, builds):
        """Builds everything in parallel. Raises Violation when a harness no
        longer compiles although the compiler itself works."""
        names = [b.name for b in builds]
        assert len(set(names)) == len(names), names
        for b in builds:
            if b.name in self.built:
                b.exe = self.built[b.name]
        builds = [b for b in builds if b.name not in self.built]
        jobs = {}
        for b in builds:
            b.objs = []
            for tu in b.tus:
                key = (b.cxx, b.std, tuple(b.flags), tuple(b.incs), tu.src, tu.defines)
                if key not in jobs:
                    self.n += 1
                    jobs[key] = (b, tu, os.path.join(
                        self.dir, 'o%d-%s.o' % (self.n, os.path.basename(tu.src))))
                b.objs.append(jobs[key][2])
        failures = []

        def one(j):
            b, tu, obj = j
            cmd = self.compile_cmd(b, tu, obj)
            for attempt in range(2):
                rc, out, err = sh(cmd, cpu=600, wall=max(60, self.left()))
                if rc == 0:
                    return
                if rc is None:
                    break
            failures.append((b, tu, cmd, rc, err))

        # Longest first: translation units that include the code under test.
        order = sorted(jobs.values(), key=lambda j: j[1].own)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, order))
        if failures:
            failures.sort(key=lambda f: f[0].name)
            b, tu, cmd, rc, err = failures[0]
            self.compile_failed(b, tu, cmd, rc, err)

        def link(b):
            b.exe = os.path.join(self.dir, b.name + '.exe')
            cmd = [b.cxx] + b.flags + b.objs + ['-pthread', '-o', b.exe] + b.link
            for attempt in range(2):
                rc, out, err = sh(cmd, cpu=300)
                if rc == 0:
                    return None
            return (b, cmd, rc, err)

        with ThreadPoolExecutor(JOBS) as ex:
            bad = [x for x in ex.map(link, builds) if x]
        if bad:
            b, cmd, rc, err = bad[0]
            self.compile_failed(b, None, cmd, rc, err)
        for b in builds:
            self.built[b.name] = b.exe
            self.builds_done.append('%s: %s' % (b.name, b.describe()))

    def compiler_works(self, b):
        src = os.path.join(self.dir, 'sane%d.cc' % threading.get_ident())
        with open(src, 'w') as f:
            f.write('#include <memory>\n#include <vector>\nint main(){std::vector<int> '
                    'v(3); return int(v.size())-3;}\n')
        exe = src + '.exe'
        rc, _, _ = sh([b.cxx, '-std=c++' + b.std] + [f for f in b.flags] + [src, '-o', exe]
                      + [l for l in b.link if l.startswith('-f')])
        return rc == 0

    def compile_failed(self, b, tu, cmd, rc, err):
        errors = [l for l in err.splitlines() if 'error' in l]
        head = errors[0] if errors else (err.strip().splitlines() or ['?'])[0]
        if rc is None or not self.compiler_works(b) or 'virtual memory exhausted' in err \
                or 'Killed' in err or 'fatal error: error writing' in err:
            raise Inconclusive('building %s failed for a reason outside the code: %s'
                               % (b.name, head))
        raise Violation(
            'a program that uses the interface as documented no longer compiles (%s): %s'
            % (b.describe(), head),
            '# %s\n# command: %s\n%s\n' % (head, ' '.join(cmd), '\n'.join(err.splitlines()[:60])),
            b.name)

    # -- running ----------------------------------------------------------
    def replay(self, b, text, args=(), cpu=30):
        """Runs one case; returns (failed, message)."""
        with self.lock:
            self.n += 1
            path = os.path.join(self.dir, 'r%d.txt' % self.n)
        with open(path, 'w') as f:
            f.write(text)
        rc, out, err = sh([b.exe, '--replay', path] + list(args), cpu=cpu, wall=4 * cpu)
        os.unlink(path)
        if rc == 0:
            return False, ''
        if rc == 3:
            m = [l for l in out.splitlines() if l.startswith('FAIL')]
            return True, m[-1][5:] if m else 'failed'
        if rc == 2 or rc == 127 or (rc is None):
            return False, 'replay could not run (%s)' % rc
        return True, crash_message(rc, err)

    def run_all(self, runs, total_cpu=None):
        """runs: list of dicts {build, args, replay_args}. Runs all in parallel;
        raises Violation for the first confirmed failure."""
        found = []
        stop = threading.Event()

        def one(r):
            if stop.is_set() or self.left() < 20:
                if not stop.is_set():
                    self.note('skipped a worker of %s: out of time' % r['build'].name)
                return
            try:
                self.one_worker(r)
            except Violation as v:
                found.append(v)
                stop.set()

        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, runs))
        if found:
            found.sort(key=lambda v: len(v.replay_text))
            raise found[0]

    def one_worker(self, r):
        b = r['build']
        with self.lock:
            self.n += 1
            cur = os.path.join(self.dir, 'cur%d' % self.n)
        cpu = r.get('cpu', 240 if self.tier == 'quick' else 3600)
        cmd = [b.exe] + list(r['args']) + ['--current', cur]
        rc, out, err = sh(cmd, cpu=cpu, wall=max(30, min(4 * cpu, self.left())))
        if rc == 0:
            self.absorb(r, out)
            return
        if rc is None or rc in (2, 127):
            self.note('worker %s gave no answer (rc %s) %s' % (b.name, rc, err[-300:]))
            if rc in (2, 127):
                raise Inconclusive('harness error in %s: %s' % (b.name, err[-300:]))
            return
        rargs = list(r.get('replay_args', ()))
        text, msg = None, ''
        if rc == 3:
            m = re.search(r'^FAIL (\{.*\})$', out, re.M)
            if m:
                d = json.loads(m.group(1))
                text, msg = d['case'], d['msg']
                if 'config' in d:
                    text = '# config %s\n%s' % (d['config'], text)
        else:
            msg = crash_message(rc, err)
            text = read_current(cur, b.kind)
        if text:
            ok = True
            for i in range(3):
                failed, m2 = self.replay(b, text, rargs)
                ok = ok and failed
                if failed and m2:
                    msg = m2
            if ok:
                known = self.is_known(msg)
                if known:
                    self.known_hits[known] = msg
                    return
                text, msg = self.shrink(b, text, rargs, msg)
                self.raise_violation(b, rargs, text, msg)
        # Not reproducible from the case alone: try the whole worker again.
        for i in range(2):
            rc2, out2, err2 = sh(cmd, cpu=cpu, wall=max(30, min(4 * cpu, self.left())))
            if rc2 in (0, 2, 127, None):
                self.note('a failure of %s did not reproduce: %s' % (b.name, msg[:300]))
                return
        known = self.is_known(msg)
        if known:
            self.known_hits[known] = msg
            return
        raise Violation(msg + ' (needs the whole run)',
                        '# build: %s\n# run: %s\n# %s\n%s\n' % (
                            b.describe(), ' '.join(map(str, r['args'])), msg, text or ''), b.name)

    def raise_violation(self, b, rargs, text, msg):
        head = ['# property %s, harness %s' % (self.prop, b.name),
                '# build: ' + b.describe(),
                '# replay: python3 run.py %s --replay <this file>' % self.prop,
                '# build-name: ' + b.name]
        if rargs:
            head.append('# replay-args: ' + ' '.join(map(str, rargs)))
        for l in msg.splitlines()[:12]:
            head.append('# ' + l)
        if not text.startswith('# config'):
            body = text
            full = '\n'.join(head) + '\n' + body
        else:
            first, rest = text.split('\n', 1)
            full = first + '\n' + '\n'.join(head) + '\n' + rest
        raise Violation(msg, full, b.name)

    def absorb(self, r, out):
        m = re.search(r'^OK (\{.*\})$', out, re.M)
        if not m:
            self.note('worker of %s ended without a report' % r['build'].name)
            return
        d = json.loads(m.group(1))
        with self.lock:
            self.evals += d['cases']
            self.execs += d.get('execs', 0)
            self.distinct += d['distinct']
            for k, v in d['features'].items():
                self.classes[k] = self.classes.get(k, 0) + v
            for s in d['samples']:
                if len(self.samples) < 8 and all(s[:40] != t[:40] or len(self.samples) < 3
                                                 for t in self.samples):
                    self.samples.append(s)

    # -- shrinking --------------------------------------------------------
    def shrink(self, b, text, rargs, msg):
        deadline = time.time() + min(90, max(10, self.left() - 60))
        state = {'msg': msg}

        def bad(t):
            if time.time() > deadline:
                return False
            f, m = self.replay(b, t, rargs)
            if f:
                state['msg'] = m or state['msg']
            return f
        best = shrink_engine(text, bad, deadline) if b.kind == 'engine' \
            else shrink_tape(text, bad, deadline)
        ok, m = self.replay(b, best, rargs)
        if ok:
            return best, m
        return text, msg

    def is_known(self, msg):
        for key, what in self.known:
            if key and key in msg:
                return what
        return None


def crash_message(rc, err):
    lines = err.splitlines()
    for l in lines:
        if 'runtime error:' in l or 'ERROR: AddressSanitizer' in l or 'terminate called' in l \
                or 'Assertion' in l or 'WARNING: ThreadSanitizer' in l:
            return 'crash: ' + re.sub(r'0x[0-9a-f]+', '0x..', l.strip())[:400]
    if rc in (-24, -9):
        return 'crash: ran out of CPU time (hang)'
    if rc is not None and rc < 0:
        return 'crash: killed by signal %d' % -rc
    return 'crash: exit status %s %s' % (rc, ' '.join(lines[-2:])[:300])


def read_current(path, kind):
    try:
        data = open(path, 'rb').read()
    except OSError:
        return None
    if kind == 'engine':
        t = data.split(b'\0', 1)[0].decode('utf-8', 'replace')
        return t or None
    head = data[:256].split(b'\0', 1)[0].decode()
    if not head:
        return None
    (n,) = struct.unpack_from('<I', data, 256)
    n = min(n, (len(data) - 260) // 4)
    tape = struct.unpack_from('<%dI' % n, data, 260)
    return head + 'tape ' + ' '.join(map(str, tape)) + '\n'


def ddmin(items, bad):
    n = max(1, len(items) // 2)
    while n >= 1:
        i = 0
        changed = False
        while i < len(items):
            cand = items[:i] + items[i + n:]
            if bad(cand):
                items = cand
                changed = True
            else:
                i += n
        if n == 1 and not changed:
            break
        n = n // 2 if n > 1 else (1 if changed else 0)
    return items


def shrink_engine(text, bad, deadline):
    head = [l for l in text.splitlines() if l.startswith('#')]
    sweep = -1
    ops = []
    for l in text.splitlines():
        if l.startswith('sweep'):
            sweep = int(l.split()[1])
        elif l.startswith('op'):
            ops.append(l)
    marked = [(o, i == sweep) for i, o in enumerate(ops)]

    def render(ms):
        out = list(head)
        for i, (o, m) in enumerate(ms):
            if m:
                out.append('sweep %d' % i)
        out += [o for o, m in ms]
        return '\n'.join(out) + '\n'
    if sweep >= 0:
        plain = [(o, False) for o, m in marked]
        if bad(render(plain)):
            marked = plain
    marked = ddmin(marked, lambda ms: bool(ms) and bad(render(ms)))
    for field, val in (('fault', 0), ('ext', 0), ('arena', 0), ('how', 0), ('kind', 0),
                       ('v', 1), ('a', 0), ('b', 0)):
        for i in range(len(marked)):
            o, m = marked[i]
            o2 = re.sub(r'\b%s=-?\d+' % field, '%s=%d' % (field, val), o)
            if o2 != o:
                cand = marked[:i] + [(o2, m)] + marked[i + 1:]
                if bad(render(cand)):
                    marked = cand
            if time.time() > deadline:
                break
    marked = ddmin(marked, lambda ms: bool(ms) and bad(render(ms)))
    return render(marked)


def shrink_tape(text, bad, deadline):
    m = re.search(r'^suite (\S+)$', text, re.M)
    t = re.search(r'^tape(.*)$', text, re.M)
    if not m or not t:
        return text
    name = m.group(1)
    tape = [int(x) for x in t.group(1).split()]

    def render(x):
        return 'suite %s\ntape %s\n' % (name, ' '.join(map(str, x)))
    for rnd in range(3):
        before = list(tape)
        # Cut the tail first, then blocks, then make choices smaller.
        lo = 0
        hi = len(tape)
        while lo < hi:
            mid = (lo + hi) // 2
            if bad(render(tape[:mid])):
                hi = mid
            else:
                lo = mid + 1
        if hi < len(tape) and bad(render(tape[:hi])):
            tape = tape[:hi]
        tape = ddmin(tape, lambda x: bad(render(x)))
        for i in range(len(tape)):
            for v in (0, 1, tape[i] // 2, tape[i] - 1):
                if 0 <= v < tape[i]:
                    cand = tape[:i] + [v] + tape[i + 1:]
                    if bad(render(cand)):
                        tape = cand
                        break
            if time.time() > deadline:
                break
        if tape == before or time.time() > deadline:
            break
    return render(tape)


def load_known(prop):
    """known_findings.txt: lines 'known: property=<id> key=<<text>> <what fails>'.
    Lines starting with 'fixed:' suppress nothing."""
    r = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) key=<<(.*?)>> (.*)', l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return r


def write_evidence(s, spec, violations):
    cov = {
        'evaluations': s.evals,
        'distinct_nontrivial': s.distinct,
        'rule': spec['rule'],
        'samples': s.samples[:8] or ['(none kept)'],
        'executions_or_checks': s.execs,
        'classes': dict(sorted(s.classes.items())),
        'builds': s.builds_done,
    }
    if s.notes:
        cov['notes'] = s.notes[:20]
    cov.update(spec.get('extra', {}))
    e = {
        'property': s.prop, 'tier': s.tier, 'seed': s.seed,
        'level': spec.get('level', 'exploration'), 'coverage': cov,
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - s.t0, 2), 'violations': violations,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', s.prop + '.json')
    tmp = path + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(e, f, indent=1)
        f.write('\n')
    os.replace(tmp, path)


def main(checks):
    args = sys.argv[1:]
    if not args or args[0] not in checks:
        print('usage: run.py <property> [quick|thorough] [--replay FILE]')
        print(' '.join(sorted(checks)))
        return 2
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in args[1:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = checks[prop]
    s = Session(prop, tier, seed)
    rc = 0
    try:
        if '--replay' in args:
            return do_replay(s, spec, args[args.index('--replay') + 1])
        violations = 0
        try:
            spec['run'](s, spec)
        except Violation as v:
            violations = 1
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            h = hashlib.sha1(v.replay_text.encode()).hexdigest()[:10]
            path = os.path.join(HERE, 'replays', '%s-%s.txt' % (prop, h))
            with open(path, 'w') as f:
                f.write(v.replay_text)
            print('%s: %s' % (v.where, v.msg))
            print(v.replay_text)
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            rc = 1
        except Inconclusive as e:
            s.note('inconclusive: %s' % e)
            rc = 0 if s.evals else 2
        for what, msg in sorted(s.known_hits.items()):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        write_evidence(s, spec, violations)
        if rc == 0:
            print('%s held: %d cases (%d distinct non-trivial), %.1f s' %
                  (prop, s.evals, s.distinct, time.time() - s.t0))
        return rc
    finally:
        s.close()


def do_replay(s, spec, path):
    text = open(path).read()
    if 'replay' in spec:
        msg = spec['replay'](s, text)
        print('FAIL ' + msg if msg else 'PASS')
        return 1 if msg else 0
    name = re.search(r'^# build-name: (\S+)', text, re.M)
    if not name:
        print(text)
        print('this replay is a command or a compiler log, not a case')
        return 2
    builds = [b for b in spec['builds'](s) if b.name == name.group(1)]
    if not builds:
        print('no such harness: ' + name.group(1))
        return 2
    s.build(builds)
    a = re.search(r'^# replay-args: (.*)$', text, re.M)
    failed, msg = s.replay(builds[0], text, a.group(1).split() if a else ())
    print('FAIL ' + msg if failed else 'PASS')
    return 1 if failed else 0
