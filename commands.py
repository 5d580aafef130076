"""C26: the reducer of compile commands in scripts/."""
import json
import os
import random
import shutil
from concurrent.futures import ThreadPoolExecutor

from vlib import Inconclusive, JOBS, REPO, Violation, crash_message, ddmin, sh

DIRS = ['', 'src', 'build', 'build2', 'build/gen', 'src/build', 'exploration', 'exploration_more', 'cmake-x',
        'Build', 'dir with space', 'b\u00fcild', 'compile_checks', '..']
FILES = ['a.cc', 'b.cc', 'build', 'build.cc', 'exploration.cc', 'c.cpp', 'src.cc', 'x y.cc', '\u00e9.cc',
         'compile_checks.cc', 'A.cc', 'B.CC', 'd.cxx', 'e.c', 'indirect_test.cc']


def gen_file(rng, names):
    while True:
        d, f = rng.choice(DIRS), rng.choice(FILES)
        if names and (' ' in d + f):  # names are separated by spaces
            continue
        return d + '/' + f if d else f


def gen(rng):
    names = rng.random() < 0.4
    pool = [gen_file(rng, names) for _ in range(rng.randint(1, 6))]
    return {'names': names, 'root': rng.choice(['own', 'own', 'r', 'a b', 'build']),
            'order': rng.randrange(3), 'cwd': rng.choice(['', '', 'scripts', '..', '/']), 'raw': rng.random() < 0.5,
            'exclude': [rng.choice(DIRS[1:-1]) + rng.choice(['', '', '', '/'])
                        for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))],
            # file, which command, further keys
            'entries': [[rng.choice(pool), rng.randrange(4), rng.randrange(4)]
                        for _ in range(rng.choice([0, 1, 3, 8, 8, 20]))]}


def command(root, e):
    path = os.path.join(root, e[0]) if not e[0].startswith('../') else \
        os.path.join(os.path.dirname(root), e[0][3:])
    r = {'file': path, 'directory': root + '/b%d' % e[1]}
    if e[2] & 1:
        r['output'] = 'o%d.o' % e[1]
    if e[2] & 2:
        r['arguments'] = ['g++', '-DX=%d' % e[1], '-c', path]
    else:
        r['command'] = 'g++ -DX="%d" -c %s' % (e[1], path)
    return r


def expected(c, root):
    out = {}
    ex = [d.rstrip('/').split('/') for d in c['exclude']]
    for e in c['entries']:
        r = command(root, e)
        parts = e[0].split('/')
        if any(parts[:len(d)] == d and len(parts) > len(d) for d in ex):
            continue
        out.setdefault(r['file'], r)
    return out


def check(s, c, k):
    """Runs one case in its own directory; a message if it fails."""
    top = os.path.join(s.dir, 'c%s' % k)
    os.makedirs(top)
    try:
        if c['root'] == 'own':
            root = os.path.realpath(REPO)
        else:
            root = os.path.join(top, c['root'])
            shutil.copytree(os.path.join(REPO, 'scripts'), os.path.join(root, 'scripts'))
        inp = os.path.join(top, 'in.json')
        with open(inp, 'w', encoding='utf-8') as f:
            json.dump([command(root, e) for e in c['entries']], f, ensure_ascii=not c['raw'])
        opts = [['--names-only']] if c['names'] else []
        if c['exclude']:
            opts.append(['--exclude_dirs'] + c['exclude'])
        if c['order'] == 0:
            args = [inp] + sum(opts, [])
        elif c['order'] == 1:
            args = [inp] + sum(reversed(opts), [])
        elif c['names']:  # the list of directories takes all that follows
            args = sum(reversed(opts), []) + [inp]
        else:
            args = sum(opts, []) + ['--', inp] if opts else [inp]
        rc, out, err = sh(['python3', '-B', '-X', 'utf8', os.path.join(root, 'scripts', 'reduce_compile_commands.py')] +
                          args, cpu=60, wall=120, cwd=os.path.join(root, c['cwd']))
        if rc != 0:
            return 'the script failed: ' + (err.strip().splitlines() or [crash_message(rc, err)])[-1]
        want = expected(c, root)
        if c['names']:
            got = [os.path.normpath(os.path.join(root, n)) for n in out.split()]
            if len(set(got)) != len(got):
                return 'a file is named twice'
            if set(got) != set(want):
                return 'named files: missing %s, unexpected %s' % (
                    sorted(os.path.relpath(x, root) for x in set(want) - set(got)),
                    sorted(os.path.relpath(x, root) for x in set(got) - set(want)))
            return ''
        try:
            got = json.loads(out)
        except ValueError:
            return 'the output is not JSON'
        if not isinstance(got, list) or any(not isinstance(g, dict) or 'file' not in g for g in got):
            return 'the output is not a list of commands'
        files = [g['file'] for g in got]
        if len(set(files)) != len(files):
            return 'a file has two commands'
        if set(files) != set(want):
            return 'commands: missing %s, unexpected %s' % (
                sorted(os.path.relpath(x, root) for x in set(want) - set(files)),
                sorted(os.path.relpath(x, root) for x in set(files) - set(want)))
        for g in got:
            if g != want[g['file']]:
                return 'not the first command of %s' % os.path.relpath(g['file'], root)
        return ''
    finally:
        shutil.rmtree(top, ignore_errors=True)


def python_works(s):
    rc, out, _ = sh(['python3', '-B', '-X', 'utf8', '-c', 'import argparse, json; print(json.dumps([1]))'])
    if rc != 0 or out.strip() != '[1]':
        raise Inconclusive('python3 does not work')


def shrink(s, c, msg):
    best = [c, msg]

    def bad(n):
        with s.lock:
            s.n += 1
            k = 's%d' % s.n
        m = check(s, n, k)
        if m:
            best[:] = [n, m]
        return bool(m)
    if not bad(c) or not bad(c):
        return None
    ddmin(list(c['entries']), lambda x: bad(dict(best[0], entries=x)))
    for k, v in (('names', False), ('root', 'own'), ('order', 0), ('raw', False), ('cwd', ''), ('exclude', [])):
        if best[0][k] != v:
            bad(dict(best[0], **{k: v}))
    for d in list(best[0]['exclude']):
        if len(best[0]['exclude']) > 1:
            bad(dict(best[0], exclude=[x for x in best[0]['exclude'] if x != d]))
    return best


def c26_run(s, spec):
    n = 2000 if s.tier == 'quick' else 60000
    found, seen = [], set()

    def one(i):
        if found or s.left() < 60:
            return
        c = gen(random.Random('%d/%d/commands' % (s.seed, i)))
        msg = check(s, c, i)
        with s.lock:
            if msg:
                if not found:
                    found.append((c, msg))
                return
            s.evals += 1
            s.execs += len(c['entries'])
            files = [e[0] for e in c['entries']]
            again = len(set(files)) != len(files)
            if again or c['exclude']:
                seen.add(json.dumps(c, sort_keys=True))
            for name, on in (('a file again', again), ('excluded directories', bool(c['exclude'])),
                             ('names only', c['names']), ('no commands', not files)):
                if on:
                    s.classes[name] = s.classes.get(name, 0) + 1
            if len(s.samples) < 3 and again:
                s.samples.append(json.dumps(c))
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, range(n)))
    finally:
        s.distinct = len(seen)
        s.builds_done.append('python3')
    if found:
        python_works(s)
        b = shrink(s, *found[0])
        if b is None:
            raise Inconclusive('a failure did not reproduce: ' + found[0][1])
        raise Violation(b[1], '# property C26\n# %s\n%s\n' % (b[1], json.dumps(b[0])), 'commands')


def c26_replay(s, text):
    return check(s, json.loads(text.strip().splitlines()[-1]), 'replay')


CHECKS4 = {'C26': {
    'run': c26_run, 'replay': c26_replay, 'builds': lambda s: [],
    'rule': 'Random compile_commands.json files (files with several commands, in directories whose names are '
    'prefixes of each other, outside the project, with other characters) and random options. Non-trivial: a '
    'file has several commands, or directories are excluded.',
    'technique': 'random generation of compilation databases, against a model, with shrinking',
    'level_note': 'Sampled databases of at most 20 commands with absolute, normalised file names, as CMake '
    'writes them.',
}}
