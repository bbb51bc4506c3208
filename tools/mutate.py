"""Systematic source mutants: which survive the repository's tests, and which of those the checks report.

mutate.py guarded N SEED       write N random mutants that act only on special inputs (after "tests", take only those that the tests kill without the guard)
mutate.py list                 write /tmp/mut/mutants.json (all mutants)
mutate.py tests                run the stable tests on each, write /tmp/mut/survivors.json
mutate.py checks [SEL]         run the checks on each survivor, append to /tmp/mut/checked.jsonl
Everything happens in scratch copies under /tmp/mut.  MUT_REPO, MUT_VERIF: other copies to take; MUT_N: share of
the cases; MUT_W: mutants at a time.
"""
import ast
import json
import os
import subprocess
import sys
import time

REPO, W, PY = os.environ.get('MUT_REPO', '/repo'), '/tmp/mut', '/opt/venv/bin/python'
FILES = ['_functions.py', 'measurement.py', 'plotting.py', 'transformation.py'] + ['objects/' + f for f in (
    '_base_array.py', '_base_line_plane.py', '_base_spatial.py', '_base_sphere.py', '_mixins.py', 'circle.py', 'cylinder.py', 'line.py',
    'line_segment.py', 'plane.py', 'point.py', 'points.py', 'sphere.py', 'triangle.py', 'vector.py')]
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!=', '<='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.Pow: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['*']}
PAIRS = [('point', 'vector'), ('point_a', 'point_b'), ('point_b', 'point_c'), ('point_a', 'point_c'), ('min', 'max'), ('any', 'all'), ('sin', 'cos'),
         ('normal', 'vector'), ('isclose', 'equal'), ('dot', 'inner'), ('hstack', 'vstack'), ('arccos', 'arcsin'), ('zeros', 'ones'), ('ceil', 'floor'), ('argmin', 'argmax'),
         ('cartesian_x', 'cartesian_y'), ('is_close', 'is_equal'), ('degrees', 'radians'), ('is_parallel', 'is_perpendicular')]
SWAP = {}
for a, b in PAIRS:
    SWAP.setdefault(a, []).append(b)
    SWAP.setdefault(b, []).append(a)


def mutants_of(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    off = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
    text = lambda n: raw[slice(*span(n))].decode()
    out = []
    ann = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for a in f.args.args + f.args.kwonlyargs + [f.args.vararg, f.args.kwarg]:
                if a is not None and a.annotation:
                    ann |= {id(x) for x in ast.walk(a.annotation)}
            for d in f.decorator_list + ([f.returns] if f.returns else []):
                ann |= {id(x) for x in ast.walk(d)}
        if isinstance(f, ast.AnnAssign):
            ann |= {id(x) for x in ast.walk(f.annotation)}
        if isinstance(f, ast.Raise):
            ann |= {id(x) for x in ast.walk(f)}
        if isinstance(f, (ast.Import, ast.ImportFrom)):
            ann |= {id(x) for x in ast.walk(f)}

    def add(n, new, what):
        s, e = span(n)
        if raw[s:e].decode() != new:
            out.append((n.lineno, s, e, new, what))

    for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
        params = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
        local = params + sorted({t.id for x in ast.walk(fn) for t in ([x] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) else [])})
        for dflt in fn.args.defaults + [d for d in fn.args.kw_defaults if d]:
            if isinstance(dflt, ast.Constant) and type(dflt.value) in (int, float):
                add(dflt, repr(dflt.value + 1 if type(dflt.value) is int else dflt.value * 1.5), 'default')
            if isinstance(dflt, ast.Constant) and type(dflt.value) is bool:
                add(dflt, repr(not dflt.value), 'default')
        body = fn.body
        for st in body:
            for n in ast.walk(st):
                if id(n) in ann:
                    continue
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    for o in CMP[type(n.ops[0])]:
                        add(n, f'{text(n.left)} {o} {text(n.comparators[0])}', 'compare')
                elif isinstance(n, ast.Compare):
                    for i in range(len(n.ops)):
                        for o in CMP[type(n.ops[i])]:
                            t = text(n.left)
                            for j, (op, c) in enumerate(zip(n.ops, n.comparators)):
                                t += f' {o if i == j else {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "=="}[type(op)]} {text(c)}'
                            add(n, t, 'compare')
                elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                    for o in BIN[type(n.op)]:
                        add(n, f'({text(n.left)} {o} {text(n.right)})', 'binop')
                    add(n, text(n.left), 'left')
                    add(n, text(n.right), 'right')
                elif isinstance(n, ast.UnaryOp):
                    add(n, text(n.operand), 'unary')
                elif isinstance(n, ast.BoolOp):
                    add(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(text(v) for v in n.values) + ')', 'boolop')
                    for v in n.values:
                        add(n, text(v), 'boolpart')
                elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                    v = n.value
                    for w in ([v + 1, v - 1] if type(v) is int else [v * 1.1]):
                        add(n, repr(w) if w >= 0 else f'({w})', 'number')
                elif isinstance(n, ast.Constant) and type(n.value) is bool:
                    add(n, repr(not n.value), 'bool')
                elif isinstance(n, ast.IfExp):
                    add(n, text(n.body), 'ifexp')
                    add(n, text(n.orelse), 'ifexp')
                elif isinstance(n, ast.If):
                    add(n.test, 'True', 'iftrue')
                    add(n.test, 'False', 'iffalse')
                    add(n.test, f'not ({text(n.test)})', 'ifnot')
                elif isinstance(n, ast.Call):
                    parts = [text(a) for a in n.args] + [f'{k.arg}={text(k.value)}' if k.arg else f'**{text(k.value)}' for k in n.keywords]
                    for i in range(len(n.args), len(parts)):
                        add(n, f'{text(n.func)}({", ".join(parts[:i] + parts[i + 1:])})', 'dropkw')
                    if len(n.args) >= 2:
                        for i in range(len(n.args) - 1):
                            q = list(parts)
                            q[i], q[i + 1] = q[i + 1], q[i]
                            add(n, f'{text(n.func)}({", ".join(q)})', 'swapargs')
                    if len(n.args) == 1 and not n.keywords:
                        add(n, text(n.args[0]), 'unwrap')
                    if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'math')):
                        add(n, text(n.func.value), 'dropcall')
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    for a in SWAP.get(n.attr, []):
                        add(n, f'{text(n.value)}.{a}', 'attr')
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local:
                    k = 0
                    for a in local:
                        if a != n.id and a != 'cls' and k < 3 and n.id != 'cls':
                            add(n, a, 'name')
                            k += 1
                elif isinstance(n, ast.Return) and n.value is not None:
                    add(n.value, f'({text(n.value)}) * (1 + 1e-9)', 'perturb')
                    add(n.value, f'({text(n.value)}).astype("f4").astype(float)', 'float32')
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    add(n.value, f'({text(n.value)}) * (1 + 1e-9)', 'perturb')
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                    add(n, text(n.value), 'nosub')
                if isinstance(n, (ast.Expr, ast.Raise, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    add(n, 'pass', 'delete')
                if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                    add(n, 'pass', 'delete')
    seen, res = set(), []
    for m in out:
        if m[1:4] in seen:
            continue
        seen.add(m[1:4])
        new = (raw[:m[1]] + m[3].encode() + raw[m[2]:]).decode()
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append(m)
    return res


def cmd_list():
    all_ = []
    for f in FILES:
        for m in mutants_of(f'{REPO}/src/skspatial/{f}'):
            all_.append({'id': len(all_), 'file': f, 'line': m[0], 's': m[1], 'e': m[2], 'new': m[3], 'what': m[4]})
    json.dump(all_, open(f'{W}/mutants.json', 'w'), indent=0)
    print(len(all_))


GUARD = r"""
import zlib

import numpy as np
count = [0]


def parts(x, depth=0):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (bool, np.bool_)):
        return
    elif isinstance(x, (int, float, np.number)):
        yield np.asarray(x, float)
    elif isinstance(x, (list, tuple)) and depth < 3:
        try:
            yield np.asarray(x, float)
        except Exception:
            for y in x:
                yield from parts(y, depth + 1)
    elif hasattr(x, '__dict__') and type(x).__module__.startswith('skspatial') and depth < 2:
        for y in vars(x).values():
            yield from parts(y, depth + 1)


def g(k, loc):
    a = [x for v in list(loc.values()) for x in parts(v)]
    a = [x for x in a if x.dtype.kind in 'iuf' and x.size]
    arrays = [x for x in a if x.ndim]
    if not a:
        return False
    vals = np.abs(np.concatenate([np.asarray(x, float).ravel() for x in a]))
    nz = vals[vals > 0]
    if k == 'hash':
        return zlib.crc32(vals.tobytes()) % 40 == 0
    if k == 'tiny':
        return bool((nz < 1e-6).any())
    if k == 'huge':
        return bool((nz > 1e6).any())
    if k == 'dim4':
        return any(x.shape[-1] >= 4 and x.ndim < 3 for x in arrays)
    if k == 'dim1':
        return any(x.shape[-1] == 1 for x in arrays)
    if k == 'many':
        return any(x.ndim > 1 and len(x) > 40 for x in arrays)
    if k == 'int':
        return any(x.dtype.kind in 'iu' for x in arrays)
    if k == 'f4':
        return any(x.dtype.itemsize < 8 for x in arrays)
    if k == 'negative':
        return bool(arrays) and bool((arrays[-1] < 0).all())
    if k == 'equal':
        return any(x.ndim == 1 and len(x) > 1 and x.all() and np.ptp(np.abs(np.asarray(x, float))) == 0 for x in arrays)
    if k == 'ratio':
        return nz.size > 1 and bool(nz.max() > 1e6 * nz.min())
    if k == 'same':
        return any(i != j and x.shape == y.shape and np.array_equal(x, y) for i, x in enumerate(arrays) for j, y in enumerate(arrays[:i]))
    if k == 'kw':
        return bool(loc.get('kwargs')) or loc.get('tol') is not None or loc.get('n_digits') is not None
    if k == 'frac':
        return bool(arrays) and all(np.abs(x).max() < 1 for x in arrays)
    if k == 'seventh':
        count[0] += 1
        return count[0] % 7 == 0
"""
KINDS = ['hash', 'hash', 'tiny', 'huge', 'dim4', 'dim1', 'many', 'int', 'f4', 'negative', 'equal', 'ratio', 'same', 'kw', 'frac', 'seventh']


def cmd_guarded(n, seed):
    import random
    rng = random.Random(seed)
    all_ = []
    for f in FILES:
        raw = open(f'{REPO}/src/skspatial/{f}', 'rb').read()
        for m in mutants_of(f'{REPO}/src/skspatial/{f}'):
            if m[4] in ('delete', 'default', 'perturb', 'float32') or m[3] == 'pass':
                continue
            k = rng.choice(KINDS)
            old = raw[m[1]:m[2]].decode()
            new = f"(({m[3]}) if __import__('_mutguard').g('{k}', locals()) else ({old}))"
            all_.append(dict(file=f, line=m[0], s=m[1], e=m[2], new=new, plain=m[3], what=f'{m[4]} {k}'))
    by = {}
    for m in all_:
        by.setdefault(m['file'], []).append(m)
    pick = []
    while len(pick) < n:                            # the files in turn, so that small ones count
        f = rng.choice(FILES)
        if by[f]:
            pick.append(by[f].pop(rng.randrange(len(by[f]))))
    for i, m in enumerate(pick):
        m['id'] = i
    json.dump(pick, open(f'{W}/mutants.json', 'w'), indent=0)


def apply(copy, m):
    if 'plain' in m:
        open(f'{copy}/src/_mutguard.py', 'w').write(GUARD)
    raw = open(f"{REPO}/src/skspatial/{m['file']}", 'rb').read()
    open(f"{copy}/src/skspatial/{m['file']}", 'wb').write(raw[:m['s']] + m['new'].encode() + raw[m['e']:])


def unapply(copy, m):
    open(f"{copy}/src/skspatial/{m['file']}", 'wb').write(open(f"{REPO}/src/skspatial/{m['file']}", 'rb').read())


SERVER = r'''
import json, os, sys, signal
copy = sys.argv[1]
sys.path[:0] = [copy + '/src', copy]
os.chdir(copy)
import numpy, pytest, scipy.optimize, scipy.spatial, matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot, mpl_toolkits.mplot3d, pytest_timeout
ARGS = ['-q', '-p', 'no:cacheprovider', '--timeout=60', '--doctest-modules', '--doctest-glob=README.md', '-o', 'addopts=', 'tests', 'src', 'README.md']
class P:
    def __init__(self, bad): self.bad, self.fail, self.seen = bad, [], 0
    def pytest_runtest_logreport(self, report):
        self.seen += report.when == 'call'
        if report.failed and report.nodeid not in self.bad:
            self.fail.append(report.nodeid)
            if self.bad: os._exit(1)
bad = set()
def once():
    p = P(bad)
    pid = os.fork()
    if pid == 0:
        d = os.open(os.devnull, 1); os.dup2(d, 1); os.dup2(d, 2)
        signal.alarm(90)
        rc = pytest.main(ARGS, plugins=[p])
        if not bad:
            json.dump([p.fail, p.seen], open(copy + '.base', 'w'))
        os._exit(0 if p.seen == SEEN or not bad else 1)
    return os.waitpid(pid, 0)[1]
SEEN = 0
once()
b, SEEN = json.load(open(copy + '.base'))
bad = set(b)
assert once() == 0, 'unchanged'
print('ready', len(bad), SEEN, flush=True)
for line in sys.stdin:
    print('S' if once() == 0 else 'K', flush=True)
'''


def cmd_tests():
    ms = json.load(open(f'{W}/mutants.json'))
    import threading
    open(f'{W}/server.py', 'w').write(SERVER)
    todo, res, lock = list(ms)[::-1], [], threading.Lock()

    def work(k):
        copy = f'{W}/copy{k}'
        subprocess.run(['rm', '-rf', copy])
        subprocess.run(['cp', '-a', REPO, copy])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', MPLCONFIGDIR=f'{W}/mpl{k}')
        p = subprocess.Popen([PY, f'{W}/server.py', copy], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
        print(p.stdout.readline().strip(), flush=True)
        while True:
            with lock:
                if not todo:
                    break
                m = todo.pop()
            r = 'S'
            for x in [dict(m, new=m['plain']), m] if 'plain' in m else [m]:
                apply(copy, x)
                p.stdin.write('go\n')
                p.stdin.flush()
                r = p.stdout.readline().strip()
                unapply(copy, m)
                if x is not m:
                    if r != 'K':
                        r = 'K'                     # perhaps no change at all
                        break
            with lock:
                if r != 'K':
                    res.append(m)
                if m['id'] % 200 == 0:
                    print(m['id'], len(res), flush=True)
        p.stdin.close()

    ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res.sort(key=lambda m: m['id'])
    json.dump(res, open(f'{W}/survivors.json', 'w'), indent=0)
    print('survivors', len(res), 'of', len(ms))


MAP = {'_functions.py': 'C08 C23 C10 C12 C13 C11 C09 C14', 'measurement.py': 'C18 C17', 'plotting.py': 'C22', 'transformation.py': 'C20',
       '_base_array.py': 'C01 C02 C14 C04 C23', '_base_line_plane.py': 'C04 C08 C23', '_base_spatial.py': 'C04 C22', '_base_sphere.py': 'C08 C07 C04 C23',
       '_mixins.py': 'C19', 'circle.py': 'C12 C16 C08 C04 C22 C23', 'cylinder.py': 'C13 C16 C19 C04 C22 C23', 'line.py': 'C10 C07 C08 C09 C15 C06 C20 C04 C12 C22 C23',
       'line_segment.py': 'C11 C04 C08 C22 C23', 'plane.py': 'C10 C07 C08 C09 C15 C19 C04 C22 C23', 'point.py': 'C08 C22 C05 C04', 'points.py': 'C14 C15 C23 C22 C01',
       'sphere.py': 'C16 C12 C08 C07 C19 C04 C22', 'triangle.py': 'C17 C18 C04 C22 C23', 'vector.py': 'C05 C06 C07 C04 C22 C23'}


def cmd_checks(sel):
    ms = json.load(open(f'{W}/survivors.json'))
    done = {json.loads(l)['id'] for l in open(f'{W}/checked.jsonl')} if os.path.exists(f'{W}/checked.jsonl') else set()
    import threading
    n = os.environ.get('MUT_N', '0.5')
    todo, lock = [m for m in ms if m['id'] not in done and (not sel or m['file'] in sel)][::-1], threading.Lock()

    def work(k):
        copy = f'{W}/chk{k}'
        subprocess.run(['rm', '-rf', copy])
        subprocess.run(['cp', '-a', REPO, copy])
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            apply(copy, m)
            first = MAP[os.path.basename(m['file'])].split() + ['C24', 'C21']
            if m['what'].endswith('seventh'):
                first.insert(0, 'C03')
            rest = [f'C{i:02d}' for i in range(1, 24) if f'C{i:02d}' not in first] if os.environ.get('MUT_ALL') else []
            hit = None
            t0 = time.time()
            for c in first + rest:
                env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED='5', VERIF_TIER='quick', VERIF_OUT=f'{W}/out{k}', VERIF_NOSHRINK='1', PYTHONDONTWRITEBYTECODE='1')
                try:
                    r = subprocess.run(['./check', c, '--n', n], cwd=os.environ.get('MUT_VERIF', '/verif'), capture_output=True, text=True, env=env, timeout=600)
                except subprocess.TimeoutExpired:
                    hit = (c, 'timeout', '')
                    break
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    hit = (c, 1, r.stdout[:300])
                    break
                if r.returncode not in (0, 1):
                    hit = (c, r.returncode, (r.stdout + r.stderr)[-300:])
                    break
            unapply(copy, m)
            with lock:
                open(f'{W}/checked.jsonl', 'a').write(json.dumps(dict(m, hit=hit, t=round(time.time() - t0))) + '\n')

    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get('MUT_W', '4')))]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    a = sys.argv[1:]
    os.makedirs(W, exist_ok=True)
    {'guarded': lambda: cmd_guarded(int(a[1]), int(a[2])), 'list': cmd_list, 'tests': cmd_tests, 'checks': lambda: cmd_checks(a[1:])}[a[0]]()
