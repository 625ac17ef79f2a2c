"""Samples small mutations of the code and reports those no check sees.

    python3 tools/mutate.py coverage            # once: lines each check runs
    python3 tools/mutate.py run N SEED [FILE..] # N mutants, results appended
                                                # to WORK/results.jsonl

Works on scratch copies under WORK (/tmp/mutate); a development aid, not part
of any check.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = '/tmp/mutate'
PY = '/opt/venv/bin/python'
CHECKS = ['C%02d' % i for i in range(1, 28)]
FILES = ['bicycle.py', 'com.py', 'conversions.py', 'geometry.py',
         'inertia.py', 'io.py', 'main.py', 'models.py', 'parameter_sets.py',
         'period.py', 'plot.py', 'rider.py', 'tables.py', 'app.py',
         'parameter_dicts.py']
RUNNER = r'''
import sys, os, json
verif, prop, scale, cov = sys.argv[1:5]
sys.path.insert(0, verif)
os.chdir(verif)
import importlib
sys.path.insert(0, os.environ['VP_REPO'])
import matplotlib
matplotlib.use('Agg')
lines = set()
if cov != '-':
    pkg = os.path.join(os.environ['VP_REPO'], 'bicycleparameters') + '/'
    m = sys.monitoring
    m.use_tool_id(3, 'cov')
    def seen(code, line):
        if code.co_filename.startswith(pkg):
            lines.add((code.co_filename[len(pkg):], line))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, seen)
    m.set_events(3, m.events.LINE)
try:
    mod = importlib.import_module('checks.' + prop.lower())
    scale = float(scale)
    mod.GROUPS = [(g[0], max(min(g[1], 4), int(g[1] * scale)), g[2], g[3])
                  for g in mod.GROUPS]
    from vp import core
    rc = core.main([prop])
except Exception as e:
    print('IMPORT', e)
    rc = 1
if cov != '-':
    json.dump(sorted(lines), open(cov, 'w'))
sys.exit(rc)
'''


def env(repo):
    e = dict(os.environ, VP_REPO=repo, VP_JOBS='1', PYTHONDONTWRITEBYTECODE='1',
             MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             HOME='/root')
    return e


def slot(k):
    """A private copy of both trees."""
    d = os.path.join(WORK, 'slot%d' % k)
    r, v = os.path.join(d, 'repo'), os.path.join(d, 'verif')
    if not os.path.isdir(r):
        shutil.copytree(REPO, r, symlinks=True)
        shutil.copytree(VERIF, v, symlinks=True, ignore=shutil.ignore_patterns(
            'seeded', '.git', 'evidence'))
    return r, v


def run_check(k, prop, scale, cov='-'):
    r, v = slot(k)
    try:
        p = subprocess.run([PY, os.path.join(WORK, 'runner.py'), v, prop,
                            str(scale), cov], env=env(r), capture_output=True,
                           text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return 9, 'timeout'
    return p.returncode, p.stdout + p.stderr


def coverage():
    def job(a):
        i, prop = a
        out = os.path.join(WORK, 'cov-%s.json' % prop)
        rc, text = run_check(100 + i, prop, .1, out)
        shutil.rmtree(os.path.join(WORK, 'slot%d' % (100 + i)))
        print(prop, rc, len(json.load(open(out))), flush=True)
    with cf.ThreadPoolExecutor(7) as ex:
        list(ex.map(job, enumerate(CHECKS)))


class Mut(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.starts = [0]
        for line in src.encode().splitlines(True):
            self.starts.append(self.starts[-1] + len(line))
        self.out = []

    def seg(self, n):
        b = self.src.encode()
        return b[self.pos(n)[0]:self.pos(n)[1]].decode()

    def pos(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset,
                self.starts[n.end_lineno - 1] + n.end_col_offset)

    def put(self, n, text, what):
        self.out.append((n.lineno, self.pos(n), text, what))

    def subtle(self, n):
        """Changes that only show for some inputs."""
        s = self.seg
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Mult)):
            self.put(n, 'abs(%s)' % s(n), 'abs')
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
            self.put(n, '(%s // %s if isinstance(%s, int) else %s)' % (
                s(n.left), s(n.right), s(n.left), s(n)), 'integer division')
        if isinstance(n, ast.Call) and len(n.args) > 1 and not any(
                isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args[:2]
            text = s(n)
            o = self.pos(n)[0]
            a0, a1 = (x - o for x in self.pos(a))
            b0, b1 = (x - o for x in self.pos(b))
            t = text.encode()
            self.put(n, (t[:a0] + t[b0:b1] + t[a1:b0] + t[a0:a1] +
                         t[b1:]).decode(), 'swap arguments')
        if isinstance(n, ast.Subscript) and isinstance(
                n.slice, ast.Constant) and isinstance(n.slice.value, str):
            k = n.slice.value
            for a, b in (('F', 'R'), ('R', 'F'), ('xx', 'zz'), ('zz', 'xx'),
                         ('xz', 'xx'), ('x', 'z'), ('z', 'x'), ('B', 'H'),
                         ('H', 'B'), ('phi', 'del'), ('del', 'phi')):
                if a in k:
                    self.put(n.slice, repr(k.replace(a, b, 1)), 'other key')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for q in (n.slice.lower, n.slice.upper):
                if q is not None:
                    self.put(q, '(%s) + 1' % s(q), 'slice')
        if isinstance(n, ast.IfExp):
            self.put(n, s(n.body), 'body')
            self.put(n, s(n.orelse), 'orelse')
        if isinstance(n, ast.For):
            self.put(n.iter, 'list(%s)[:-1]' % s(n.iter), 'last skipped')
            self.put(n.iter, 'list(%s)[:6]' % s(n.iter), 'six at most')
        if isinstance(n, ast.Call) and n.args and isinstance(
                n.func, ast.Attribute) and n.func.attr in ('cos', 'sin'):
            x = s(n.args[0])
            self.put(n.args[0], 'abs(%s)' % x, 'abs of angle')

    def generic_visit(self, n):
        s = self.seg
        self.subtle(n)
        if isinstance(n, ast.BinOp):
            L, R = '(%s)' % s(n.left), '(%s)' % s(n.right)
            alt = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'],
                   ast.Div: ['*'], ast.Pow: ['*'], ast.Mod: [],
                   ast.FloorDiv: ['/']}.get(type(n.op), [])
            if not (isinstance(n.left, ast.Constant) and
                    isinstance(n.left.value, str)):
                for a in alt:
                    self.put(n, '(%s %s %s)' % (L, a, R), 'op')
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    self.put(n, L, 'drop right')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
                   ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in',
                   ast.NotIn: 'in', ast.Is: 'is not',
                   ast.IsNot: 'is'}[type(n.ops[0])]
            self.put(n, '(%s %s %s)' % (s(n.left), alt, s(n.comparators[0])),
                     'compare')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                self.put(n, str(not n.value), 'bool')
            elif isinstance(n.value, (int, float)):
                self.put(n, '(%r)' % (n.value + 1), 'const+1')
                if n.value:
                    self.put(n, '(%r)' % (n.value * 1.02), 'const*1.02')
        elif isinstance(n, ast.UnaryOp):
            self.put(n, '(%s)' % s(n.operand), 'drop unary')
        elif isinstance(n, ast.BoolOp):
            a = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.put(n, '(%s)' % a.join('(%s)' % s(v) for v in n.values),
                     'boolop')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            self.put(n, 'pass', 'drop call')
        elif isinstance(n, ast.AugAssign):
            self.put(n, 'pass', 'drop augassign')
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Subscript, ast.Attribute)):
            self.put(n, 'pass', 'drop store')
        elif isinstance(n, ast.Call):
            f = s(n.func)
            for a, b in (('sin', 'cos'), ('cos', 'sin'), ('min', 'max'),
                         ('max', 'min'), ('real', 'imag'), ('append',
                                                             'insert')):
                if f.split('.')[-1] == a and a != 'append':
                    self.put(n.func, f[:-len(a)] + b, 'function')
            if f.split('.')[-1] in ('copy', 'deepcopy', 'sorted', 'abs',
                                    'sqrt', 'squeeze', 'real'):
                x = s(n.args[0]) if n.args else s(n.func.value) \
                    if isinstance(n.func, ast.Attribute) else None
                if x:
                    self.put(n, '(%s)' % x, 'drop function')
            for kw in n.keywords:
                if kw.arg:
                    # remove the keyword argument
                    a0, a1 = self.pos(kw)
                    b = self.src.encode()
                    e = a1
                    while b[e:e + 1] in (b' ', b'\n'):
                        e += 1
                    if b[e:e + 1] == b',':
                        e += 1
                    else:
                        e = a1
                    self.out.append((kw.value.lineno, (a0, e), '',
                                     'drop keyword'))
        elif isinstance(n, ast.If):
            self.put(n.test, '(not (%s))' % s(n.test), 'negate if')
            if not n.orelse:
                self.put(n.test, 'True', 'if true')
                self.put(n.test, 'False', 'if false')
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
            e = [s(x) for x in n.value.elts]
            if len(e) > 1:
                e[0], e[1] = e[1], e[0]
                self.put(n.value, '(%s)' % ', '.join(e), 'swap returns')
        elif isinstance(n, (ast.JoinedStr,)):
            return
        super().generic_visit(n)


def mutants(fname):
    src = open(os.path.join(REPO, 'bicycleparameters', fname)).read()
    m = Mut(src)
    m.visit(ast.parse(src))
    res = []
    for line, (a, b), text, what in m.out:
        raw = src.encode()
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        res.append((fname, line, what, raw[a:b].decode(), text, new))
    return res


def tests(k):
    r, _ = slot(k)
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p',
                        'no:cacheprovider', '--doctest-modules',
                        'bicycleparameters'],
                       cwd=r, env=env(r), capture_output=True, text=True,
                       timeout=300)
    return p.returncode, (p.stdout.strip().splitlines() or [''])[-1]


def run(n, seed, files):
    cov = {}
    for c in CHECKS:
        for f, line in json.load(open(os.path.join(WORK, 'cov-%s.json' % c))):
            cov.setdefault((f, line), []).append(c)
    pool = [m for f in files or FILES for m in mutants(f)]
    kinds = os.environ.get('KINDS')
    if kinds:
        pool = [m for m in pool if m[2] in kinds.split(',')]
    print(len(pool), 'mutants')
    rnd = random.Random(seed)
    rnd.shuffle(pool)
    pool = pool[:n]
    import queue
    slots = queue.Queue()
    for k in range(7):
        slots.put(k)
    log = open(os.path.join(WORK, 'results-%d.jsonl' % seed), 'a')

    def job(m):
        fname, line, what, old, text, new = m
        src = open(os.path.join(REPO, 'bicycleparameters', fname)).read()
        who = cov.get((fname, line), [])
        rec = dict(file=fname, line=line, what=what, old=old, new=text,
                   code=src.splitlines()[line - 1].strip(), checks=who)
        if not who:
            rec['result'] = 'uncovered'
        else:
            k = slots.get()
            try:
                r, v = slot(k)
                path = os.path.join(r, 'bicycleparameters', fname)
                open(path, 'w').write(new)
                rec['result'] = 'survived'
                rec['rcs'] = {}
                for c in sorted(who, key=lambda c: len(
                        [1 for x in cov.values() if c in x])):
                    rc, o = run_check(k, c, .1)
                    rec['rcs'][c] = rc
                    if rc in (1, 9):
                        rec['result'] = 'caught'
                        rec['by'] = c
                        break
                else:
                    rec['tests'] = tests(k)
                open(path, 'w').write(src)
            finally:
                slots.put(k)
        log.write(json.dumps(rec) + '\n')
        log.flush()
        if rec['result'] != 'caught':
            print('%s:%d %s [%s] %r -> %r %s %s' % (
                fname, line, rec['result'], what, old[:60], text[:60],
                rec.get('tests', ('', ''))[0], ','.join(who)), flush=True)
        return rec['result']
    with cf.ThreadPoolExecutor(7) as ex:
        res = list(ex.map(job, pool))
    print({r: res.count(r) for r in set(res)})


if __name__ == '__main__':
    os.makedirs(WORK, exist_ok=True)
    open(os.path.join(WORK, 'runner.py'), 'w').write(RUNNER)
    if sys.argv[1] == 'coverage':
        coverage()
    else:
        run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
