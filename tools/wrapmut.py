"""Plants history dependent defects into every function, one at a time.

    python3 tools/wrapmut.py N SEED [FILE..]    # after mutate.py coverage

ONLY=regex selects among 'function kind argument', PART is the share of the
cases that run, SLOTS the number of parallel copies.

A function is replaced by a wrapper that caches its result although one
argument (or the object) changed, changes an argument after use, drops an
option, ignores a sign, truncates a list, rounds, loses correlations or
swallows errors. A development aid like tools/mutate.py.
"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as mu

HELP = r'''

def _wm(f, kind, k, default=None):
    import copy, functools, inspect, pickle
    import numpy as np
    import uncertainties
    sig = inspect.signature(f)
    memo = {}

    def key(x):
        if isinstance(x, np.ndarray) and x.dtype != object:
            return (x.shape, str(x.dtype), x.tobytes())
        if isinstance(x, dict):
            return tuple((q, key(v)) for q, v in x.items())
        if isinstance(x, (list, tuple, np.ndarray)):
            return tuple(key(v) for v in x)
        if isinstance(x, (int, float, str, bool, type(None))):
            return repr(x)
        if isinstance(x, uncertainties.UFloat):
            return repr((x.n, x.s))
        return id(x)
    keep = []

    def each(x, g):
        if isinstance(x, tuple):
            return tuple(each(v, g) for v in x)
        if isinstance(x, list):
            return [each(v, g) for v in x]
        if isinstance(x, dict):
            return {q: each(v, g) for q, v in x.items()}
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for q in np.ndindex(*x.shape):
                out[q] = each(x[q], g)
            return out
        return g(x)

    buffers = {}

    def alias(x, at):
        if isinstance(x, tuple):
            return tuple(alias(v, at + (q,)) for q, v in enumerate(x))
        if isinstance(x, np.ndarray):
            b = buffers.setdefault((at, x.shape, str(x.dtype)), x)
            b[...] = x
            return b
        return x

    @functools.wraps(f)
    def w(*a, **kw):
        b = sig.bind(*a, **kw)
        names = list(sig.parameters)
        name = names[k] if k is not None else None
        if kind == 'memo':
            keep.append((a, kw))
            q = tuple((n, key(v)) for n, v in b.arguments.items()
                      if n != name)
            if q not in memo:
                memo[q] = f(*a, **kw)
            return memo[q]
        if kind == 'default':
            b.arguments.pop(name, None)
            return f(*b.args, **b.kwargs)
        if kind == 'abs':
            v = b.arguments.get(name)
            if isinstance(v, (int, float, uncertainties.UFloat)) and \
                    not isinstance(v, bool):
                b.arguments[name] = abs(v)
            return f(*b.args, **b.kwargs)
        if kind == 'truncate':
            v = b.arguments.get(name)
            if isinstance(v, (list, tuple)):
                b.arguments[name] = v[:5]
            return f(*b.args, **b.kwargs)
        if kind == 'swallow':
            try:
                return f(*a, **kw)
            except Exception:
                return None
        r = f(*a, **kw)
        v = b.arguments.get(name) if name else None
        if kind == 'spoil':
            if isinstance(v, dict) and v:
                for q in list(v)[-1:]:
                    try:
                        v[q] = v[q] * 1.001
                    except TypeError:
                        v.pop(q)
            elif isinstance(v, list) and v:
                v.reverse()
            elif isinstance(v, np.ndarray) and v.dtype == float and v.size \
                    and v.flags.writeable:
                v *= 1.001
            return r
        if kind == 'alias':
            return alias(r, ())
        if kind == 'round':
            def g(x):
                if isinstance(x, float) and x and np.isfinite(x):
                    return float('%.5g' % x)
                if isinstance(x, np.ndarray) and x.dtype == float:
                    return np.array([float('%.5g' % y) for y in
                                     x.ravel()]).reshape(x.shape)
                return x
            return each(r, g)
        if kind == 'uncorrelated':
            def g(x):
                if isinstance(x, uncertainties.UFloat):
                    return uncertainties.ufloat(x.n, x.s)
                return x
            return each(r, g)
        if kind == 'nominal':
            def g(x):
                return x.n if isinstance(x, uncertainties.UFloat) else x
            return each(r, g)
    return w
'''


def mutants(fname):
    src = open(os.path.join(mu.REPO, 'bicycleparameters', fname)).read()
    out = []

    def add(fn, owner):
        name = fn.name
        if name.startswith('__') or any(
                'property' in ast.unparse(d) or 'callback' in ast.unparse(d)
                or 'static' in ast.unparse(d) or 'class' in ast.unparse(d)
                for d in fn.decorator_list):
            return
        full = (owner + '.' if owner else '') + name
        args = [a.arg for a in fn.args.args]
        kinds = []
        nd = len(fn.args.defaults)
        for k, a in enumerate(args):
            kinds.append(('memo', k))
            if a != 'self':
                kinds += [('spoil', k), ('abs', k), ('truncate', k)]
            if k >= len(args) - nd:
                kinds.append(('default', k))
        if owner:
            kinds.append(('memo', None))
        kinds += [(q, None) for q in ('alias', 'round', 'uncorrelated', 'nominal',
                                      'swallow')]
        lines = [n.lineno for n in ast.walk(fn) if isinstance(n, ast.stmt) and
                 n is not fn]
        for kind, k in kinds:
            out.append((fname, lines, full, kind,
                        args[k] if k is not None else None,
                        src + HELP + '\n%s = _wm(%s, %r, %r)\n' % (
                            full, full, kind, k)))
    for n in ast.parse(src).body:
        if isinstance(n, ast.FunctionDef):
            add(n, None)
        elif isinstance(n, ast.ClassDef):
            for q in n.body:
                if isinstance(q, ast.FunctionDef):
                    add(q, n.name)
    return out


def run(n, seed, files):
    cov = {}
    for c in mu.CHECKS:
        for f, line in json.load(open(os.path.join(
                mu.WORK, 'cov-%s.json' % c))):
            cov.setdefault((f, line), set()).add(c)
    part = float(os.environ.get('PART', .15))
    size = {c: sum(c in x for x in cov.values()) for c in mu.CHECKS}
    pool = [m for f in files or [
        f for f in mu.FILES if f not in ('app.py', 'parameter_dicts.py')]
        for m in mutants(f) if re.search(os.environ.get('ONLY', ''),
                                         '%s %s %s' % m[2:5])]
    print(len(pool), 'mutants')
    random.Random(seed).shuffle(pool)
    slots = queue.Queue()
    for k in range(int(os.environ.get('SLOTS', 7))):
        slots.put(k)
    log = open(os.path.join(mu.WORK, 'wrap-%d.jsonl' % seed), 'a')

    def job(m):
        fname, lines, full, kind, arg, new = m
        who = set().union(*[cov.get((fname, q), set()) for q in lines])
        rec = dict(file=fname, function=full, kind=kind, arg=arg,
                   checks=sorted(who), result='uncovered')
        if who:
            k = slots.get()
            try:
                r, _ = mu.slot(k)
                path = os.path.join(r, 'bicycleparameters', fname)
                src = open(os.path.join(mu.REPO, 'bicycleparameters',
                                        fname)).read()
                open(path, 'w').write(new)
                rec['result'] = 'survived'
                for c in sorted(who, key=size.get):
                    if mu.run_check(k, c, part)[0] in (1, 9):
                        rec['result'], rec['by'] = 'caught', c
                        break
                open(path, 'w').write(src)
            finally:
                slots.put(k)
        log.write(json.dumps(rec) + '\n')
        log.flush()
        if rec['result'] != 'caught':
            print(fname, full, kind, arg, rec['result'],
                  ','.join(sorted(who)), flush=True)
        return rec['result']
    with cf.ThreadPoolExecutor(slots.qsize()) as ex:
        res = list(ex.map(job, pool[:n]))
    print({r: res.count(r) for r in set(res)})


if __name__ == '__main__':
    run(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:])
