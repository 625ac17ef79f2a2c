"""Scratch data directories in the documented layout."""
import os
import shutil

REPO = os.environ.get('VP_REPO', '/repo')
DATA = os.path.join(REPO, 'data')

# bicycles shipped with the repository, by kind of data available
SHIPPED_BENCH = ['Balanceassistv1', 'Benchmark', 'Browser', 'Browserins',
                 'Crescendo', 'Fisher', 'Pista', 'Rigid', 'Silver',
                 'Yellow', 'Yellowrev']


def shipped_with_benchmark():
    out = []
    d = os.path.join(DATA, 'bicycles')
    for b in sorted(os.listdir(d)):
        if os.path.exists(os.path.join(d, b, 'Parameters',
                                       b + 'Benchmark.txt')):
            out.append(b)
    return out


def shipped_with_measured():
    out = []
    d = os.path.join(DATA, 'bicycles')
    for b in sorted(os.listdir(d)):
        if os.path.exists(os.path.join(d, b, 'RawData', b + 'Measured.txt')):
            out.append(b)
    return out


def fmt(v):
    if hasattr(v, 'nominal_value'):
        return '%r+/-%r' % (float(v.nominal_value), float(v.std_dev))
    return repr(float(v))


def write_par(path, par, sep=' = '):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        for k, v in par.items():
            f.write(k + sep + fmt(v) + '\n')


def make_bicycle(root, name, benchmark=None, measured=None):
    d = os.path.join(root, 'bicycles', name)
    os.makedirs(d, exist_ok=True)
    if benchmark is not None:
        write_par(os.path.join(d, 'Parameters', name + 'Benchmark.txt'),
                  benchmark)
    if measured is not None:
        write_par(os.path.join(d, 'RawData', name + 'Measured.txt'), measured)
    return d


def copy_shipped(root, bikes=(), riders=()):
    for kind, names in (('bicycles', bikes), ('riders', riders)):
        for n in names:
            shutil.copytree(os.path.join(DATA, kind, n),
                            os.path.join(root, kind, n), dirs_exist_ok=True)


def tree(root):
    """{relative path: bytes} of every file under root."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def nominal(x):
    return getattr(x, 'nominal_value', x)


def nominal_dict(d):
    return {k: nominal(v) for k, v in d.items()}


def std(x):
    return getattr(x, 'std_dev', 0.0)
