"""Plants one bug in a scratch copy, confirms it and keeps it in seeded/.

    python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file below
bicycleparameters, old text, new text)], demo (Python source), needs, breaks.
Prints for each bug whether it is valid and whether the quick check of its
property sees it.  Nothing in /repo is changed.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ENV = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 if the behaviour is right
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
S=$(mktemp -d) || exit 3
export DEMO_REPO="$PWD" DEMO_SCRATCH="$S" MPLCONFIGDIR="$S/mpl"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
timeout 250 "$PY" "$(dirname "$(readlink -f "$0")")/demo.py"
RC=$?
rm -rf "$S"
exit $RC
'''


def sh(cmd, cwd=None, env=None, timeout=1200):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout,
                       capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def original(repo, patch):
    """Do the changed lines come from the first commit?"""
    root = sh(['git', '-C', repo, 'rev-list', '--max-parents=0',
               'HEAD'])[1].strip()
    f, line, bad, n = None, 0, [], 0
    for row in patch.splitlines():
        if row.startswith('--- '):
            f = row[6:]
        elif row.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', row).group(1))
        elif row.startswith('-') and not row.startswith('---'):
            out = sh(['git', '-C', repo, 'blame', '-s', '-l', '-L',
                      '%d,%d' % (line, line), 'HEAD', '--', f])[1]
            n += 1
            if out.split()[0].lstrip('^')[:20] not in root:
                bad.append((f, line))
            line += 1
        elif row.startswith(' '):
            line += 1
    return n, bad


def one(b, check=True):
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        work = os.path.join(tmp, 'repo')
        shutil.copytree(REPO, work, symlinks=True)
        for f, old, new in b['edits']:
            p = os.path.join(work, 'bicycleparameters', f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return 'BAD edit %s: %d matches' % (f, s.count(old))
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        patch = sh(['git', '-C', work, 'diff'])[1]
        n, bad = original(REPO, patch)
        if bad:
            return 'BAD lines of own commits %s' % bad
        if not n:
            print('   note: only added lines')
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        rep = os.path.join(tmp, 'junit.xml')
        sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
            'no:cacheprovider', '--timeout=300', '--doctest-modules',
            '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
            '--junitxml=' + rep, 'bicycleparameters/'], cwd=work,
           env=dict(ENV, PYTHONPATH=work))
        out = os.path.join(tmp, 'o.json')
        sh(['/opt/venv/bin/python', '/opt/vp/results.py', out,
            'junit:' + rep])
        passed = set(json.load(open(out))['passed'])
        lost = [t for t in base if t not in passed]
        if lost:
            return 'BAD tests fail: %s' % lost
        d = os.path.join(VERIF, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w',
             encoding='utf-8').write(patch)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w', encoding='utf-8').write(
            textwrap.dedent(b['demo']).lstrip())
        json.dump(dict(property=b['property'], needs=b['needs'],
                       what_it_breaks=b['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        demo = os.path.join(d, 'demo.sh')
        r0, o0 = sh(['bash', demo], cwd=REPO)
        r1, o1 = sh(['bash', demo], cwd=work)
        if r0 or not r1:
            shutil.rmtree(d)
            return 'BAD demo: unchanged %d, changed %d\n%s\n--\n%s' % (
                r0, r1, o0[-1500:], o1[-1500:])
        if not check:
            return 'ok'
        rc, o = sh(['python3', os.path.join(VERIF, 'run.py'), b['property']],
                   env=dict(os.environ, VP_REPO=work), timeout=1200)
        keys = re.findall(r'\[(\S+)', o)
        return '%s %s' % ({1: 'caught', 0: 'MISSED'}.get(rc, 'rc %d' % rc),
                          ' '.join(keys[:3]) if rc else '') + (
                              '' if rc in (0, 1) else '\n' + o[-1500:])
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ns = {}
    exec(compile(open(sys.argv[1], encoding='utf-8').read(), sys.argv[1],
                 'exec'), ns)
    for b in ns['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        print(b['id'], b['property'], one(b), flush=True)
