"""Plant one bug: confirm it in a scratch copy and keep it as seeded/<id>/.

    from mkseed import seed
    seed('id', 'C01', [(file, old, new), ...], demo_text, needs, breaks)

Checks: every removed/changed line is an original line (git blame), the tree
still passes the stable tests, the demonstration passes before and fails after,
then runs the property's quick check against the scratch copy (PYNLO_SRC)."""
import json, os, re, shutil, subprocess, sys, time

REPO, HERE = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'],
                      capture_output=True, text=True).stdout.split()[0]
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMO_SH = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds, 1 when it is broken.
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
/opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(["timeout", "280"] + cmd, capture_output=True, text=True, **k)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def run_tests(tree):
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + tree,
            '-o', 'python_files=*test.py test_*.py',
            '--ignore=src/validation/Old and Partial Tests', '--timeout=120',
            '--continue-on-collection-errors', '.'], cwd=tree,
           env=dict(ENV, PYTHONPATH=tree + '/src'))
    m = re.search(r'(\d+) passed', r.stdout)
    return int(m.group(1)) if m else 0, r.stdout[-1500:]


def seed(id, prop, edits, demo, needs, breaks, check=True, tier='quick', also=()):
    W = '/tmp/seedwork_%s' % id
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree(REPO, W, symlinks=True)
    try:
        for f, old, new in edits:
            p = os.path.join(W, 'src/pynlo', f)
            raw = open(p, newline='').read()
            crlf = '\r\n' in raw
            o = old.replace('\n', '\r\n') if crlf else old
            n = new.replace('\n', '\r\n') if crlf else new
            if raw.count(o) != 1:
                print(id, 'EDIT', f, 'matches', raw.count(o)); return False
            open(p, 'w', newline='').write(raw.replace(o, n))
        diff = subprocess.run(['git', '-C', W, 'diff', '-U3'], capture_output=True).stdout
        # blame the removed lines
        cur, ln, touched, fresh = None, 0, 0, 0
        for l in diff.decode('utf8', 'replace').split('\n'):
            if l.startswith('--- a/'): cur = l[6:].strip()
            elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                b = sh(['git', '-C', REPO, 'blame', '-s', '-L%d,%d' % (ln, ln), 'HEAD', '--', cur]).stdout
                if b.lstrip('^')[:7] == BASE[:7] or b.startswith('^'): touched += 1
                else: fresh += 1
                ln += 1
            elif l.startswith(' '): ln += 1
        if not touched or fresh:
            print(id, 'BLAME original', touched, 'own', fresh)
            if not touched: return False
        n, out = run_tests(W)
        if n < 15:
            print(id, 'TESTS', n, 'passed'); print(out); return False
        D = os.path.join(HERE, 'seeded', id)
        os.makedirs(D, exist_ok=True)
        open(D + '/demo.py', 'w').write(demo)
        open(D + '/demo.sh', 'w').write(DEMO_SH); os.chmod(D + '/demo.sh', 0o755)
        open(D + '/patch.diff', 'wb').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(D + '/meta.json', 'w'), indent=1)
        a = sh([D + '/demo.sh'], cwd=REPO)
        b = sh([D + '/demo.sh'], cwd=W)
        if a.returncode != 0 or b.returncode == 0:
            print(id, 'DEMO clean', a.returncode, a.stdout[-600:], a.stderr[-900:],
                  '| bug', b.returncode, b.stdout[-600:], b.stderr[-300:])
            return False
        msg = b.stdout.strip().split('\n')[-1] or b.stderr.strip().split('\n')[-1]
        print(id, 'ok; demo says:', msg[:160])
        if check:
            for q in (prop,) + tuple(also):
                run_check(id, q, W, tier)
        return True
    finally:
        shutil.rmtree(W, ignore_errors=True)


def run_check(id, prop, W, tier='quick'):
    t = time.time()
    r = sh([HERE + '/check', prop, tier, '--no-evidence'], env=dict(os.environ, PYNLO_SRC=W + '/src'))
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print('  ', id, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR %d' % r.returncode),
          '%.0fs' % (time.time() - t), (v[0] if v else r.stdout[-300:] if r.returncode not in (0,) else ''))
    return r.returncode
