"""Gap analysis: mutate the source token by token in scratch copies and run the
checks of the touched file; list the mutants no check notices.

    python3 tools/mutate.py [--jobs 7] [--sample 0.5] [--seed 1] [file substring ...] > log

Survivors are either equivalent (formatting, plotting, unreachable) or a gap."""
import argparse, ast, warnings, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src'
CHECKS = {
    'light/PulseBase.py': 'C01 C05 C08 C03 C09 C07 C06 C02 C10 C04',
    'light/DerivedPulses.py': 'C04 C07 C10 C03',
    'light/beam.py': 'C29 C31 C30',
    'light/high_V_waveguide.py': 'C29 C30 C31',
    'devices/grating_compressor.py': 'C33',
    'interactions/ThreeWaveMixing/DFG_integrand.py': 'C31 C30 C32',
    'interactions/ThreeWaveMixing/field_classes.py': '',
    'interactions/ThreeWaveMixing/multi_run_rw.py': 'C32',
    'interactions/FourWaveMixing/SSFM.py': 'C16 C19 C15 C20 C21 C17 C18',
    'media/fibers/fiber.py': 'C11 C13 C14 C15',
    'media/fibers/calculators.py': 'C12 C11',
    'media/fibers/JSONFiberLoader.py': 'C13 C11',
    'media/crystals/CrystalContainer.py': 'C28 C26 C27 C25',
    'media/crystals/XTAL_PPLN.py': 'C25 C27 C26',
    'media/crystals/XTAL_AgGaS.py': 'C25 C27 C26',
    'media/crystals/XTAL_AgGaSe2.py': 'C25 C27 C26',
    'util/ode_solve/steppers.py': 'C23 C22 C24',
    'util/ode_solve/dopr853.py': 'C22 C23 C24',
    'util/ode_solve/dopr853_controller.py': 'C22 C24',
    'util/ode_solve/dopr853_constants.py': 'C22 C23',
    'util/pynlo_ffts.py': 'C02',
}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Pow: ('**', '*'),
       ast.FloorDiv: ('//', '*')}
CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'),
       ast.Eq: ('==', '!='), ast.NotEq: ('!=', '==')}


def mutants(text):
    """(line, description, new text) for one source file."""
    warnings.simplefilter('ignore')
    tree = ast.parse(text)
    lines = text.split('\n')
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l) + 1)

    def pos(l, c):
        # ast columns are utf8 bytes
        return start[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f == 'print' or f.startswith(('plt.', 'logging.')):
                for k in ast.walk(n):
                    skip.add(id(k))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n)); skip.add(id(n.value))
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            for k in ast.walk(n):
                skip.add(id(k))

    def rep(a, b, s):
        return text[:a] + s + text[b:]
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            a, b = span(n.left)[1], span(n.right)[0]
            gap = text[a:b]
            k = gap.find(o)
            if k >= 0:
                yield n.lineno, 'op %s -> %s' % (o, w), rep(a + k, a + k + len(o), w)
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            a, b = span(n.target)[1], span(n.value)[0]
            k = text[a:b].find(o + '=')
            if k >= 0:
                yield n.lineno, 'aug %s -> %s' % (o, w), rep(a + k, a + k + len(o), w)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            o, w = CMP[type(n.ops[0])]
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            k = text[a:b].find(o)
            if k >= 0:
                yield n.lineno, 'cmp %s -> %s' % (o, w), rep(a + k, a + k + len(o), w)
        elif isinstance(n, ast.BoolOp):
            o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            k = text[a:b].find(o)
            if k >= 0:
                yield n.lineno, 'bool %s -> %s' % (o, w), rep(a + k, a + k + len(o), w)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = span(n)
            c, d = span(n.operand)
            yield n.lineno, 'drop unary', rep(a, b, '(' + text[c:d] + ')')
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float, complex)) \
                and not isinstance(n.value, bool):
            a, b = span(n)
            v = n.value
            if isinstance(v, int):
                yield n.lineno, 'const %s -> %s' % (text[a:b], v + 1), rep(a, b, repr(v + 1))
            else:
                w = v * 1.02 if v else 1e-3
                yield n.lineno, 'const %s -> %r' % (text[a:b], w), rep(a, b, repr(w))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, b = span(n)
            yield n.lineno, 'const flip', rep(a, b, repr(not n.value))
        elif isinstance(n, ast.Call):
            a, b = span(n)
            f = ast.unparse(n.func)
            short = f.split('.')[-1]
            if short in ('abs', 'conj', 'conjugate', 'real', 'copy', 'deepcopy', 'ifftshift', 'fftshift', 'sqrt',
                         'float', 'int', 'unwrap', 'round') and len(n.args) == 1:
                c, d = span(n.args[0])
                yield n.lineno, 'drop call ' + short, rep(a, b, '(' + text[c:d] + ')')
            elif short in ('copy', 'conj') and not n.args and isinstance(n.func, ast.Attribute):
                c, d = span(n.func.value)
                yield n.lineno, 'drop .%s()' % short, rep(a, b, text[c:d])
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)) :
            if isinstance(n, ast.Return) and n.value is None:
                continue
            if isinstance(n, ast.Expr) and id(n.value) in skip:
                continue
            a, b = span(n)
            yield n.lineno, 'delete ' + type(n).__name__, rep(a, b, 'pass')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            if isinstance(n, ast.While):
                continue
            yield n.lineno, 'if True', rep(a, b, 'True')
            yield n.lineno, 'if False', rep(a, b, 'False')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--sample', type=float, default=1.)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--only')
    ap.add_argument('files', nargs='*')
    a = ap.parse_args()
    root = '/tmp/pynlo-mutants'
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    V = root + '/verif'
    shutil.copytree(HERE, V, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded', '__pycache__'))
    os.makedirs(V + '/evidence')
    work = queue.Queue()
    for k in range(a.jobs):
        shutil.copytree(SRC, root + '/w%d/src' % k, ignore=shutil.ignore_patterns('__pycache__'))
        work.put(k)
    todo = []
    for f, checks in CHECKS.items():
        if a.files and not any(x in f for x in a.files):
            continue
        if not checks:
            continue
        raw = open(SRC + '/pynlo/' + f, newline='', encoding='utf8').read()
        text = raw.replace('\r\n', '\n')
        for l, d, t in mutants(text):
            if a.only and not re.search(a.only, '%s:%d %s' % (f, l, d)):
                continue
            try:
                ast.parse(t)
            except SyntaxError:
                continue
            todo.append((f, l, d, t, text.split('\n')[l - 1].strip(), checks.split()))
    rnd = random.Random(a.seed)
    rnd.shuffle(todo)
    todo = todo[:int(len(todo) * a.sample + .999)]
    print('mutants', len(todo), flush=True)
    t0 = time.time()
    count = {}

    def run(m):
        f, l, d, t, line, checks = m
        k = work.get()
        p = root + '/w%d/src/pynlo/%s' % (k, f)
        keep = open(p, newline='', encoding='utf8').read()
        out = 'SURVIVED'
        try:
            open(p, 'w', newline='', encoding='utf8').write(t)
            env = dict(os.environ, PYNLO_SRC=root + '/w%d/src' % k, MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                       OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
            for c in checks:
                try:
                    r = subprocess.run([V + '/check', c, 'quick', '--no-evidence', '--stop-after', '1', '--procs', '2'], cwd=V,
                                       env=env, capture_output=True, text=True, timeout=200)
                    if r.returncode == 2:
                        out = 'SURVIVED (inconclusive %s)' % c
                    if r.returncode == 1:
                        out = 'caught %s rc=%d' % (c, r.returncode)
                        break
                except subprocess.TimeoutExpired:
                    out = 'timeout ' + c
                    break
        finally:
            open(p, 'w', newline='', encoding='utf8').write(keep)
            work.put(k)
        count[out.split()[0]] = count.get(out.split()[0], 0) + 1
        print('%-9s %s:%d [%s] %s' % (out, f, l, d, line[:110]), flush=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(run, todo))
    print('total', count, 'in %.0f s' % (time.time() - t0))
    shutil.rmtree(root)


if __name__ == '__main__':
    main()
