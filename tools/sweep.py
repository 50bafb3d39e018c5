"""Run the quick check of each planted bug's property against a scratch copy
that carries it; record the outcome in tools/caught.json.
    sweep.py [--tier thorough] [--seed N] [id ...]"""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = 'quick'
seed = '1'
if '--tier' in args: i = args.index('--tier'); tier = args[i+1]; del args[i:i+2]
if '--seed' in args: i = args.index('--seed'); seed = args[i+1]; del args[i:i+2]
ids = args or sorted(os.listdir(HERE + '/seeded'))
F = HERE + '/tools/caught.json'
for s in ids:
    D = HERE + '/seeded/' + s
    m = json.load(open(D + '/meta.json'))
    W = '/tmp/sweep_%s' % s
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    try:
        a = subprocess.run(['git', '-C', W, 'apply', D + '/patch.diff'], capture_output=True, text=True)
        if a.returncode:
            print(s, 'PATCH', a.stderr); continue
        t = time.time()
        r = subprocess.run([HERE + '/check', m['property'], tier, '--no-evidence', '--seed', seed], capture_output=True, text=True,
                           env=dict(os.environ, PYNLO_SRC=W + '/src', PYTHONDONTWRITEBYTECODE='1'))
        cl = re.findall(r'clause (\S+) \(scenario (\w+)', r.stdout)
        word = {0: 'missed', 1: 'caught'}.get(r.returncode, 'error')
        print('%-28s %s %s %.0fs %s' % (s, m['property'], word.upper() if word != 'caught' else word, time.time() - t, cl or r.stdout[-300:]), flush=True)
        C = json.load(open(F)) if os.path.exists(F) else {}
        C[s] = '%s: %s' % (m['property'], ', '.join('%s (%s)' % c for c in cl)) if word == 'caught' else word
        json.dump(C, open(F, 'w'), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)
