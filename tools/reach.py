"""reach.py: which executable lines of pynlo no check reaches (after
`VERIF_LINES=DIR ./check ...` runs left their line sets in DIR)."""
import ast
import glob
import json
import os
import sys

d = sys.argv[1]
seen = {}
for f in glob.glob(os.path.join(d, '*.json')):
    for k, v in json.load(open(f)).items():
        seen.setdefault(k, set()).update(v)
src = '/repo/src/pynlo'
for root, _, files in os.walk(src):
    for fn in sorted(files):
        if not fn.endswith('.py'):
            continue
        p = os.path.join(root, fn)
        try:
            tree = ast.parse(open(p).read())
        except SyntaxError:
            print('%s cannot be compiled' % p)
            continue
        want = set()
        for fun in ast.walk(tree):
            if isinstance(fun, ast.FunctionDef):
                for n in ast.walk(fun):
                    if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.Global)) and not (
                            isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                        want.add(n.lineno)
        got = next((v for k, v in seen.items() if k.endswith(os.path.relpath(p, '/repo/src'))), set())
        miss = sorted(want - got)
        if want:
            print('%-60s %4d of %4d lines reached' % (os.path.relpath(p, src), len(want & got), len(want)))
        text = open(p).read().splitlines()
        for i in miss:
            print('      %4d %s' % (i, text[i - 1].strip()[:100]))
