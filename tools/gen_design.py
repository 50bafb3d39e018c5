"""Assemble DESIGN.md from tools/design_head.md, the check modules and the seed table."""
import importlib, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
from design_props import N
from collections import OrderedDict
P = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
out = [open(HERE + '/tools/design_head.md').read().rstrip(), '', '## Properties and how each is decided', '']
for d in P:
    m = importlib.import_module('mon.props.' + d['id'].lower())
    ev, orc, why = N[d['id']]
    out += ['### %s %s' % (d['id'], d['title']), '', '*Observed*: %s.' % ev, '', '*Oracle*: %s.' % orc, '',
            '*Reach and bounds*: %d quick / %d thorough cases over the scenarios %s; at least %d oracle decisions or the run counts as inconclusive. Workload rule: %s' % (
                m.QUICK, m.THOROUGH, ', '.join(s[0] for s in m.STRATA), m.MIN_CHECKS, m.RULE), '',
            '*Why the unit tests cannot settle it*: %s.' % why, '']
out += [open(HERE + '/tools/design_tail.md').read().rstrip(), '']
S = sorted(os.listdir(HERE + '/seeded'))
catch = json.load(open(HERE + '/tools/caught.json')) if os.path.exists(HERE + '/tools/caught.json') else {}
out += ['## Planted bugs and the checks that catch them', '', '| planted bug | property | needs | caught by |', '|---|---|---|---|']
for s in S:
    m = json.load(open(HERE + '/seeded/%s/meta.json' % s))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), catch.get(s, 'not run')))
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
