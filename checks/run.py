#!/usr/bin/env python3-vt
"""run.py <property> [quick|thorough]: builds the current tree of /repo, explores, reports.  Exit 0 held, 1 violated.
run.py --replay <file>: repeats the calls recorded with a violation on the current tree."""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('OMP_NUM_THREADS', '1'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
import lib
def replay(path):
    v = json.load(open(path)); P = lib.Probe(); diff = 0
    print(json.dumps({k: v[k] for k in ('property', 'site', 'inputs', 'detail')}, indent=1))
    for c in v['calls']:
        if c.get('fn') not in P.funs: print('  not replayable here:', c); continue
        y = P.raw(c['fn'], [[c['args'][a] for a in P.args(c['fn'])]])[0][0]
        same = y == c['value'] or (y != y and c['value'] != c['value'])
        print('  %s(%s) = %.17g (recorded %.17g)%s' % (c['fn'], ', '.join('%s=%r' % a for a in c['args'].items()), y, c['value'], '' if same else '  CHANGED')); diff += not same
    sys.exit(0 if diff else 1)
if __name__ == '__main__':
    if sys.argv[1] == '--replay': replay(sys.argv[2])
    prop = sys.argv[1].upper(); tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    mod = importlib.import_module(prop.lower()); r = lib.Report(prop, tier)
    P = lib.Probe() if getattr(mod, 'PROBE', True) else None
    mod.run(r, P, tier)
    sys.exit(r.finish(P))
