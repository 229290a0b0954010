"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, H)
from pz.props import PROPS

BASE = ('interprocedural path dataflow over the syntax tree: effects, guards, results and order of every path of each anchored function '
        '(resolved over the class hierarchy) decided against a reference model')
EXTRA = {
    'C17': 'aliasing rule on observer lists of views',
    'C23': 'interval abstract interpretation of the forward maps over a partition of the real line',
    'C24': 'interval abstract interpretation with first derivatives (a refutation is a pair of disjoint enclosures)',
}
NOTE = ('Static: every path of each listed function, for every class it resolves for, is summarised from /repo\'s current source and must have '
        'the effects, order, conditions and results the contract in /verif/contract requires. A check alarms only on a difference that it can '
        'interpret completely; what it cannot interpret is reported as undecided in the evidence. Trusted: the contract (reviewed by hand against '
        'the property statements), the modelling of Python and numpy in pz/engine.py, documented behaviour of numpy and scipy. '
        'Not covered: floating point rounding, threads, user subclasses.')
NA = {
    'C33': 'convergence depends on the objective at run time and on scipy\'s numerical routines; no static argument bounds it',
    'C34': 'a statement about accumulated floating point error over all magnitudes; needs numerical error analysis of numpy\'s transcendental functions, which are opaque here',
    'C35': 'depends on process scheduling, pickling across processes and random state of worker processes at run time',
    'C36': 'depends on curvature and scaling of the objective at the run-time point; the structural half (restore, symmetry, selection) is C16',
}
checks = []
for p in sorted(PROPS):
    rules = EXTRA.get(p)
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                   'technique': BASE + ('; ' + rules if rules else ''), 'level': 'other', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'check.py reads /repo (or PZ_REPO) on every run; nothing of paramz is imported or executed.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
