"""Writes MANIFEST.json from the table of analyzer/props.py."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analyzer')); sys.setrecursionlimit(100000)
from props import PROPS, NOT_APPLICABLE
LEVEL = 'Static decision over the MIR of the current tree: every obligation is discharged for all inputs or reported; floating-point arithmetic is treated as real arithmetic and comparisons as of ordered values (no NaN); library calls are interpreted by models. What a rewritten function leaves undecided raises no alarm and is listed in the evidence.'
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p, 'technique': d['technique'], 'level': 'other', 'level_note': LEVEL + (' ' + d['note'] if d['note'] else '')} for p, d in sorted(PROPS.items())],
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NOT_APPLICABLE.items())],
     'notes': 'One analyzer decides all properties; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
