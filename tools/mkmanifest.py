#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import jobs as J
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Every path of the real code within the listed bounds is executed symbolically from LLVM IR regenerated from the working tree; each '
        'obligation is decided by Z3 for all values (complete within the bounds, nothing claimed outside). Trusted: clang front end, the executor in engine/, Z3; '
        'the executor is cross-checked by native replays of sampled paths and by cvc5/z3-new on sampled queries.')
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in J.PROPS and J.PROPS[pid]['jobs']:
        checks.append({'property': pid, 'quick_cmd': 'python3 tools/check.py ' + pid,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s --thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': 'symbolic execution of the real code (LLVM IR) with SMT solving (Z3), native replay of counterexamples',
                       'level': 'model_checking', 'level_note': NOTE + ' Outside: ' + (J.PROPS[pid]['outside'] or 'see DESIGN.md') + '.'})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks are needed in the library; harnesses use its public interface.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
