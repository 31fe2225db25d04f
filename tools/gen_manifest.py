#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, LEVEL_NOTE, NOT_APPLICABLE

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks = [{
    'property': i,
    'quick_cmd': f'python3 tools/check.py {i} quick',
    'thorough_cmd': f'python3 tools/check.py {i} thorough',
    'evidence_file': f'evidence/{i}.json',
    'technique': 'bounded symbolic execution of the compiled code (LLVM IR from rustc), decided by an SMT solver (z3)',
    'level': 'model_checking',
    'level_note': LEVEL_NOTE.get(i, LEVEL_NOTE['*']),
} for i in ids if i in PLAN]
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'hooks': {'guard': 'cfg(mofmt_verif)', 'enable': 'RUSTFLAGS="--cfg mofmt_verif"',
              'source_commits': ['d53a451']},
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'No check yet: under construction.')}
                       for i in ids if i not in PLAN],
    'notes': 'Engine in engine/ (symbolic executor for LLVM IR), harnesses in harness/, driver tools/check.py, '
             'bounds in tools/plan.py. known_findings.txt lists repaired and known defects.',
}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
