#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from props import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 tools/check.py {i}', 'thorough_cmd': f'python3 tools/check.py {i}', 'evidence_file': f'evidence/{i}.json',
                       'technique': p.get('technique', 'bounded symbolic execution of the compiled headers (LLVM IR) with Z3'), 'level': 'model_checking',
                       'level_note': p.get('note', '') + ' Bounded: holds for every value of the symbolic inputs, choices, faults and schedules within the bounds listed in the evidence; nothing beyond them. Trusts clang 18, Z3, the executor (validated by native replay of sampled paths) and the C++ runtime stand-in engine/runtime.cpp.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'hooks': {'guard': 'none', 'enable': 'No hooks are needed: the headers are compiled unmodified.'}, 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. Violations are replayed natively before they are reported; python3 tools/replay.py CASE repeats one.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
