#!/usr/bin/env python3
"""Record a repaired defect: fixed.py PID COMMIT 'what failed'."""
import json, os, sys
pid, commit, what = sys.argv[1:4]
with open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps(dict(status='fixed', property=pid, commit=commit, what=what, line=f'fixed: property={pid} {commit} {what}')) + '\n')
