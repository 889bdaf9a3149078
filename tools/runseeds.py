#!/usr/bin/env python3
"""Runs the check of its property against every seeded bug (in /repo, undone after each)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(os.listdir(V + '/seeded')):
    if sys.argv[1:] and d not in sys.argv[1:]:
        continue
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    subprocess.run(['git', '-C', '/repo', 'apply', '%s/seeded/%s/patch.diff' % (V, d)], check=True)
    t = time.time()
    try:
        r = subprocess.run(['python3', 'check.py', m['property']], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print(d, m['property'], r.returncode, '%.0fs' % (time.time() - t), r.stdout.strip()[-300:], r.stderr[-300:], flush=True)
