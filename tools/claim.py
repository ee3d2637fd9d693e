#!/usr/bin/env python3
"""author's tool: claim.py ID 'technique' 'note' — adds or replaces a claim and rewrites MANIFEST.json"""
import json, os, subprocess, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
f = os.path.join(here, 'claims.json')
T = json.load(open(f))
for i in range(1, len(sys.argv), 3):
    T["claims"][sys.argv[i]] = {"technique": sys.argv[i + 1], "note": sys.argv[i + 2]}
json.dump(T, open(f, 'w'), indent=1)
subprocess.check_call([os.path.join(here, 'mkmanifest.py')] if os.access(os.path.join(here, 'mkmanifest.py'), os.X_OK) else ['python3', os.path.join(here, 'mkmanifest.py')])
