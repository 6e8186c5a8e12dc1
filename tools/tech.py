#!/usr/bin/env python3
"""tech.py ID technique level_note: record and regenerate the manifest."""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, 'techniques.json')
t = json.load(open(p))
t[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(t, open(p, 'w'), indent=0)
subprocess.check_call([sys.executable, os.path.join(d, 'mkmanifest.py')])
