"""note.py PID LEVEL TECHNIQUE NOTE"""
import json, sys, os, subprocess
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'notes.json')
n = json.load(open(f))
n[sys.argv[1]] = dict(technique=sys.argv[3], level=sys.argv[2], note=sys.argv[4])
json.dump(n, open(f, 'w'), indent=1, sort_keys=True)
h = os.path.dirname(f)
subprocess.check_call([sys.executable, os.path.join(h, 'gen_manifest.py')])
subprocess.check_call(['python3-vt', os.path.join(h, 'gen_design.py')])
