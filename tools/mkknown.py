"""Write known_findings.json: repaired defects (from the fix: commits of
/repo) and the findings recorded by hand in OPEN."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# commit subject -> (property, what failed)
FIXED = json.load(open(os.path.join(HERE, 'tools', 'fixed.json')))
OPEN = json.load(open(os.path.join(HERE, 'tools', 'open.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse',
    '--format=%h %s']).decode().splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    if s not in FIXED:
        print('NOT DESCRIBED:', s)
        continue
    p, what = FIXED[s]
    fixed.append('fixed: property=%s %s %s' % (p, h, what))
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=OPEN, fixed=fixed), f, indent=1)
    f.write('\n')
print(len(fixed), 'fixed', len(OPEN), 'open')
