"""mkseed.py SPECS.py [id...]: build, verify and try planted bugs.

SPECS.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old,
new)], demo=python source)].  Everything happens in a scratch copy of /repo."""
import json
import os
import re
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = [a for a in sys.argv[2:] if not a.startswith('-')]
SCR = '/tmp/seedwork.%d' % os.getpid()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True, **k)


def loader():
    s = open(os.path.join(HERE, 'dst/py2load.py')).read()
    s = s.replace('from . import simclock\n', '')
    s = s.replace("    'time': simclock.time,\n", '')
    s = s.replace("    'datetime': simclock.datetime,\n", '')
    return s


for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    shutil.rmtree(SCR, ignore_errors=True)
    sh('cp -a /repo %s' % SCR)
    ok = True
    for f, old, new in b['edits']:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'EDIT matches', s.count(old), 'times:', old[:60])
            ok = False
            break
        open(p, 'w').write(s.replace(old, new))
    if not ok:
        continue
    d = os.path.join(HERE, 'seeded', b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = sh('git -C %s diff' % SCR).stdout
    open(d + '/patch.diff', 'w').write(diff)
    for f in ('demolib.py', 'demo.sh'):
        shutil.copy(os.path.join(HERE, 'tools/demo', f), d)
    for f in b.get('files', []):
        shutil.copy(os.path.join(HERE, f), d)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/py2load.py', 'w').write(loader())
    open(d + '/demo.py', 'w').write('from demolib import *\n'
        + b['demo'].strip('\n') + '\n')
    json.dump(dict(property=b['property'], needs=b['needs'],
        what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    build = sh('. /opt/vp/env.sh; $PY /opt/vp/parse_py2.py %s/src' % SCR)
    clean = sh('bash %s/demo.sh' % d, cwd='/repo')
    bad = sh('bash %s/demo.sh' % d, cwd=SCR)
    good = build.returncode == 0 and clean.returncode == 0 \
        and bad.returncode not in (0,)
    print('%-28s %s build=%d clean=%d patched=%d' % (b['id'],
        'valid' if good else 'INVALID', build.returncode, clean.returncode,
        bad.returncode))
    if not good:
        print(clean.stdout[-1500:])
        print(bad.stdout[-600:])
        continue
    if '--nocheck' in sys.argv:
        continue
    props = b.get('also', []) + [b['property']] if '--also' in sys.argv \
        else [b['property']]
    for p in props:
        if not os.path.exists(HERE + '/dst/props/%s.py' % p.lower()):
            print('    %s: no check yet' % p)
            continue
        r = sh('%s/check.py %s --tier quick --repo %s' % (HERE, p, SCR))
        m = re.search(r'VIOLATION property=.*', r.stdout)
        print('    %s rc=%d %s' % (p, r.returncode,
            r.stdout.strip().splitlines()[-1][:150] if r.returncode else
            'MISSED'))
shutil.rmtree(SCR, ignore_errors=True)
