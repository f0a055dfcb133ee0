#!/usr/bin/env python3
"""planted bug: seed.py ID   (reads seeded/ID/{spec.py,demo.cpp}; spec.py is removed once the change is confirmed)
spec.py defines prop, edits=[(file, old, new[, nth])], needs, breaks.  Confirms: builds, stable tests pass, demo ok without / fails with the patch."""
import json, os, subprocess, sys
i = sys.argv[1]
d = '/verif/seeded/' + i
sp = {}
exec(open(d + '/spec.py').read(), sp)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo dirty'
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in /repo after the build; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -O0 %s -Iinclude -Isrc "$D/demo.cpp" %s -lpthread -o "$T/demo" || exit 2
timeout 120 "$T/demo"
''' % (sp.get('flags', '-DIS_RP3D_DOUBLE_PRECISION_ENABLED'), sp.get('lib', '_build/double/libreactphysics3d.a')))
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=sp['prop'], needs=sp['needs'], what_it_breaks=sp['breaks']), open(d + '/meta.json', 'w'), indent=1)
ok = True
def build():
    r = sh('bash /opt/vp/test.sh /tmp/seedout.json')
    o = json.load(open('/tmp/seedout.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('passed') or base.get('stable') or base.get('tests') or []
    return len(o['passed']), len(o['failed']), o['failed'][:5], [n for n in names if n not in o['passed']][:5]
if '-f' not in sys.argv:
    print('unchanged:', build())
r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo unchanged rc', r.returncode, (r.stdout + r.stderr)[-500:]); ok &= r.returncode == 0
for e in sp['edits']:
    f, old, new = e[:3]; nth = e[3] if len(e) > 3 else 0
    p = '/repo/' + f; s = open(p, newline='').read(); parts = s.split(old)
    assert len(parts) >= nth + 2, 'pattern not found in ' + f
    open(p, 'w', newline='').write(old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:]))
try:
    open(d + '/patch.diff', 'wb').write(subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout)
    b = build(); print('patched:', b); ok &= b[1] == 0 and b[0] > 0 and not b[3]
    r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo patched rc', r.returncode, (r.stdout + r.stderr)[-500:]); ok &= r.returncode != 0
    if '-c' in sys.argv:
        r = sh('python3-vt /verif/vc/run.py ' + sp['prop'] if False else '/verif/vc/run.py ' + sp['prop'], env=dict(os.environ, VC_EVID='/tmp/seedev')); print('check rc', r.returncode); print('\n'.join(l[:200] for l in r.stdout.split('\n') if 'NOT DIS' in l or 'VIOL' in l or 'NO VER' in l))
finally:
    sh('git -C /repo checkout -- .')
sh('bash /opt/vp/build.sh')
print('KEEP' if ok else 'REJECT')
if ok: os.remove(d + '/spec.py')
