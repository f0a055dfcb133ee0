#!/usr/bin/env python3
"""mutation trial: mut.py PROP FILE 'old' 'new' [nth]  -- runs the check against a scratch copy of /repo with one textual change"""
import os, shutil, subprocess, sys, tempfile, time
prop, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut')
try:
    for x in ('include', 'src'):
        shutil.copytree('/repo/' + x, d + '/' + x)
    p = os.path.join(d, f)
    s = open(p, newline='').read()
    parts = s.split(old)
    if len(parts) < nth + 2:
        print('pattern not found'); sys.exit(3)
    s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, 'w', newline='').write(s)
    t = time.time()
    r = subprocess.run(['/verif/vc/run.py', prop] + (sys.argv[6:] if len(sys.argv) > 6 else []), env=dict(os.environ, VC_REPO=d, VC_EVID=d), capture_output=True, text=True)
    out = r.stdout.split('\n')
    print('MUT %s %s: %r -> %r: rc=%d %.0fs' % (prop, f, old[:50], new[:50], r.returncode, time.time() - t))
    for l in out:
        if 'NOT DISCH' in l or 'NO VERDICT' in l or 'VIOLATION' in l:
            print('    ', l[:220])
    if r.stderr: print(r.stderr[-600:])
finally:
    shutil.rmtree(d)
