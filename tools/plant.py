#!/usr/bin/env python3
"""plant.py SPEC.py: makes and confirms one planted bug.  SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)],
DEMO (C or C++ source), optionally SRCS (sources linked into the demo).  Everything happens in a scratch copy of /repo."""
import sys, os, json, subprocess, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = 'src/embedDB/embedDB.c src/spline/spline.c src/query-interface/schema.c src/query-interface/advancedQueries.c lib/EmbedDB-Utility/embedDBUtility.c lib/Desktop-File-Interface/desktopFileInterface.c'
INC = '-Isrc/embedDB -Isrc/spline -Isrc/query-interface -Ilib/EmbedDB-Utility -Ilib/Desktop-File-Interface'
out = os.path.join(V, 'seeded', spec['ID'])
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
open(os.path.join(out, 'demo.c'), 'w').write(spec['DEMO'])
if spec.get('HDR'):
    open(os.path.join(out, 'demo.h'), 'w').write(spec['HDR'])
open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
# builds demo.c against the sources in the current directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -w -g %s -I"$D" %s -o "$T/demo" "$D/demo.c" %s -lm || exit 2
cd "$T" && timeout 100 ./demo
''' % (spec.get('CFLAGS', ''), INC, spec.get('SRCS', ALL)))
json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
w = tempfile.mkdtemp(prefix='plant_')
try:
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    r = w + '/r'
    def demo():
        p = subprocess.run(['bash', out + '/demo.sh'], cwd=r, capture_output=True, text=True)
        return p.returncode, (p.stdout + p.stderr)[-600:]
    a = demo()
    for f, o, n in spec['EDITS']:
        t = open(f'{r}/{f}').read()
        assert t.count(o) == 1, (f, t.count(o), o)
        open(f'{r}/{f}', 'w').write(t.replace(o, n))
    d = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
    open(os.path.join(out, 'patch.diff'), 'w').write(d)
    b = demo()
    print('unchanged:', a, '\npatched:', b)
    if os.environ.get('PLANT_DEMO_ONLY'):
        sys.exit(0)
    # tests: on /repo itself is not allowed to stay changed; run in place and undo
    subprocess.run(['git', '-C', '/repo', 'apply', out + '/patch.diff'], check=True)
    try:
        subprocess.run(['bash', '/opt/vp/test.sh', w + '/t.json'], capture_output=True)
        res = json.load(open(w + '/t.json'))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base if isinstance(base, list) else base.get('passed') or base.get('stable') or base.get('tests')
    lost = set(names) - set(res['passed'])
    print('tests lost:', sorted(lost)[:5], len(lost))
    ok = a[0] == 0 and b[0] not in (0, 2) and not lost
    print('KEEP' if ok else 'REJECT')
    if not ok:
        shutil.rmtree(out)
    sys.exit(0 if ok else 1)
finally:
    shutil.rmtree(w, ignore_errors=True)
