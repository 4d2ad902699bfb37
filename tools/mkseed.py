#!/usr/bin/env python3
"""mkseed.py ID PROPERTY EDITS.py: makes /verif/seeded/ID from text edits, and confirms it (builds, passes the tests, demo fails; demo passes without).
EDITS.py defines edits=[(file, old, new)], needs, breaks, and optionally demo_c (a C program on the mock harness) or demo_sh."""
import json, os, shutil, subprocess, sys
sid, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'seeded', sid)
os.makedirs(D, exist_ok=True)
W = '/tmp/seedwt'
subprocess.run(['rm', '-rf', W]); subprocess.run(['cp', '-a', '/repo', W], check=True)
for f, a, b in ns['edits']:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, 'w').write(s.replace(a, b))
diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
open(os.path.join(D, 'patch.diff'), 'w').write(diff)
json.dump(dict(property=prop, needs=ns['needs'], what_it_breaks=ns['breaks']), open(os.path.join(D, 'meta.json'), 'w'), indent=1)
if 'demo_c' in ns:
    for f in ('mock.c', 'mock.h', 'build.sh'):
        shutil.copy(os.path.join(V, 'harness', f), D)
    open(os.path.join(D, 'demo.c'), 'w').write('#include "mock.h"\n' + ns['demo_c'])
    sh = '''#!/bin/sh
# exit 0 if the property holds in the tree in the current directory
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
DEMO_CFLAGS='%s' sh "$H/build.sh" "$PWD" "$T/demo" "$H/demo.c" %s || exit 2
"$T/demo"
''' % (ns.get('cflags', ''), ns.get('extra', ''))
else:
    sh = ns['demo_sh']
    for f, t in ns.get('files', {}).items():
        open(os.path.join(D, f), 'w').write(t)
open(os.path.join(D, 'demo.sh'), 'w').write(sh)
os.chmod(os.path.join(D, 'demo.sh'), 0o755)


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


print('unchanged', run([os.path.join(D, 'demo.sh')], '/repo'))
r = run(['ninja', '-C', '_build'], W) if os.path.exists(W + '/_build') else (0, 'no build dir')
print('build', r[0], r[1][-200:] if r[0] else '')
if os.path.exists(W + '/_build'):
    import glob; print('tests', [(t, run([t], W + '/_build')[0]) for t in sorted(glob.glob(W + '/_build/*_test') + glob.glob(W + '/_build/tests/*_test'))])
print('patched', run([os.path.join(D, 'demo.sh')], W))
subprocess.run(['rm', '-rf', W])
