#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)creates /verif/seeded/<id> from tools/seeds.py; each entry gives textual replacements on
/repo's tree and a demo; verifies in a scratch copy that the demo passes without and fails with the change and that
the repository's build and tests still pass with it (--build)."""
import os, shutil, subprocess, sys, json, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(os.path.join(HERE, 'seeds.py')).read(), ns)
SEEDS = ns['SEEDS']
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(SEEDS)
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
%sg++ -std=c++20 -O1 -w -Iinclude %s"$d/demo.cxx" -o "$t/demo" -l:liblapack.so.3 -l:libblas.so.3 || exit 2
cd "$t" && timeout 120 ./demo
'''
bad = 0
for i in ids:
    s = SEEDS[i]
    d = os.path.join(os.path.dirname(HERE), 'seeded', i)
    scratch = tempfile.mkdtemp(prefix='seed_')
    r = os.path.join(scratch, 'repo')
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    for f, a, b in s['edits']:
        p = os.path.join(r, f)
        t = open(p).read()
        n = t.count(a)
        if n != s.get('count', 1):
            print(i, 'PATTERN', n, f, a[:60]); bad = 1
        t = t.replace(a, b)
        open(p, 'w').write(t)
    diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cxx', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % (s.get('pre', ''), s.get('flags', '')))
    os.chmod(d + '/demo.sh', 0o755)
    for name, txt in s.get('files', {}).items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(txt)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run([d + '/demo.sh'], cwd=r, capture_output=True, text=True)
    print(i, s['property'], 'clean', a.returncode, 'patched', b.returncode, 'OK' if a.returncode == 0 and b.returncode not in (0, 2) else 'BAD ' + a.stderr[:600] + b.stderr[:600])
    shutil.rmtree(scratch)
sys.exit(bad)
