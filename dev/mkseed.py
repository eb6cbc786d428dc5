#!/usr/bin/env python3
"""mkseed.py ID PROP FILE(relative to /repo) OLD NEW NEEDS BREAKS  [OLD2 NEW2 ...]: writes patch.diff, demo.sh, meta.json; demo.c must exist.
Then builds it in /repo, runs the stable tests and the demo with and without it, and undoes it."""
import json, os, subprocess, sys
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ID, prop, f, old, new, needs, breaks = sys.argv[1:8]
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
assert os.path.exists(d + '/demo.c') or os.path.exists(d + '/demo.sh'), 'write the demo first'
assert run('git -C /repo status --porcelain').stdout == ''
def edit(f, old, new):
    p = '/repo/' + f; t = open(p).read()
    assert t.count(old) == 1, ('count', t.count(old), old)
    open(p, 'w').write(t.replace(old, new))
if not os.path.exists(d + '/demo.sh'):
    open(d + '/demo.sh', 'w').write('''#!/bin/sh
# run in /repo; builds the library sources with the demonstration and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
gcc -std=gnu2x -w -g -O1 -U_FORTIFY_SOURCE -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment,pointer-overflow,nonnull-attribute -Isrc "$D/demo.c" src/reactor/*.c src/picohttpparser/*.c -lssl -lcrypto -lpthread -o "$T/demo" || exit 9
cd "$T" && timeout 60 ./demo
''')
    os.chmod(d + '/demo.sh', 0o755)
try:
    r = run('sh %s/demo.sh' % d, cwd='/repo'); print('clean demo rc', r.returncode, r.stderr[-500:] if r.returncode else '')
    ok = r.returncode == 0
    if f != '-': edit(f, old, new)
    else: run('git -C /repo apply ' + old)
    a = sys.argv[8:]
    for i in range(0, len(a), 3): edit(a[i], a[i+1], a[i+2])
    diff = run('git -C /repo diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    r = run('bash /opt/vp/build.sh'); print('build', r.returncode, r.stderr[-500:] if r.returncode else '')
    run('bash /opt/vp/test.sh /tmp/seed-test.json')
    t = json.load(open('/tmp/seed-test.json')); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    miss = st - set(t['passed']); print('stable tests missing:', sorted(miss))
    r2 = run('sh %s/demo.sh' % d, cwd='/repo'); print('patched demo rc', r2.returncode, (r2.stderr + r2.stdout)[-300:])
    good = ok and not miss and r2.returncode not in (0, 9)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('SEED', ID, 'GOOD' if good else 'BAD')
finally:
    run('git -C /repo checkout -- .')
    run('bash /opt/vp/build.sh')
