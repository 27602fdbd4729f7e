#!/usr/bin/env python3
"""Developer tool: validates the planted bugs in seeded/<id>/ (never used by a check).
usage: mkseed.py ID...   For each: patch applies to a scratch copy of /repo, builds, the stable tests
pass, demo.sh exits 0 without and nonzero with the patch."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedrepo'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
if not os.path.exists(S):
    assert sh('cp -a /repo ' + S).returncode == 0
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
for i in sys.argv[1:]:
    d = os.path.join(V, 'seeded', i)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (S, S, S))
    r0 = sh('bash %s/demo.sh' % d, cwd=S, timeout=300)
    a = sh('git -C %s apply %s/patch.diff' % (S, d))
    b = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seedrepo/target; cargo test --all-features --offline 2>&1 | tail -40; exit ${PIPESTATUS[0]}', cwd=S, executable='/bin/bash')
    ok = b.returncode == 0
    r1 = sh('bash %s/demo.sh' % d, cwd=S, timeout=300)
    print(i, 'clean-demo', r0.returncode, 'apply', a.returncode, 'tests', 'pass' if ok else 'FAIL', 'patched-demo', r1.returncode,
          'GOOD' if (r0.returncode, a.returncode, ok) == (0, 0, True) and r1.returncode != 0 else 'BAD')
    if not (r0.returncode == 0 and a.returncode == 0 and ok and r1.returncode != 0):
        print(r0.stderr[-600:], a.stderr, b.stdout[-600:] if not ok else '', r1.stderr[-300:])
    sh('git -C %s checkout -q -- .' % S)
