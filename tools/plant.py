#!/usr/bin/env python3
"""Development helper (not used by any check): vets the planted changes in seeded/ on a
scratch copy of /repo:  plant.py ID...   or   plant.py --checks ID...  (also runs the
property's check against the copy)."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC = '/tmp/plantcopy'


def sh(c, cwd=None, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    a = sys.argv[1:]
    checks = '--checks' in a
    nodemo = '--nodemo' in a
    extra = [x[6:] for x in a if x.startswith('--prop')]
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    if not os.path.isdir(PC):
        sh('cp -a /repo %s' % PC)
    for i in ids:
        d = '%s/seeded/%s' % (V, i)
        if not os.path.exists(d + '/meta.json'):
            continue
        meta = json.load(open(d + '/meta.json'))
        sh('git fetch -q /repo && git reset -q --hard %s && git clean -qfd -e target' % sh('git -C /repo rev-parse HEAD')[1].strip(), PC)
        r = [i, meta['property']]
        if not nodemo:
            rc, o = sh('bash %s/demo.sh' % d, '/repo')
            r.append('demo-clean=%s' % rc)
            if rc:
                print(o[-1500:])
        rc, o = sh('git apply --check %s/patch.diff && git apply %s/patch.diff' % (d, d), PC)
        if rc:
            print(i, 'does not apply', o)
            continue
        if not nodemo:
            rc, o = sh('CARGO_TARGET_DIR=%s/target cargo nextest run --workspace --offline --no-fail-fast 2>&1' % PC, PC)
            s = [l for l in o.splitlines() if 'Summary' in l]
            r.append('tests: %s' % (s[0].strip()[-40:] if s else o[-1500:]))
            rc, o = sh('bash %s/demo.sh' % d, PC)
            r.append('demo-patched=%s' % rc)
        if checks:
            for p in (extra or [meta['property']]):
                rc, o = sh('python3 %s/check.py %s' % (V, p), V, dict(os.environ, VF_REPO=PC))
                r.append('%s rc=%s' % (p, rc))
                r.append('\n    ' + '\n    '.join(o.splitlines()[:4]))
        print(*r)
        sys.stdout.flush()
        sh('git checkout -q -- .', PC)


main()
