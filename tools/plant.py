#!/usr/bin/env python3
"""plant.py <id> [--all-checks]: apply a planted bug to /repo, confirm it (builds, stable tests pass, demo fails), run its check, put /repo back."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def demo(d):
    p = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
    return p.returncode, p.stdout[-600:]


def main():
    for i in [a for a in sys.argv[1:] if not a.startswith('-')]:
        d = os.path.join(ROOT, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), '/repo is not clean'
        p = sh('git -C /repo apply %s/patch.diff' % d)
        if p.returncode:
            print(i, 'PATCH DOES NOT APPLY', p.stdout)
            continue
        try:
            out = '/tmp/plant_tests.json'
            sh('bash /opt/vp/test.sh ' + out)
            res = json.load(open(out))
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            lost = [t for t in stable if t not in res['passed']]
            rc, o = demo(d)
            checks = [meta['property']] + [a[2:] for a in sys.argv[1:] if a.startswith('--C')]
            line = []
            for c in checks:
                q = sh('VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt %s/check.py %s' % (ROOT, c), cwd=ROOT)
                v = [x for x in q.stdout.splitlines() if x.startswith('VIOLATION')]
                line.append('%s exit %s %s' % (c, q.returncode, v or q.stdout[-300:]))
        finally:
            sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        rc0, o0 = demo(d)
        print(i, 'tests lost:', lost, '| demo patched', rc, '| demo clean', rc0, o0 if rc0 else '', '|', '; '.join(line), flush=True)


main()
