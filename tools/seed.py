"""Development helper: confirm a planted bug in /verif/seeded/<id> (applies, builds, tests pass, demo
fails with it and passes without it) and run checks against it. Not used by any check.

  seed.py confirm ID...         seed.py hit ID check[,check] [tier]
"""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def undo():
    sh('git -C /repo checkout -- .')


def build():
    # a tag of the repository reaches versioneer, which does not take it for a version
    t = sh('git -C /repo rev-parse -q --verify refs/tags/vcheck-pass').stdout.strip()
    if t:
        sh('git -C /repo update-ref -d refs/tags/vcheck-pass')
    try:
        return sh('bash /opt/vp/build.sh')
    finally:
        if t:
            sh('git -C /repo update-ref refs/tags/vcheck-pass '+t)


def demo(i):
    return sh('cd /repo && timeout 300 bash %s/seeded/%s/demo.sh' % (V, i))


def confirm(i):
    assert not sh('git -C /repo status --short').stdout, 'repo not clean'
    b = build()
    d0 = demo(i)
    ok = d0.returncode == 0
    try:
        a = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, i))
        if a.returncode:
            return print(i, 'DOES NOT APPLY', a.stdout)
        b = build()
        d1 = demo(i)
        sh('rm -f /tmp/seed_t.json; bash /opt/vp/test.sh /tmp/seed_t.json')
        t = json.load(open('/tmp/seed_t.json'))
        miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(t['passed'])
    finally:
        undo()
        build()
    print(i, 'clean', d0.returncode, 'build', b.returncode, 'patched', d1.returncode, 'tests missing', len(miss), list(miss)[:3])
    if d0.returncode or not d1.returncode:
        print('--clean\n', d0.stdout[-600:], '\n--patched\n', d1.stdout[-600:])
    print('   ', 'GOOD' if ok and d1.returncode and not b.returncode and not miss else 'BAD')


def hit(i, cs, tier='quick'):
    assert not sh('git -C /repo status --short').stdout, 'repo not clean'
    try:
        a = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, i))
        assert not a.returncode, a.stdout
        for c in cs.split(','):
            r = sh('cd %s && ./run.sh %s %s' % (V, c, tier))
            print(i, c, r.returncode, [x[:160] for x in r.stdout.splitlines() if x.startswith('VIOLATION')][:3], r.stdout.splitlines()[-1][:150])
    finally:
        undo()


if __name__ == '__main__':
    if sys.argv[1] == 'confirm':
        for i in sys.argv[2:]:
            confirm(i)
    else:
        hit(*sys.argv[2:])
