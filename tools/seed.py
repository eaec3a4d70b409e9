"""python3 tools/seed.py new|check ID [...]: makes a planted bug from tools/seeds/ID.py style definitions, or tries existing ones.

check ID: applies seeded/ID/patch.diff to /repo, builds, runs the demo (must fail) and the stable tests (must pass) and the property's quick
check (should report); undoes it, builds and runs the demo again (must pass)."""
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')     # a copy (with build.sh and test.sh for it in SEED_VP) leaves /repo alone
VP = os.environ.get('SEED_VP', '/opt/vp')
os.environ['VERIF_REPO'] = REPO


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    assert sh('git -C ' + REPO + ' status --porcelain').stdout.strip() == '', 'repo not clean'


def new(ident, prop, edits, needs, breaks, demo):
    """edits: [(file, old, new, occurrence or None)]"""
    clean()
    d = os.path.join(ROOT, 'seeded', ident)
    os.makedirs(d, exist_ok=True)
    try:
        for e in edits:
            f, old, nw = e[:3]
            p = os.path.join(REPO, f)
            s = open(p).read()
            if len(e) > 3:
                parts = s.split(old)
                assert len(parts) > e[3] + 1, (ident, 'occurrence', len(parts))
                s = old.join(parts[:e[3] + 1]) + nw + old.join(parts[e[3] + 1:])
            else:
                assert s.count(old) == 1, (ident, f, s.count(old))
                s = s.replace(old, nw)
            open(p, 'w').write(s)
        diff = sh('git -C ' + REPO + ' diff').stdout
    finally:
        sh('git -C ' + REPO + ' checkout -- .')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                                'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def check(ident, tests=True, checks=True, allprops=False):
    clean()
    d = os.path.join(ROOT, 'seeded', ident)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    out = []
    try:
        r = sh('git -C ' + REPO + ' apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stdout
        r = sh('bash ' + VP + '/build.sh')
        if r.returncode:
            return '%s: DOES NOT BUILD %s' % (ident, r.stdout[-1500:])
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        out.append('demo with patch: %s' % ('fails (good)' if r.returncode else 'PASSES (BAD)'))
        if tests:
            sh('bash ' + VP + '/test.sh /tmp/seed-out.json')
            ok = set(json.load(open('/tmp/seed-out.json'))['passed'])
            miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]
            out.append('stable tests: %s' % ('pass' if not miss else 'FAIL %s' % miss))
        if checks:
            props = [meta['property']]
            if allprops:
                props = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
            for p in props:
                t = time.time()
                r = sh('python3-vt -m engine.runner %s --tier quick' % p, cwd=ROOT)
                got = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
                out.append('%s: %s %.0fs' % (p, 'CAUGHT' if got else 'quiet' if r.returncode == 0 else 'rc %d: %s' % (
                    r.returncode, r.stdout[-600:]), time.time() - t))
    finally:
        sh('git -C ' + REPO + ' checkout -- .')
    sh('bash ' + VP + '/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd=REPO)
    out.append('demo without: %s' % ('passes (good)' if r.returncode == 0 else 'FAILS (BAD) ' + r.stdout[-800:]))
    good = 'BAD' not in str(out) and not any('FAIL' in o for o in out)
    if tests and checks:
        f = os.path.join(ROOT, 'tools', 'seed_results.json')
        res = json.load(open(f))
        res[ident] = {'good': good, 'caught_by': [o[:3] for o in out if 'CAUGHT' in o]}
        json.dump(res, open(f, 'w'), indent=1, sort_keys=True)
    return '%s: ' % ident + '; '.join(out)


if __name__ == '__main__':
    for i in sys.argv[2:] if len(sys.argv) > 2 else sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        print(check(i), flush=True)
