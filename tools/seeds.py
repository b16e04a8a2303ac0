"""Writes seeded/<id>/ for the bugs below, after confirming each of them in a
scratch copy; `seeds.py [id...]` does some, `seeds.py --check [id...]` runs the
checks against them (applied to /repo and undone)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'f72d615'
PY = '/opt/venv/bin/python'
from seeds_list import SEEDS


def sh(cmd, cwd=None, timeout=300, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True,
                          timeout=timeout, env=env)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'stable_pass', 'passed', 'tests'):
        if k in b:
            return set(b[k])
    raise SystemExit('BASELINE: %s' % list(b))


def make(s):
    d = '%s/seeded/%s' % (HERE, s['id'])
    os.makedirs(d, exist_ok=True)
    path = '/repo/' + s['file']
    edits = s['edits']
    text = open(path, encoding='utf-8').read()
    base = sh('git -C /repo show %s:%s' % (BASE, s['file'])).stdout
    new = text
    for old, rep in edits:
        assert new.count(old) == 1, (s['id'], 'matches', new.count(old), old)
        new = new.replace(old, rep)
    try:
        open(path, 'w', encoding='utf-8').write(new)
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        notorig = [l for l in gone if l.strip() and l not in base.splitlines()]
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec %s -B -W ignore "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        bad = sh('sh %s/demo.sh' % d, cwd='/repo')
        out = tempfile.mktemp(suffix='.json')
        t = sh('bash /opt/vp/test.sh %s' % out, cwd='/repo')
        res = json.load(open(out))
        os.unlink(out)
    finally:
        sh('git -C /repo checkout -- .')
    good = sh('sh %s/demo.sh' % d, cwd='/repo')
    passed = set(res.get('passed', []))
    miss = stable() - passed
    ok = bad.returncode != 0 and good.returncode == 0 and not miss and not notorig
    print('%-28s %s' % (s['id'], 'ok' if ok else 'NO'), 'demo patched rc', bad.returncode, 'clean rc', good.returncode,
          'stable tests failing', sorted(miss)[:3], 'lines not original', notorig)
    if good.returncode:
        print(good.stdout, good.stderr)
    return ok


def run_checks(s, pids):
    d = '%s/seeded/%s' % (HERE, s['id'])
    r = sh('git -C /repo apply %s/patch.diff' % d)
    assert r.returncode == 0, r.stderr
    try:
        for p in pids:
            env = dict(os.environ, VERIF_TIER='quick')
            c = sh('%s -B -W ignore check.py %s' % (PY, p), cwd=HERE, timeout=900, env=env)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            print('%-28s %s rc=%d %s' % (s['id'], p, c.returncode, v[0] if v else c.stdout.strip().splitlines()[-1:]), flush=True)
            if os.environ.get('V'):
                print('      ' + '\n      '.join(l[:240] for l in c.stdout.splitlines() if not l.startswith('VIOL'))[:3000])
    finally:
        sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    a = sys.argv[1:]
    chk = '--check' in a
    a = [x for x in a if x != '--check']
    pids = [x[1:] for x in a if x.startswith('=')]
    a = [x for x in a if not x.startswith('=')]
    for s in SEEDS:
        if a and s['id'] not in a:
            continue
        if chk:
            run_checks(s, pids or [s['property']])
        else:
            try:
                make(s)
            except Exception as e:
                print(s['id'], 'NO', repr(e)[:300])
