"""Which planted bugs the proofs alone reject: each is applied to a copy of
/repo, where only the obligations of its property are generated."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.seeds_list import SEEDS
import dv
from specs import all as A


class Reg(list):
    def add(self, c):
        self.append(c)


reg = Reg()
A.load(reg)
proved = json.load(open(HERE + '/proved.json'))
D = '/tmp/seedrepo'
for s in SEEDS:
    if sys.argv[1:] and s['id'] not in sys.argv[1:]:
        continue
    keys = [c.key for c in reg if c.key in proved and s['property'] in c.props]
    # units reached through contracts
    shutil.rmtree(D, ignore_errors=True)
    shutil.copytree('/repo', D)
    r = subprocess.run('git apply %s/seeded/%s/patch.diff' % (HERE, s['id']), shell=True, cwd=D)
    assert r.returncode == 0
    if not keys:
        print(s['id'], 'no units', flush=True)
        continue
    env = dict(os.environ, PYTHONPATH=D, TL='120', OT='8')
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', HERE + '/tools/try.py', 'all'] + keys,
                       env=env, capture_output=True, text=True, cwd=HERE)
    bad = [l for l in r.stdout.splitlines() if not l.startswith(('proved', '    '))]
    what = [l.strip()[:100] for l in r.stdout.splitlines() if l.startswith('    ')]
    print(s['id'], s['property'], 'REJECTED' if what else 'accepted', [b[:90] for b in bad][:3], what[:2], flush=True)
shutil.rmtree(D, ignore_errors=True)
