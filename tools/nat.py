"""Run the bounded checks by hand: nat.py [Cxx[/name]...]"""
import sys, time, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import dv
from native import load, fw
load()
tier = os.environ.get('TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1'))
sel = sys.argv[1:] or sorted(fw.CHECKS)
for s in sel:
    pid, _, nm = s.partition('/')
    t = time.time()
    r = fw.run_property(pid, seed, tier, float(os.environ.get('B', '60')), only=[nm] if nm else None)
    print(pid, 'violations', len(r['violations']), 'skipped', r['skipped'], 'unbuildable', r['unbuildable'], '%.1fs' % (time.time() - t), r.get('unbuildable_example', ''))
    for k, v in r['checks'].items():
        print('    ', k, v['evaluations'], v['distinct'], 'STOPPED' if v['stopped_by_time'] else '')
    for v in r['violations']:
        print('  !!', v['check'], v['args'], '=>', v['message'])
