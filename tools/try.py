import sys, os, importlib, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from dv.universe import Universe
from dv.contract import Registry
from dv.verify import Unit, Lemma
from dv.pool import run_all
from specs.theory import Theory
import specs
mods = sys.argv[1].split(',')
names = sys.argv[2:]
u = Universe(); reg = Registry()
import specs.all as A
A.load(reg)
todo = [c for c in reg.all if not c.assumed and (mods == ['all'] or c.group in mods)
        and (not names or any(n in c.key for n in names))]
TL = float(os.environ.get('TL','120'))
OT = float(os.environ.get('OT','10'))
def show(key, r):
    if r is None:
        print('KILLED', key); return
    print(r.status, key, 'paths', r.paths, 'covered', r.covered, 'obl', len(r.obligations), '%.1fs' % r.time, 'solver %.1fs' % r.solver_time, r.reason or '', flush=True)
    for f in r.failed:
        print('   ', f['status'], f['obligation'], f['path'])
        if os.environ.get('V'): print('      ', f['formula'][:int(os.environ['V'])])
run_all([(c.key, lambda c=c: (Lemma(c.key, c.lemma, c.opts).run_with(Theory(), reg, u, TL, OT) if c.lemma else
                          Unit(c, Theory(), reg, u).run(TL, OT))) for c in todo], 8, TL+60, progress=show)
