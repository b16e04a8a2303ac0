"""The check of one property: the obligations of its contracts, then the
bounded checks of what the contracts do not cover."""
import hashlib
import json
import mmap
import os
import pickle
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED = os.path.join(HERE, 'proved.json')
LEVELS = os.path.join(HERE, 'run', 'levels.json')
KNOWN = os.path.join(HERE, 'known_findings.txt')
CMD = '/opt/venv/bin/python -B -W ignore check.py'
HARD = {'quick': 600.0, 'thorough': 3000.0}     # nothing starts after this


def load_json(path, default):
    try:
        with open(path, encoding='utf-8') as f:
            return json.load(f)
    except FileNotFoundError:
        return default


def known_findings(pid):
    """(known inputs, lines to print)"""
    ks, lines = [], []
    try:
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % pid):
                    d = json.loads(line[line.index('{'):])
                    ks.append([d['check'], d['args']])
                    lines.append(d['what'])
    except FileNotFoundError:
        pass
    return ks, lines


# ------------------------------------------------------------------- contracts
class World:
    def __init__(self):
        import dv                                           # noqa: F401
        from dv.universe import Universe
        from dv.contract import Registry
        import specs.all as A
        self.u = Universe()
        self.reg = Registry()
        A.load(self.reg)
        self.by_key = {c.key: c for c in self.reg.all}
        self.by_target = {}
        for c in self.reg.all:
            self.by_target.setdefault(c.target, []).append(c)

    def hash_of(self, c, inlined):
        """Of the functions that a unit's obligations are generated from."""
        import ast
        from dv.contract import resolve
        h = hashlib.sha256()
        for t in sorted(set([c.target]) | set(inlined)):
            try:
                fn = resolve(t)
                node = self.u.node_of(fn)
                text = ast.dump(node) if node is not None else None
            except Exception:
                text = None
            if text is None:
                mod = sys.modules.get(t.partition(':')[0])
                try:
                    with open(mod.__file__, encoding='utf-8') as f:
                        text = ast.dump(ast.parse(f.read()))
                except Exception:
                    text = 'builtin'
            h.update((t + '\n' + text + '\n').encode())
        return h.hexdigest()[:24]


def unit_job(world, c, tl, ot):
    from specs.theory import Theory
    from dv.verify import Unit, Lemma

    def go():
        if isinstance(c.lemma, object) and c.lemma is not None:
            r = Lemma(c.name, c.lemma, c.opts).run_with(Theory(), world.reg, world.u, tl, ot)
        else:
            r = Unit(c, Theory(), world.reg, world.u).run(tl, ot)
        return r
    return go


def elsewhere(c, pid):
    """The reader of texts has checks of its own (C11, C12)."""
    return c.group in ('parsing', 'lexing') and pid not in c.props


def closure(world, keys, proved, pid):
    """The units that the given ones rest on, as recorded."""
    todo, seen = list(keys), []
    while todo:
        k = todo.pop(0)
        if k in seen or k not in world.by_key:
            continue
        seen.append(k)
        for t in proved.get(k, {}).get('contracts', ()):
            for c in world.by_target.get(t, ()):
                if not c.assumed and not elsewhere(c, pid):
                    todo.append(c.key)
    return seen


def prove_all(world, pid, proved, tier, t_end, say, settled):
    """{key: Result or None}"""
    from dv.pool import run_all
    out = {}
    keys = closure(world, [c.key for c in world.reg.all
                           if pid in c.props and not c.assumed], proved, pid)
    base = dict(tl=90.0, ot=10.0) if tier == 'quick' else dict(tl=300.0, ot=30.0)
    while keys:
        jobs = []
        # the slow ones first
        keys.sort(key=lambda k: -proved.get(k, {}).get('secs', 0))
        for k in keys:
            c = world.by_key[k]
            tl = max(base['tl'] * c.slow, 4 * proved.get(k, {}).get('secs', 0))
            tl = min(tl, max(t_end - time.time(), 10))
            jobs.append((k, unit_job(world, c, tl, base['ot'])))
        left = max(t_end - time.time(), 20)
        got = run_all(jobs, 8, min(left, max(base['tl'] * 3, 120)), progress=say,
                      until=t_end + 20)
        out.update(got)
        # contracts that the code uses now and did not when recorded
        new = []
        for k in keys:
            r = got.get(k)
            for t in (r.contracts if r else ()):
                for c in world.by_target.get(t, ()):
                    if not c.assumed and not elsewhere(c, pid) and c.key not in out and c.key not in new:
                        new.append(c.key)
        keys = new
    # what was proved when recorded and is not any more gets a second try,
    # unless an input is known that shows the failure
    again = [k for k, r in out.items() if k in proved and (r is None or r.status == 'failed')]
    if again and time.time() < t_end - 60 and not settled():
        jobs = [(k, unit_job(world, world.by_key[k], 240.0, 40.0)) for k in again]
        got = run_all(jobs, 8, min(max(t_end - time.time(), 30), 300), progress=say,
                      until=t_end)
        for k, r in got.items():
            if r is not None and (out[k] is None or r.status == 'proved' or
                                  out[k].status != 'failed' or r.status == 'failed'):
                out[k] = r
    return out


# -------------------------------------------------------------- bounded checks
class Native:
    """The bounded checks, in a process of their own."""

    def __init__(self, pid, seed, tier, budget, known, only=None):
        self.mem = mmap.mmap(-1, 1 << 20)
        self.budget = budget
        self.t0 = time.time()
        r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            try:
                import resource
                b = 6 << 30
                resource.setrlimit(resource.RLIMIT_AS, (b, b))
                sys.setrecursionlimit(3000)
                from native import load, fw
                load()

                def progress(name, exprs):
                    data = pickle.dumps((name, exprs))
                    if len(data) < (1 << 20) - 8:
                        self.mem.seek(0)
                        self.mem.write(len(data).to_bytes(8, 'little') + data)
                out = fw.run_property(pid, seed, tier, budget, known, only, progress)
                data = pickle.dumps(out)
            except BaseException:
                data = pickle.dumps({'crash': traceback.format_exc()})
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        self.r = r

    def result(self, extra=60.0):
        buf = bytearray()
        end = self.t0 + self.budget + extra
        dead = None
        while True:
            ready, _, _ = select.select([self.r], [], [], max(0.1, min(1.0, end - time.time())))
            if ready:
                d = os.read(self.r, 1 << 16)
                if not d:
                    break
                buf.extend(d)
            elif time.time() > end:
                os.kill(self.pid, signal.SIGKILL)
                dead = 'did not finish'
                break
        os.close(self.r)
        _, st = os.waitpid(self.pid, 0)
        try:
            return pickle.loads(bytes(buf))
        except Exception:
            pass
        self.mem.seek(0)
        n = int.from_bytes(self.mem.read(8), 'little')
        if n:
            name, exprs = pickle.loads(self.mem.read(n))
            msg = 'the process running the library %s' % (dead or 'died (status %d)' % st)
            return {'checks': {}, 'known': [], 'skipped': 0, 'unbuildable': 0,
                    'violations': [{'check': name, 'args': list(exprs), 'message': msg}]}
        return {'crash': 'bounded checks: %s' % (dead or 'status %d' % st)}


# ------------------------------------------------------------------- the check
def write_replay(pid, data):
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1, default=str)
    p = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha256(text.encode()).hexdigest()[:10]))
    with open(p, 'w', encoding='utf-8') as f:
        f.write(text)
    return p


def check(pid, tier, seed):
    t0 = time.time()
    tier = 'thorough' if tier == 'thorough' else 'quick'
    t_end = t0 + HARD[tier]
    proved = load_json(PROVED, {})
    levels = load_json(LEVELS, {}).get(pid, {})
    known, known_lines = known_findings(pid)
    problems = []       # (kind, replay data)
    try:
        import datashape                                    # noqa: F401
        import datashape.user                               # noqa: F401
    except Exception as e:
        p = write_replay(pid, {'property': pid, 'check': 'import datashape', 'args': [],
                               'message': traceback.format_exc()})
        print('the library cannot be imported: %s' % e)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        evidence(pid, tier, seed, levels, {}, {}, {}, t0, 1, None, [])
        return 1
    budget = float(os.environ.get('NATIVE_BUDGET', 0)) or (40.0 if tier == 'quick' else 600.0)
    nat = [Native(pid, seed + 1000 * i, tier, budget, known) for i in range(3 if tier == "quick" else 1)]
    if tier == 'thorough':
        nat += [Native(pid, seed + 1000 * i, tier, budget, known) for i in range(1, 4)]

    verbose = os.environ.get('V')

    def say(k, r):
        if verbose:
            print('  unit', k, r and r.status, r and len(r.obligations), r and '%.1fs' % r.time,
                  r and r.reason or '', flush=True)
            for f in (r.failed if r else ()):
                print('     ', f['status'], f['obligation'])
    world, results, werr = None, {}, None
    try:
        world = World()
    except Exception:
        werr = traceback.format_exc()
    bounded = []

    def native():
        if not bounded:
            bounded.append(merge([n.result() for n in nat]))
        return bounded[0]
    if world is not None:
        results = prove_all(world, pid, proved, tier, t_end, say,
                            lambda: bool(native().get('violations')))
    nres = native()

    # 1. violations on the real code
    viol = list(nres.get('violations', ()))
    # 2. failed obligations
    failed, dropped = [], []
    for k, r in sorted(results.items()):
        if k not in proved:
            continue
        c = world.by_key[k]
        if r is None or r.status == 'unsupported':
            dropped.append((k, r.reason if r else 'the verifier ran out of time'))
        elif r.status == 'failed':
            same = world.hash_of(c, proved[k]['inlined']) == proved[k]['hash'] and \
                set(r.inlined) <= set(proved[k]['inlined'])
            refuted = any(f['status'] == 'refuted' for f in r.failed)
            if same and not refuted:
                dropped.append((k, 'the solver gave no answer in time on unchanged code'))
            else:
                failed.append((k, r))
    if failed and not viol and time.time() < t_end - 30:
        # look longer for an input that shows it
        b = 60.0 if tier == 'quick' else 300.0
        ns = [Native(pid, seed * 7919 + i, 'thorough', b, known) for i in range(1, 7)]
        viol = list(merge([n.result() for n in ns]).get('violations', ()))
    crash = nres.get('crash')
    fails = [{'unit': k, 'function': world.by_key[k].target, 'failed': r.failed,
              'reason': r.reason} for k, r in failed]
    code = 0
    seen = set()
    for v in viol:
        key = (v['check'], v['message'][:60])
        if key in seen:
            continue
        seen.add(key)
        p = write_replay(pid, {'property': pid, 'check': v['check'], 'args': v['args'],
                               'message': v['message'], 'failed_obligations': fails,
                               'replay_cmd': CMD + ' --replay <this file>'})
        print('%s: %s(%s): %s' % (pid, v['check'], ', '.join(v['args']), v['message']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        code = 1
    if not viol and fails:
        p = write_replay(pid, {'property': pid, 'failed_obligations': fails})
        for f in fails:
            for o in f['failed']:
                print('%s: obligation not discharged: %s [%s]' % (pid, o['obligation'], o['status']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        code = 1
    if not viol and not fails and crash:
        print('the bounded checks crashed:\n%s' % crash)
        code = 2
    evals = sum(c['evaluations'] for c in nres.get('checks', {}).values())
    if not viol and not fails and not crash and not evals:
        p = write_replay(pid, {'property': pid, 'message': 'no input of the checks could be built',
                               'detail': nres})
        print('%s: none of the inputs could be built' % pid)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        code = 1
    for line in known_lines:
        print('KNOWN-FINDING: property=%s %s' % (pid, line))
    ev = evidence(pid, tier, seed, levels, results, proved, nres, t0, len(viol) or len(fails),
                  world, dropped, werr)
    if code == 0:
        print('%s held: %s of %s obligations discharged in %s functions; '
              '%s bounded evaluations; %.0f s' % (
                  pid, ev['coverage'].get('discharged', 0), ev['coverage'].get('obligations', 0),
                  len(ev['coverage'].get('functions_under_contract', ())), evals,
                  time.time() - t0))
    return code


def merge(rs):
    out = {'checks': {}, 'violations': [], 'known': [], 'skipped': 0, 'unbuildable': 0}
    for r in rs:
        if 'crash' in r:
            out['crash'] = r['crash']
            continue
        for k, v in r['checks'].items():
            o = out['checks'].get(k)
            if o is None:
                out['checks'][k] = dict(v)
            else:
                o['evaluations'] += v['evaluations']
                o['distinct'] = max(o['distinct'], v['distinct'])
                o['samples'] = (o.get('samples', []) + v.get('samples', []))[:3]
                o['skipped'] += v['skipped']
                o['stopped_by_time'] |= v['stopped_by_time']
        for k in ('violations', 'known'):
            out[k] += r[k]
        for k in ('skipped', 'unbuildable'):
            out[k] += r[k]
    return out


ENGINE_ASSUMPTIONS = [
    'the verifier in /verif/dv gives the meaning of the Python subset it accepts (CPython 3.12 '
    'semantics of built-in types, no monkey-patching during a call, no threads)',
    'z3 4.x (Python bindings) answers unsat only for unsatisfiable formulas',
    'closed world: datashape objects are instances of the classes of /repo, of no user subclass',
    'objects satisfy their class invariants when a function is entered; the invariants are '
    'obligations of the constructors under contract and are otherwise checked by the bounded part',
    'strings compare and concatenate as mathematical strings; integers are unbounded (as in Python)',
    'no MemoryError, RecursionError or KeyboardInterrupt',
]


def evidence(pid, tier, seed, levels, results, proved, nres, t0, nviol, world, dropped, werr=None):
    cov = {}
    obl = dis = 0
    backends, units, stime = {}, [], 0.0
    trusted, assumed = set(), set()
    for k, r in sorted(results.items()):
        c = world.by_key[k]
        if r is None:
            units.append({'unit': k, 'function': c.target, 'status': 'no answer'})
            continue
        if k in proved or r.status == 'proved':
            obl += len(r.obligations)
            for (n, st, be, s) in r.obligations:
                if st == 'proved' and r.status != 'unsupported':
                    dis += 1
                    backends[be] = backends.get(be, 0) + 1
        stime += r.solver_time
        units.append({'unit': k, 'function': c.target, 'status': r.status,
                      'paths': r.paths, 'obligations': len(r.obligations),
                      'names': sorted(set(n for n, _, _, _ in r.obligations))[:40],
                      'inlined': r.inlined, 'contracts_used': r.contracts,
                      'seconds': round(r.time, 2), 'reason': r.reason,
                      'counted': bool(k in proved or r.status == 'proved')})
        if r.status == 'proved':
            trusted |= set(r.trusted)
            for t in r.contracts:
                for d in world.by_target.get(t, ()):
                    if d.assumed:
                        assumed.add('%s: %s' % (d.target, d.note or 'assumed contract'))
                    elif d.key not in results or results[d.key] is None or \
                            results[d.key].status != 'proved':
                        assumed.add('%s: contract not discharged in this run' % d.target)
    cov['obligations'] = obl
    cov['discharged'] = dis
    cov['checker_cmd'] = '%s %s' % (CMD, pid)
    cov['trusted_base'] = sorted('model of %s' % t for t in trusted) + sorted(assumed) + [
        'verifier /verif/dv (symbolic execution of the function bodies of /repo)', 'z3 (solver)']
    cov['functions_under_contract'] = sorted(set(
        u['function'] for u in units if u['status'] == 'proved'))
    cov['units'] = units
    cov['back_ends'] = backends
    cov['solver_seconds'] = round(stime, 2)
    if dropped:
        cov['fell_back_to_bounded'] = [{'unit': k, 'reason': why} for k, why in dropped]
    if werr:
        cov['verifier_error'] = werr
    checks = nres.get('checks', {}) if nres else {}
    cov['evaluations'] = sum(c['evaluations'] for c in checks.values())
    cov['distinct_nontrivial'] = sum(c['distinct'] for c in checks.values())
    cov['rule'] = ('bounded part, not counted as proved: inputs are built by expressions over the '
                   'public constructors (all small types, then random nesting up to depth 4 seeded '
                   'by VERIF_SEED, mutations of them for pairs); an input counts once per check '
                   'and only if it was buildable and inside the domain of the property')
    cov['bounded_checks'] = checks
    cov['samples'] = [s for c in checks.values() for s in c.get('samples', [])][:6] or ['none']
    cov['explanation'] = levels.get('explanation', '')
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': levels.get('level', 'exploration'), 'coverage': cov,
          'assumptions': ENGINE_ASSUMPTIONS + sorted(assumed) + levels.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + '.json.tmp')
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, pid + '.json'))
    return ev


def replay(path):
    data = load_json(path, None)
    if data is None:
        print('no such file')
        return 2
    if not data.get('args') and 'check' not in data:
        print(json.dumps(data, indent=1))
        print('no input to replay: re-run the check of %s' % data.get('property'))
        return 2
    from native import load, fw
    load()
    for name, f, _ in fw.CHECKS.get(data['property'], []):
        if name == data['check']:
            msg = fw.run_case(f, data['args'])
            print('%s(%s): %s' % (name, ', '.join(data['args']), msg or 'holds'))
            return 1 if msg else 0
    print('unknown check')
    return 2


def record(args):
    """Prove everything on the present tree and write down what was proved."""
    from dv.pool import run_all
    world = World()
    old = load_json(PROVED, {})
    jobs = []
    for c in world.reg.all:
        if c.assumed or (args and not any(a in c.key or a == c.group for a in args)):
            continue
        jobs.append((c.key, unit_job(world, c, 300.0, 20.0)))
    out = dict(old) if args else {}

    def say(k, r):
        if r is None or r.status != 'proved':
            print('not proved:', k, r and r.status, r and r.reason,
                  [f['obligation'] for f in r.failed] if r else '', flush=True)
    res = run_all(jobs, 7, 400, progress=say)
    for k, r in res.items():
        out.pop(k, None)
        if r is not None and r.status == 'proved':
            c = world.by_key[k]
            out[k] = {'target': c.target, 'hash': world.hash_of(c, r.inlined),
                      'inlined': r.inlined, 'contracts': r.contracts,
                      'obligations': len(r.obligations), 'secs': round(r.time, 1)}
    if not args:
        out = {k: v for k, v in out.items() if k in world.by_key}
    with open(PROVED, 'w', encoding='utf-8') as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%d units proved, %d obligations' % (len(out), sum(v['obligations'] for v in out.values())))
    return 0
