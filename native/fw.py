"""Registry and runner of the bounded checks on the real code."""
import random
import signal
import time
from . import gen

CHECKS = {}          # property -> [(name, function, case generator)]


class Timeout(Exception):
    pass


def check(pid, cases, name=None):
    def deco(f):
        CHECKS.setdefault(pid, []).append((name or f.__name__, f, cases))
        return f
    return deco


class Skip(Exception):
    """The input is outside the domain of the property."""


def raises(f, *a, **k):
    """(exception or None, result)"""
    try:
        return None, f(*a, **k)
    except Timeout:
        raise
    except Exception as e:
        return e, None


def snap(x, seen=()):
    """Structure of a value, without cached hashes; independent of the
    library's own comparison."""
    from datashape import coretypes as ct
    from datashape import typesets
    if isinstance(x, ct.Mono):
        if id(x) in seen:
            return ('cycle',)
        seen = seen + (id(x),)
        d = {}
        sl = getattr(type(x), '__slots__', ())
        for s in (sl,) if isinstance(sl, str) else sl:
            d[s] = snap(getattr(x, s, 'MISSING'), seen)
        for k, v in getattr(x, '__dict__', {}).items():
            if k != '_hash':
                d[k] = snap(v, seen)
        return (type(x).__name__, tuple(sorted(d.items(), key=lambda kv: kv[0])))
    if isinstance(x, dict):
        return ('dict', tuple((snap(k, seen), snap(v, seen)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(y, seen) for y in x)
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, len(x))
    if isinstance(x, (int, float, str, bytes, bool, complex, type(None))):
        return (type(x).__name__, repr(x))
    return (type(x).__name__, id(x))


def describe(x):
    try:
        return repr(x)[:300]
    except Exception as e:
        return '<%s: repr raises %s>' % (type(x).__name__, type(e).__name__)


def _alarm(sig, frame):
    raise Timeout()


def run_case(f, exprs, limit=10):
    """None, or what is wrong."""
    try:
        args = [gen.build(e) for e in exprs]
    except gen.Unbuildable:
        raise
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return f(*args)
    except Skip:
        raise
    except Timeout:
        return 'did not terminate within %d s' % limit
    except RecursionError:
        return 'raised RecursionError'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        return 'raised %s: %s (at %s:%s)' % (type(e).__name__, str(e)[:300],
                                             tb[-1].filename.split('/')[-1], tb[-1].name)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_property(pid, seed, tier, budget, known=(), only=None, progress=None):
    """Run the checks of a property; budget is seconds for all of them."""
    out = {'checks': {}, 'violations': [], 'known': [], 'skipped': 0, 'unbuildable': 0}
    checks = [c for c in CHECKS.get(pid, []) if only is None or c[0] in only]
    t_end = time.time() + budget
    for k, (name, f, cases) in enumerate(checks):
        share = (t_end - time.time()) / (len(checks) - k)
        end = time.time() + max(share, 0.5)
        rng = random.Random('%s/%s/%s' % (pid, name, seed))
        n = bad = 0
        skipped = unb = 0
        distinct = set()
        samples = []
        truncated = False
        for exprs in cases(rng, tier):
            if isinstance(exprs, str):
                exprs = (exprs,)
            if progress is not None:
                progress(name, exprs)
            try:
                msg = run_case(f, exprs)
            except Skip:
                skipped += 1
                continue
            except gen.Unbuildable as e:
                unb += 1
                out.setdefault('unbuildable_example', str(e))
                continue
            n += 1
            if len(samples) < 3 and (n in (1, 50) or n % 500 == 0):
                samples.append('%s(%s)' % (name, ', '.join(exprs)))
            if len(distinct) < 200000:
                distinct.add(hash(exprs))
            if msg:
                rec = {'property': pid, 'check': name, 'args': list(exprs), 'message': msg}
                if [name, list(exprs)] in known:
                    out['known'].append(rec)
                    continue
                out['violations'].append(rec)
                bad += 1
                if bad >= 3:
                    break
            if time.time() > end:
                truncated = True
                break
        out['checks'][name] = {'evaluations': n, 'distinct': len(distinct), 'skipped': skipped,
                               'unbuildable': unb, 'stopped_by_time': truncated,
                               'samples': samples}
        out['skipped'] += skipped
        out['unbuildable'] += unb
    return out


# ------------------------------------------------------------------- cases
def N(tier, quick, thorough=None):
    return quick if tier == 'quick' else (thorough or quick * 20)


def each_small(rng, tier):
    for e in gen.small():
        yield (e,)


def large():
    """Wide, long and deep datashapes."""
    sc = ['int32', 'string', 'float64', 'Option(int8)', 'date_', 'DataShape(Fixed(3), int16)',
          'TimeDelta("s")', 'bool_', 'TypeVar("T")', 'complex64']

    def nested(x, n, wraps):
        for i in range(n):
            x = wraps[i % len(wraps)] % x
        return x
    for last in ('int32', 'DataShape(var, int32)', 'DataShape(Ellipsis(), string)', 'Option(string)'):
        for n in (11, 37, 120):
            yield 'Record([%s])' % ', '.join(
                '("f%d", %s)' % (i * 7 % 121, 'int32') for i in range(n)).replace(
                    '("f%d", int32)' % ((n - 1) * 7 % 121), '("last", %s)' % last)
        for n in (3, 9, 40):
            for i in (0, 1, n // 2, n - 1):
                l = ['int32'] * n
                l[i] = last
                yield 'Tuple([%s])' % ', '.join(l)
                yield 'Record([%s])' % ', '.join('("c%d", %s)' % e for e in enumerate(l))
                yield 'Function(%s)' % ', '.join(
                    t if t[:2] == 'Da' else 'DataShape(%s)' % t for t in l + ['int16'])
                yield 'Function(%s)' % ', '.join(['DataShape(int16)'] * i + [
                    t if t[:2] == 'Da' else 'DataShape(%s)' % t for t in [last, 'string']])
        yield nested(last, 10, ['Record([("a", %s)])'])
        yield nested(last, 9, ['Record([("a", int8), ("b c", %s)])', 'Tuple([int32, %s])',
                               'DataShape(Fixed(3), %s)'])
        yield nested(last, 8, ['Option(Tuple([%s]))', 'DataShape(var, Record([("x", %s), ("y", int32)]))',
                               'Map(string, %s)'])
    yield 'DataShape(%s, int32)' % ', '.join(['Fixed(2)'] * 40)
    for n in (3, 9, 24):
        for d in ('var', 'Ellipsis()', 'TypeVar("N")', 'Fixed(7)'):
            for i in sorted({0, 1, n // 2, n // 2 + 1, n - 1}):
                l = ['Fixed(2)'] * n
                l[i] = d
                yield 'DataShape(%s, int32)' % ', '.join(l)
                yield 'Tuple([string, DataShape(%s, int32)])' % ', '.join(l)
    yield 'DataShape(%s, var, int32)' % ', '.join(['Fixed(%d)' % i for i in range(25)])
    yield 'DataShape(%s, Fixed(3), Option(string))' % ', '.join(['var'] * 18)
    yield 'Record([%s])' % ', '.join('("%s", %s)' % ('n' * (i + 1), sc[i % 10]) for i in range(50))
    yield 'Tuple([%s])' % ', '.join(sc[i % 10] for i in range(64))


def singles(quick=1500, depth=3, **kw):
    def cases(rng, tier):
        yield from each_small(rng, tier)
        for x in large():
            yield (x,)
        g = gen.Gen(rng, **kw)
        for _ in range(N(tier, quick)):
            yield (g.any(rng.randint(1, depth)),)
    return cases


def pairs(quick=6000, depth=2, every=1, **kw):
    def cases(rng, tier):
        s = gen.small()
        g = gen.Gen(rng, **kw)
        if tier != 'quick' or every:
            for a in s:
                for b in s:
                    yield (a, b)
        else:
            for a in s:
                yield (a, a)
        for a in large():
            m = g.mutate(a)
            yield (a, m) if rng.random() < .7 else (a, a)
        for _ in range(N(tier, quick)):
            r = rng.random()
            if r < 0.3:
                yield (rng.choice(s), rng.choice(s))
            elif r < 0.5:
                e = g.any(depth)
                yield (e, e)
            elif r < 0.9:
                e = rng.choice(s) if rng.random() < 0.4 else g.any(depth)
                m = g.mutate(e)
                if rng.random() < 0.2:
                    m = g.mutate(m)
                yield (e, m) if rng.random() < 0.5 else (m, e)
            else:
                yield (g.any(depth), g.any(depth))
    return cases


def from_list(items):
    """Every item (a string or a tuple of strings)."""
    def cases(rng, tier):
        for x in items:
            yield (x,) if isinstance(x, str) else tuple(x)
    return cases


def chain(*fs):
    def cases(rng, tier):
        for f in fs:
            yield from f(rng, tier)
    return cases
