"""C07, C08, C10, C14-C17, C20: operations on types."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from . import gen
from .fw import check, raises, snap, describe, Skip, N, singles, pairs, from_list, chain, each_small, large
from .p_core import same
from .same import nat_eq, norm_ds
import datashape
from datashape import coretypes as ct, typesets, discovery, predicates, util
from datashape.coretypes import DataShape, Fixed, Var, TypeVar, Ellipsis, Record, Mono, Option
from datashape.promote import promote, optionify
from datashape.util.testing import assert_dshape_equal

PRIMS = gen.PRIMS
COMPLEX = {'complex[float32]': 'complex64', 'complex[float64]': 'complex128'}


# ---------------------------------------------------------------------- C07
C07_TYPES = PRIMS + ['string', 'date_', 'datetime_', 'TimeDelta("s")', 'TimeDelta("D")',
                     'TimeDelta("us")', 'String(5)', 'String(7, "A")', 'Decimal(5)',
                     'Decimal(7, 2)', 'Decimal(18)', 'char', 'object_', 'bytes_', 'String(5, "U32")',
                     'DateTime("UTC")', 'null', 'json', 'Units("m")',
                     'Categorical(["a"], type=string)']
C07_DIMS = ['DataShape(Fixed(3), int32)', 'Record([("a", int32)])', 'Tuple([int32])']


def c07_pairs(rng, tier):
    t = C07_TYPES + ['Option(%s)' % x for x in C07_TYPES]
    for a in t:
        for b in t:
            for f in ('True', 'False'):
                yield (a, b, f)


def np_name(x):
    return np.dtype(COMPLEX.get(x.name, x.name))


def strip(x):
    return x.ty if type(x) is Option else x


@check('C07', c07_pairs)
def promotion(a, b, flag):
    sa, sb = snap(a), snap(b)
    e1, r = raises(promote, a, b, promote_option=flag)
    e2, q = raises(promote, b, a, promote_option=flag)
    if (snap(a), snap(b)) != (sa, sb):
        return 'changes an operand'
    if (e1 is None) is not (e2 is None):
        return 'defined in one order only: %r, %r' % (e1 or r, e2 or q)
    if e1 is not None:
        if nat_eq(a, b):
            return 'a type with itself raised %r' % e1
        na, nb = strip(a), strip(b)
        num = lambda x: isinstance(x, ct.CType) and x.name in FAMILY or \
            nat_eq(x, ct.string)
        if num(na) and num(nb) and (nat_eq(na, ct.string) == nat_eq(nb, ct.string)):
            return 'raised %r' % e1
        return
    if not nat_eq(r, q) or repr(r) != repr(q):
        return 'depends on the order: %s, %s' % (describe(r), describe(q))
    oa, ob = type(a) is Option, type(b) is Option
    if nat_eq(a, b):
        if not nat_eq(r, a):
            return 'a type with itself gives %s' % describe(r)
        return
    if flag:
        if (type(r) is Option) is not (oa or ob):
            return 'optionality of %s' % describe(r)
    elif type(r) is Option:
        return 'optional result %s' % describe(r)
    if type(strip(r)) is Option:
        return 'doubly optional'
    na, nb = strip(a), strip(b)
    if nat_eq(na, nb) and not nat_eq(strip(r), na) and isinstance(na, ct.CType):
        return 'gives %s' % describe(r)
    if nat_eq(na, ct.string) and nat_eq(nb, ct.string):
        if not nat_eq(strip(r), ct.string):
            return 'string with string gives %s' % describe(r)
    elif all(isinstance(x, ct.CType) and x.name in FAMILY for x in (na, nb)):
        want = np.promote_types(np_name(na), np_name(nb))
        if not isinstance(strip(r), ct.CType) or np_name(strip(r)) != want:
            return 'gives %s, numpy %s' % (describe(r), want)


@check('C07', lambda rng, tier: ((a, b, c) for a in ('int8', 'Option(int8)', 'string', 'Option(string)')
                                 for b in ('int64', 'Option(int64)', 'Option(float32)', 'string')
                                 for c in ('int64', 'Option(int64)', 'string', 'float64',
                                           'Option(float64)', 'date_')))
def optionify_(a, b, c):
    r = optionify(a, b, c)
    if type(c) is Option:
        want = c
    elif type(a) is Option or type(b) is Option:
        want = Option(c)
    else:
        want = c
    if not nat_eq(r, want):
        return 'gives %s' % describe(r)


# ---------------------------------------------------------------------- C08
def c08_sets(rng, tier):
    t = PRIMS + ['string', 'date_', 'Option(int32)', 'DataShape(int32)', 'Decimal(5)', 'TypeVar("T")',
                 'TimeDelta("s")', 'Record([("a", int32)])']
    for _ in range(N(tier, 1500)):
        k = rng.randint(0, 6)
        l = [rng.choice(t) for _ in range(k)]
        m = [rng.choice(t) for _ in range(rng.randint(0, 5))]
        if rng.random() < .4:
            m = list(l)
            rng.shuffle(m)
            if m and rng.random() < .3:
                m.append(rng.choice(m))
        yield ('[%s]' % ', '.join(l), '[%s]' % ', '.join(m), rng.choice(t))
    many = ['Decimal(%d, %d)' % (p, q) for p in range(1, 30) for q in range(p)]
    for k in (90, 290, 400):
        yield ('[%s]' % ', '.join(many[:k]), '[%s]' % ', '.join(reversed(many[k - 80:k])), many[k - 1])
    named = ['list(%s)' % s for s in 'boolean complexes floating integral signed unsigned numeric '
             'scalar'.split()]
    for a in named:
        for b in named:
            yield (a, b, rng.choice(t))


def members(l):
    out = []
    for x in l:
        if not any(nat_eq(x, y) for y in out):
            out.append(x)
    return out


@check('C08', c08_sets)
def type_sets(l, m, x):
    A, B = typesets.TypeSet(*l), typesets.TypeSet(*m)
    for T, ts in ((A, l), (B, m)):
        if len(T) != len(members(ts)):
            return 'len is %r' % len(T)
        it = list(T)
        if not all(any(nat_eq(y, z) for z in it) for y in ts) or \
                not all(any(nat_eq(y, z) for z in ts) for y in it):
            return 'iterates over %s' % describe(it)
        if not all(y in T for y in ts):
            return 'a member is not in the set'
        if (x in T) is not any(nat_eq(x, y) for y in ts):
            return 'membership of %s' % describe(x)
        if not all(any(nat_eq(y, z) for z in T.types) for y in ts) or len(T.types) < len(members(ts)):
            return 'types are %s' % describe(T.types)
    U = A | B
    if type(U) is not typesets.TypeSet or U.name is not None:
        return 'union is %s' % describe(U)
    if not all(y in U for y in l + m) or len(U) != len(members(l + m)) or \
            (x in U) is not any(nat_eq(x, y) for y in l + m):
        return 'union is %s' % describe(U)
    same_set = all(any(nat_eq(x, y) for y in m) for x in l) and \
        all(any(nat_eq(x, y) for y in l) for x in m)
    if A == B and not same_set:
        return 'different sets are equal'
    if A == B and hash(A) != hash(B):
        return 'equal sets have different hashes'
    if l and m and len(l) == len(m) and all(nat_eq(a, b) for a, b in zip(l, m)) and not A == B:
        return 'sets of the same types are different'


FAMILY = {}
for _n, _ts in (('signed', 'int8 int16 int32 int64'), ('unsigned', 'uint8 uint16 uint32 uint64'),
                ('floating', 'float16 float32 float64'),
                ('complexes', 'complex[float32] complex[float64]'),
                ('boolean', 'bool')):
    for _t in _ts.split():
        FAMILY[_t] = (_n, _ts.split()[-1])
FAMILIES = {'signed': 'int8 int16 int32 int64', 'unsigned': 'uint8 uint16 uint32 uint64',
            'integral': 'int8 int16 int32 int64 uint8 uint16 uint32 uint64',
            'floating': 'float16 float32 float64',
            'complexes': 'complex[float32] complex[float64]', 'boolean': 'bool'}
FAMILIES['real'] = FAMILIES['integral'] + ' ' + FAMILIES['floating']
FAMILIES['numeric'] = FAMILIES['real'] + ' ' + FAMILIES['complexes']
FAMILIES['scalar'] = FAMILIES['numeric'] + ' bool'


@check('C08', lambda rng, tier: [(repr(f),) for f in FAMILIES])
def families(f):
    ts = typesets.registry[f]
    if set(t.name for t in ts) != set(FAMILIES[f].split()) or \
            len(ts) != len(FAMILIES[f].split()) or ts.name != f:
        return 'is %s' % describe(list(ts))


def fam_of(m):
    return FAMILY.get(m.name) if type(m) is ct.CType else None


@check('C08', lambda rng, tier: ((e,) for e in gen.small() + ['Option(%s)' % x for x in gen.LEAVES] +
                                 ['DataShape(Fixed(3), Option(%s))' % x for x in gen.LEAVES[:20]] +
                                 ['DataShape(Option(%s))' % x for x in gen.LEAVES[:20]] +
                                 ['Decimal(%d, %d)' % (p, s) for p in (1, 11, 40) for s in (0, 2)] +
                                 ['TimeDelta(%r)' % u for u in gen.UNITS] +
                                 ['CType("foo_%d", 4, 4)' % rng.randint(0, 10 ** 9)]))
def maximum(t):
    m = norm_ds(t)[-1]
    opt = type(m) is Option
    k = m.ty if opt else m
    want = None
    if fam_of(k):
        want = ct.Type.lookup_type(COMPLEX.get(fam_of(k)[1], fam_of(k)[1]))
    elif type(k) in (ct.Decimal, ct.TimeDelta):
        want = k
    exc, r = raises(typesets.maxtype, t)
    if want is None:
        if exc is None:
            return 'gives %s' % describe(r)
        return
    if exc is not None:
        return 'raised %r' % exc
    if not nat_eq(r, Option(want) if opt else want):
        return 'gives %s' % describe(r)


@check('C08', lambda rng, tier: ((e,) for e in gen.small() + ['Option(%s)' % x for x in gen.LEAVES]))
def super_type(t):
    m = t.ty if type(t) is Option else t
    if type(m) is DataShape and len(norm_ds(m)) == 1:
        m = norm_ds(m)[0]
    exc, r = raises(typesets.supertype, t)
    f = fam_of(m) if isinstance(m, Mono) else None
    if f is None:
        if exc is None:
            return 'gives %s' % describe(r)
        return
    if exc is not None or r is not typesets.registry[f[0]] or m not in r:
        return 'gives %s' % describe(exc or r)


def c08_match(rng, tier):
    sets = 'signed unsigned integral floating complexes boolean numeric scalar'.split()
    for a in PRIMS + sets + ['string', 'Option(int32)', 'TypeSet()', 'TypeSet(int8, string)']:
        for s in sets + ['TypeSet()', 'TypeSet(string, int8)']:
            yield (a, s)
    for _ in range(N(tier, 4000)):
        k = rng.randint(0, 4)
        sig = [rng.choice(sets + PRIMS[:8] + ['string']) for _ in range(k)]
        arg = []
        for s in sig:
            r = rng.random()
            arg.append(s if s not in sets and r < .8 else rng.choice(PRIMS + ['string']))
        if rng.random() < .25:
            arg = arg[:-1] if rng.random() < .5 else arg + [rng.choice(PRIMS)]
        br = rng.choice(['(%s,)', '[%s]'])
        f = lambda l: (br if l else br.replace(',', '')) % ', '.join(l)
        yield (f(arg), f(sig))


@check('C08', c08_match)
def matching(types, sig):
    r = typesets.matches_typeset(types, sig)
    def mem(t, ts):
        return any(nat_eq(t, u) for u in ts.types)
    if isinstance(sig, typesets.TypeSet):
        if isinstance(types, typesets.TypeSet):
            want = all(mem(t, sig) for t in types.types)
        else:
            want = mem(types, sig)
    else:
        want = len(types) == len(sig) and all(
            mem(a, b) or (isinstance(a, typesets.TypeSet) and nat_eq(a, b))
            if isinstance(b, typesets.TypeSet) else nat_eq(a, b)
            for a, b in zip(types, sig))
    if r is not want:
        return 'is %r' % (r,)


# ---------------------------------------------------------------------- C10
# what can be converted to what, as documented in discovery.py
KNOWN = ['int32', 'int64', 'float64', 'date_', 'datetime_', 'TimeDelta()', 'bool_', 'null', 'string']
STEP = {'int32': ['int64'], 'int64': ['float64', 'string'], 'float64': ['string'],
        'date_': ['datetime_', 'string'], 'datetime_': ['string'], 'TimeDelta()': ['string'],
        'bool_': ['string'], 'null': ['string'], 'string': []}


def up(x):
    out = {x}
    for y in STEP[x]:
        out |= up(y)
    return out


UP = {x: up(x) for x in KNOWN}


def kname(t):
    for k in KNOWN:
        if nat_eq(gen.build(k), t):
            return k
    return None


def lub(ts):
    """The least general type, None if there is none."""
    ks = [kname(t) for t in ts]
    if None in ks:
        return None
    common = set.intersection(*[UP[k] for k in ks])
    best = [c for c in common if not any(d != c and c in UP[d] for d in common)]
    assert len(best) == 1, (ks, best)
    return gen.build(best[0])


def c10_scalars(rng, tier):
    for n in (1, 2, 3):
        for c in itertools.product(KNOWN, repeat=n):
            yield ('[%s]' % ', '.join(c),)
    other = ['int8', 'float32', 'String(5)', 'DateTime("UTC")', 'json', 'uint8', 'time_',
             'TimeDelta("s")', 'Units("m")', 'TypeVar("T")', 'complex128']
    for a in KNOWN + other:
        for b in other:
            yield ('[%s, %s]' % (a, b),)
            yield ('[%s, %s, %s]' % (b, a, b),)
    for _ in range(N(tier, 1500)):
        yield ('[%s]' % ', '.join(rng.choice(KNOWN + other[:2]) if rng.random() < .05 else
                                  rng.choice(KNOWN) for _ in range(rng.randint(4, 7))),)


@check('C10', c10_scalars)
def least_common(ts):
    want = lub(ts)
    exc, r = raises(discovery.lowest_common_dshape, ts)
    if want is None:
        if not isinstance(exc, ValueError):
            return 'gives %s' % describe(exc or r)
    elif exc is not None or not nat_eq(r, want):
        return 'gives %s, not %s' % (describe(exc or r), describe(want))


def unwrap(d):
    return norm_ds(d)[0] if type(d) is DataShape and len(norm_ds(d)) == 1 else d


UNITS_ = (ct.Unit,)


class NoUnion(Exception):
    pass


def unite_model(ts):
    """(base type, or NoUnion)."""
    ts = [unwrap(t) for t in ts]
    good = [t for t in ts if not isinstance(t, ct.Null)]
    if not good:
        return ct.null
    if all(kname(t) is not None or isinstance(t, ct.Unit) for t in good):
        base = lub(good)
        if base is None:
            raise NoUnion
    elif all(type(t) is Record for t in good) and \
            all(set(t.names) == set(good[0].names) for t in good):
        base = Record([(n, unite_model([t.dict[n] for t in good])) for n in good[0].names])
    else:
        raise NoUnion
    return Option(base) if len(good) < len(ts) else base


def c10_columns(rng, tier):
    rec = ['Record([("a", %s)])', 'Record([("b", %s)])', 'Record([("a", %s), ("b", int32)])',
           'Record([("b", int64), ("a", %s)])', 'Record([("c", Record([("a", %s)]))])',
           'Record([("a", int32), ("b", %s), ("c", string)])', 'Record([])']
    ks = KNOWN + ['DataShape(int32)', 'DataShape(null)', 'DataShape(string)', 'int8', 'null', 'null']
    for a in ks:
        yield ('[%s]' % a,)
        for b in ks:
            yield ('[%s, %s]' % (a, b),)
    for n in (12, 40, 150):
        for a in ('int32', 'null', 'date_', 'bool_', 'Record([("a", int32)])'):
            for b in ('null', 'int64', 'float64', 'string', 'datetime_', 'bool_',
                      'Record([("a", string)])', 'Record([("a", null)])', 'Record([("b", int32)])'):
                for l in ([a] * n + [b], [b] + [a] * n, [a] * n + [b] + [a] * 3):
                    yield ('[%s]' % ', '.join(l),)
    for n in (11, 40):
        f = ['("f%d", %s)' % (i * 7 % n, KNOWN[i % len(KNOWN)]) for i in range(n)]
        g = f[:-1] + [f[-1].split(',')[0] + ', null)']
        for l in ([f, f], [f, f[::-1]], [f, g], [g, f, f], [f, f[:-1]], [f, f[:-1] + ['("z", int32)']]):
            yield ('[%s]' % ', '.join('Record([%s])' % ', '.join(r) for r in l),)
    for _ in range(N(tier, 3000)):
        n = rng.randint(1, 5)
        if rng.random() < .5:
            l = [rng.choice(ks) for _ in range(n)]
        else:
            f = rng.choice(rec)
            l = []
            for _ in range(n):
                g = f if rng.random() < .85 else rng.choice(rec + ['int32', 'Option(int32)',
                                                                   'DataShape(Fixed(3), int32)'])
                if rng.random() < .2:
                    g = rng.choice(['null', 'DataShape(null)'])
                l.append(g % rng.choice(KNOWN[:-1] + ['null']) if '%s' in g else g)
        yield ('[%s]' % ', '.join(l),)


@check('C10', c10_columns)
def columns(ts):
    before = snap(ts)
    exc, r = raises(discovery.unite_base, ts)
    if snap(ts) != before:
        return 'changes the types'
    try:
        want = unite_model(ts)
    except NoUnion:
        if not isinstance(exc, ValueError):
            return 'gives %s' % describe(exc or r)
        return
    if exc is not None:
        return 'raised %r' % exc
    if not nat_eq(r, DataShape(Fixed(len(ts)), want)):
        return 'gives %s, not %d * %s' % (describe(r), len(ts), describe(want))


def c10_dims(rng, tier):
    dims = ['Fixed(2)', 'Fixed(3)', 'var', 'Fixed(3)', 'Fixed(1)']
    base = ['int32', 'string', 'Record([("a", int32)])', 'Option(int64)', 'Fixed(2), int32',
            'var, string', 'Fixed(2), Fixed(2), float64', 'Ellipsis(), int32']
    for _ in range(N(tier, 2500)):
        n = rng.randint(1, 5)
        b = rng.choice(base)
        d = rng.choice(dims)
        l = []
        for _ in range(n):
            bb = b if rng.random() < .9 else rng.choice(base)
            dd = d if rng.random() < .6 else rng.choice(dims)
            l.append('DataShape(%s, %s)' % (dd, bb) if rng.random() < .95 else
                     rng.choice(['int32', 'DataShape(int32)', 'Record([("a", int32)])']))
        yield ('[%s]' % ', '.join(l),)
    for n in (12, 40, 150):
        for a in ('Fixed(2), int32', 'var, string', 'Fixed(0), Fixed(2), int32'):
            for b in ('Fixed(3), int32', 'var, int32', 'Fixed(2), string', 'var, Fixed(2), int32'):
                for l in ([a] * n + [b], [b] + [a] * n):
                    yield ('[%s]' % ', '.join('DataShape(%s)' % x for x in l),)


@check('C10', c10_dims)
def merged_dimensions(ts):
    before = snap(ts)
    exc, r = raises(discovery.unite_merge_dimensions, ts)
    if snap(ts) != before:
        return 'changes the types'
    if exc is not None:
        return 'raised %r' % exc
    P = [norm_ds(t) for t in ts]
    ok = all(len(p) > 1 and isinstance(p[0], (Fixed, Var, Ellipsis)) for p in P) and \
        all(type(t) is DataShape for t in ts) and \
        all(len(p) == len(P[0]) and all(nat_eq(x, y) for x, y in zip(p[1:], P[0][1:])) for p in P)
    if not ok:
        if r:
            return 'gives %s' % describe(r)
        return
    d = P[0][0] if all(nat_eq(p[0], P[0][0]) for p in P) else ct.var
    want = DataShape(Fixed(len(ts)), d, *P[0][1:])
    if not nat_eq(r, want):
        return 'gives %s, not %s' % (describe(r), describe(want))


@check('C10', c10_dims)
def identical(ts):
    r = discovery.unite_identical(ts)
    if all(nat_eq(t, ts[0]) for t in ts):
        if not nat_eq(r, DataShape(Fixed(len(ts)), *norm_ds(ts[0]))):
            return 'gives %s' % describe(r)
    elif r:
        return 'gives %s' % describe(r)


HASH_SCRIPT = r'''
import sys, json, itertools, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, %r)
from native import gen
from datashape import discovery
K = json.loads(%r)
out = []
for n in (1, 2, 3):
    for c in itertools.combinations(K, n):
        for p in itertools.permutations(c):
            l = [gen.build(x) for x in p]
            for f in (discovery.lowest_common_dshape, discovery.unite_base):
                try:
                    out.append(str(f(l)))
                except ValueError:
                    out.append('ValueError')
print(json.dumps(out))
'''


@check('C10', lambda rng, tier: [(str(rng.randint(1, 4000000)),) for _ in range(N(tier, 6, 60))])
def hash_order_independent(seed):
    top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                        HASH_SCRIPT % (top, json.dumps(KNOWN + ['int8']))],
                       env=env, capture_output=True, text=True, timeout=8)
    if p.returncode:
        return 'with hash seed %d: %s' % (seed, p.stderr[-300:])
    got = iter(json.loads(p.stdout))
    ks = KNOWN + ['int8']
    for n in (1, 2, 3):
        for c in itertools.combinations(ks, n):
            for q in itertools.permutations(c):
                l = [gen.build(x) for x in q]
                w = lub(l)
                a = next(got)
                if a != ('ValueError' if w is None else str(w)):
                    return 'with hash seed %d, %s gives %s' % (seed, q, a)
                b = next(got)
                try:
                    u = str(DataShape(Fixed(n), unite_model(l)))
                except NoUnion:
                    u = 'ValueError'
                if b != u:
                    return 'with hash seed %d, unite_base of %s gives %s' % (seed, q, b)


# ---------------------------------------------------------------------- C14
def children(x):
    """The datashapes directly inside a datashape, in order."""
    if type(x) is DataShape:
        return list(x._parameters)
    if type(x) is Record:
        return [t for _, t in x._parameters[0]]
    if type(x) is ct.Tuple:
        return list(x.dshapes)
    if type(x) is ct.Option:
        return [x.ty]
    if type(x) is ct.Map:
        return [x.key, x.value]
    if type(x) is ct.Function:
        return list(x._parameters)
    if type(x) is ct.Units:
        return [x.tp]
    if type(x) is ct.Categorical:
        return [x.type]
    if type(x) is Ellipsis:
        return [x.typevar] if isinstance(x.typevar, Mono) else []
    return []


def deep(x):
    yield x
    for c in children(x):
        yield from deep(c)


def bad_ellipsis(x):
    return any(type(y) is DataShape and
               (sum(type(d) is Ellipsis for d in y._parameters) > 1 or
                type(y._parameters[-1]) is Ellipsis) for y in deep(x))


C14_DIMS = ['Fixed(3)', 'var', 'TypeVar("N")', 'Ellipsis()', 'Ellipsis()', 'Ellipsis(TypeVar("A"))']


def c14(rng, tier):
    g = gen.Gen(rng, dims=C14_DIMS, kinds=('rec', 'tup', 'opt', 'map', 'fun', 'units'))
    bad = 'DataShape(Ellipsis(), Ellipsis(), int32)'
    bad2 = 'DataShape(Ellipsis(TypeVar("A")), Fixed(3), Ellipsis(), int32)'
    one = 'DataShape(Ellipsis(), Fixed(3), int32)'
    ctx = ['%s', 'Option(%s)', 'Record([("a", int32), ("b", %s)])', 'Record([("b", %s)])',
           'Tuple([int32, %s])', 'Tuple([%s])', 'Map(string, %s)', 'Map(%s, string)',
           'Function(DataShape(int32), %s)', 'Function(%s, DataShape(int32))',
           'DataShape(Fixed(3), Record([("x", %s)]))', 'DataShape(Ellipsis(), Tuple([%s]))',
           'Units("m", %s)', 'DataShape(Option(%s))', 'Categorical(["a"], type=Tuple([%s]))']
    for x in (bad, bad2, one):
        for c in ctx:
            e = c % x
            yield (e,)
            for c2 in ctx:
                yield (c2 % ('DataShape(%s)' % e if c2.startswith(('Fun', 'Units')) and not
                             e.startswith('DataShape') else e),)
    for e in large():
        yield (e,)
    for n in (3, 9, 24):
        for i in range(0, n, 1 + n // 8):
            for j in sorted({0, i, i + 1, n // 2, n - 1}):
                l = ['Fixed(2)'] * n
                l[i] = 'Ellipsis()'
                l[min(j, n - 1)] = 'Ellipsis(TypeVar("A"))'
                e = 'DataShape(%s, int32)' % ', '.join(l)
                for c in ctx[:9:2]:
                    yield (c % e,)
    for n in (9, 40):
        for i in (0, 1, n // 2, n - 1):
            for x in (bad, one):
                l = ['int32'] * n
                l[i] = x
                yield ('Tuple([%s])' % ', '.join(l),)
                yield ('Record([%s])' % ', '.join('("c%d", %s)' % t for t in enumerate(l)),)
                yield ('Function(%s, DataShape(int8))' % ', '.join(
                    t if t[0] == 'D' else 'DataShape(%s)' % t for t in l),)
    for x in (bad, one):
        for k in range(9):
            x = ctx[1 + k % 5] % x
            yield (x,)
    for _ in range(N(tier, 2500)):
        yield (g.any(rng.randint(1, 4)),)


@check('C14', c14)
def component_lists(x):
    p = norm_ds(x)
    bad = bad_ellipsis(x)
    for how, arg in (('a list', list(p)), ('a tuple', tuple(p)), ('itself', x)):
        if how == 'itself' and type(x) is DataShape:
            continue
        exc, r = raises(datashape.dshape, arg)
        if bad:
            if exc is None:
                return 'accepted as %s' % how
            if not isinstance(exc, TypeError):
                return 'as %s raised %r' % (how, exc)
        elif exc is not None:
            return 'as %s raised %r' % (how, exc)
        elif type(r) is not DataShape and how != 'itself' or not nat_eq(r, x) or not nat_eq(r, DataShape(*p)):
            return 'as %s became %s' % (how, describe(r))


@check('C14', c14)
def validation(x):
    exc, r = raises(datashape.validation.validate, x)
    if (exc is None) is bad_ellipsis(x):
        return 'validate gives %r' % (exc or r,)
    if exc is not None and not isinstance(exc, TypeError):
        return 'validate raised %r' % exc


def c14_text(rng, tier):
    dims = ['3', 'var', 'N', '...', 'A...', '...']
    def ds(d):
        k = rng.choice([0, 0, 1, 1, 2, 3])
        return ' * '.join([rng.choice(dims) for _ in range(k)] + [m(d)])
    def m(d):
        k = rng.choice(['leaf', 'leaf', 'rec', 'tup', 'opt', 'map', 'fun', 'ell']) if d else 'leaf'
        if k == 'leaf':
            return rng.choice(['int32', 'string', 'T'])
        if k == 'rec':
            return '{' + ', '.join('%s: %s' % (n, ds(d - 1)) for n in 'abc'[:rng.randint(0, 3)]) + '}'
        if k == 'tup':
            return '(%s)' % ', '.join(ds(d - 1) for _ in range(rng.randint(0, 3)))
        if k == 'opt':
            return '?' + ds(d - 1).lstrip('?')
        if k == 'map':
            return 'map[%s, %s]' % (ds(d - 1), ds(d - 1))
        if k == 'ell':
            return rng.choice(['...', 'A...', 'ellipsis']) if rng.random() < .3 else 'int8'
        return '(%s) -> %s' % (', '.join(ds(d - 1) for _ in range(rng.randint(0, 2))), ds(d - 1))
    for _ in range(N(tier, 2500)):
        yield (repr(ds(rng.randint(1, 4))),)
    for s in ('... * ... * int32', '...', 'A...', '3 * ...', '... * A... * int32', '... * int32',
              '{a: ... * ... * int32}', '{a: ...}', '?... * ... * int32', '(...)', '(... * int32) -> ...',
              'map[string, ... * ... * int8]', 'units["m", ... * A... * int8]', 'ellipsis',
              'option[... * ... * int8]', '3 * {a: ... * int8, b: ... * int8}',
              '... * ?... * int32', '... * {a: ... * ... * int32}', 'ellipsis * ellipsis * int8'):
        yield (repr(s),)


def text_bad(s):
    """More than one ellipsis in a run of dimensions, or one as a measure."""
    import re
    i = 0
    depth = [0]
    toks = re.findall(r'\.\.\.|ellipsis|->|[A-Za-z0-9"_]+|[^\s]', s)
    for k, t in enumerate(toks):
        nxt = toks[k + 1] if k + 1 < len(toks) else ''
        if t in '({[':
            depth.append(0)
        elif t in ')}]':
            depth.pop()
        elif t in (',', ':', '->', '?'):
            depth[-1] = 0
        elif t in ('...', 'ellipsis'):
            if nxt != '*':
                return True
            depth[-1] += 1
            if depth[-1] > 1:
                return True
    return False


@check('C14', c14_text)
def text(s):
    bad = text_bad(s)
    exc, r = raises(datashape.dshape, s)
    if bad and exc is None:
        return 'accepted'
    if exc is None and bad_ellipsis(r):
        return 'gives %s' % describe(r)
    if not bad and exc is not None:
        return 'raised %r' % (exc,)


# ---------------------------------------------------------------------- C15
SCALAR = (ct.Null, ct.Date, ct.Time, ct.DateTime, ct.TimeDelta, ct.Units, ct.Bytes, ct.String,
          ct.Decimal, ct.CType, ct.JSON, ct.TypeVar, ct.Categorical, typesets.TypeSet)


def core(x):
    """Behind a dimensionless wrapper and an option."""
    x = unwrap(x)
    return x.ty if type(x) is Option else x


def core_measure(x):
    m = norm_ds(x)[-1]
    return m.ty if type(m) is Option else m


def dimensional(x):
    return type(x) is DataShape and len(norm_ds(x)) > 1


def fixed_model(x):
    p = norm_ds(x)
    if any(type(d) is not Fixed for d in p[:-1]):
        return False
    m = p[-1]
    if type(m) is Option:
        return fixed_model(m.ty)
    if type(m) is Record:
        return all(fixed_model(t) for _, t in m._parameters[0])
    if type(m) is ct.Tuple:
        return all(fixed_model(t) for t in m.dshapes)
    return not isinstance(m, (TypeVar, Var, Ellipsis))


UNSURE = object()


def model_isnumeric(x):
    m = core_measure(x)
    if type(m) in (ct.Decimal, ct.TimeDelta) or type(m) is typesets.TypeSet:
        return UNSURE
    return type(m) is ct.CType and m.name in FAMILY and m.name != 'bool'


PRED = {
    'isscalar': lambda x: UNSURE if type(x) in (Fixed, Var, Ellipsis) or
    type(core(x)) is ct.JSON else isinstance(core(x), SCALAR),
    'isrecord': lambda x: type(core(x)) is Record,
    'istabular': lambda x: len(norm_ds(x)) == 2 and type(x) is DataShape and
    type(core_measure(x)) is Record,
    'iscollection': lambda x: UNSURE if type(norm_ds(x)[0]) is TypeVar else
    type(norm_ds(x)[0]) in (Fixed, Var, Ellipsis),
    'isnumeric': model_isnumeric,
    'isreal': lambda x: type(core_measure(x)) is ct.CType and
    core_measure(x).name in ('float16', 'float32', 'float64'),
    'isboolean': lambda x: type(core_measure(x)) is ct.CType and core_measure(x).name == 'bool',
    'isdatelike': lambda x: UNSURE if type(core_measure(x)) is ct.DateTime and
    core_measure(x).tz is not None else type(core_measure(x)) in (ct.Date, ct.DateTime),
    'isdimension': lambda x: type(x) in (Fixed, Var, Ellipsis),
}


def c15(rng, tier):
    g = gen.Gen(rng)
    opts = ['Option(%s)' % x for x in gen.LEAVES]
    extra = opts + ['DataShape(%s)' % o for o in opts] + ['DataShape(Fixed(3), %s)' % o for o in opts]
    recs = ['Record([("a", %s)])' % x for x in ('int32', 'DataShape(var, int32)', 'TypeVar("T")',
                                                'DataShape(TypeVar("N"), int32)',
                                                'Option(DataShape(var, int32))')]
    extra += ['DataShape(var, Option(%s))' % r for r in recs] + ['Option(%s)' % r for r in recs] + \
        ['DataShape(%s)' % r for r in recs] + ['DataShape(Fixed(3), Fixed(2), %s)' % r for r in recs] + \
        ['DataShape(Fixed(2), Tuple([int32, %s]))' % r for r in recs]
    for e in itertools.chain(gen.small(), extra, large()):
        yield (e,)
    for _ in range(N(tier, 2000)):
        yield (g.any(rng.randint(1, 3)),)


@check('C15', c15)
def structural_predicates(x):
    if bad_ellipsis(x):
        raise Skip
    before = snap(x)
    dimlike = type(x) in (Fixed, Var, Ellipsis)
    for name, f in PRED.items():
        if dimlike and name != 'isdimension':
            continue
        exc, r = raises(getattr(predicates, name), x)
        if exc is not None:
            return '%s raised %r' % (name, exc)
        want = f(x)
        if want is UNSURE:
            continue
        if bool(r) is not want or not isinstance(r, (bool, np.bool_)):
            return '%s is %r' % (name, r)
    if not dimlike:
        exc, r = raises(predicates.isfixed, x)
        if exc is not None:
            return 'isfixed raised %r' % exc
        f = fixed_model(x)
        if r and not f:
            return 'isfixed is %r' % r
        if f and not r:
            return 'isfixed is %r' % r
        if type(norm_ds(x)[0]) in (Var, Ellipsis) and r is not False:
            return 'isfixed is %r' % r
    if snap(x) != before:
        return 'changes the datashape'


C15_TEXT = ['int32', '?int32', 'var * {name: string, amount: int}', '{a: int32}', '?{a: int32}',
            '3 * 4 * float64', '3 * ?real', 'var * (int64, string)', '10 * var * int', 'datetime',
            '3 * datetime', '?date', 'bool', '?bool', '3 * bool', 'var * ?{a: int32}', '... * int32',
            'N * int32', 'T', '(int32) -> int32', 'map[string, int32]', 'categorical[["a"], type=string]',
            'json', 'time', 'timedelta', 'decimal[5]', 'string[5]', '10 * {a: var * int}', '()', '{}',
            '3 * {a: 3 * int32, b: {c: var * int8}}', 'bytes', 'null', '?3 * int32', '5 * (int8, 3 * int8)']


@check('C15', lambda rng, tier: [(repr(s),) for s in C15_TEXT])
def strings(s):
    ds = datashape.dshape(s)
    for name in list(PRED) + ['isfixed', 'ishomogeneous']:
        if name == 'isdimension':
            continue
        f = getattr(predicates, name)
        (e1, a), (e2, b) = raises(f, s), raises(f, ds)
        if e1 is not None or e2 is not None:
            return '%s raised %r' % (name, e1 or e2)
        if a is not b and (bool(a) is not bool(b) or (a is None) is not (b is None)):
            return '%s: %r from the string, %r from the datashape' % (name, a, b)
        if name in PRED:
            w = PRED[name](ds)
            if w is not UNSURE and bool(a) is not w:
                return '%s is %r' % (name, a)


@check('C15', lambda rng, tier: [('3',), ('0',), ('-1',), ('"3"',), ('None',), ('1.5',), ('[]',)])
def not_datashapes(x):
    if predicates.isdimension(x) is not isinstance(x, int):
        return 'isdimension is wrong'


# ---------------------------------------------------------------------- C16
C16_PREDS = {
    'unit': lambda t: isinstance(t, ct.Unit),
    'var': lambda t: isinstance(t, Var),
    'ellipsis': lambda t: isinstance(t, Ellipsis),
    'record': lambda t: isinstance(t, Record),
    'ds': lambda t: isinstance(t, DataShape),
    'never': lambda t: False,
    'always': lambda t: True,
    'mono': lambda t: isinstance(t, Mono),
    'option': lambda t: isinstance(t, (Option, ct.Tuple)),
    'int32': lambda t: isinstance(t, ct.CType) and t.name == 'int32',
    'wide': lambda t: isinstance(t, ct.CType) and t.name.endswith('64'),
}


def outermost(pred, x):
    if pred(x):
        return [x]
    return [z for c in children(x) for z in outermost(pred, c)]


@check('C16', singles(quick=2500, depth=4))
def searches(x):
    before = snap(x)
    every = list(deep(x))
    want_v = any(isinstance(y, (Var, Ellipsis)) for y in every)
    want_e = any(isinstance(y, Ellipsis) for y in every)
    for name, f, want in (('has_var_dim', util.has_var_dim, want_v),
                          ('has_ellipsis', util.has_ellipsis, want_e)):
        r = f(x)
        if r is not want:
            return '%s is %r' % (name, r)
        if f([ct.int32, x]) is not want or f((x,)) is not want or f([]) is not False:
            return '%s of a sequence' % name
    for name, p in C16_PREDS.items():
        exc, got = raises(lambda: list(util.collect(p, x)))
        if exc is not None:
            return 'collect(%s) raised %r' % (name, exc)
        got = [t for t in got if isinstance(t, Mono)] if name == 'always' else got
        want = outermost(p, x)
        if len(got) != len(want) or not all(a is b for a, b in zip(got, want)):
            return 'collect(%s) gives %s' % (name, describe(got))
        got = list(util.collect(p, [x, (ct.int8, x)]))
        if name in ('always', 'never'):
            continue
        w = want + outermost(p, ct.int8) + want
        if len(got) != len(w) or not all(a is b for a, b in zip(got, w)):
            return 'collect(%s) of a list gives %s' % (name, describe(got))
    if snap(x) != before:
        return 'changes the datashape'


def scalars(x):
    """The scalar components, dimensions aside."""
    if type(x) in (Fixed, Var, Ellipsis):
        return []
    if isinstance(core(x), SCALAR) and not (type(x) is DataShape and len(norm_ds(x)) > 1):
        return [x]
    return [z for c in children(x) for z in scalars(c)]


@check('C16', chain(singles(quick=1500, depth=2, leaves=['int32', 'string', 'int64', 'Option(int32)',
                                                         'DataShape(int32)', 'TypeVar("T")']),
                    singles(quick=1000, depth=3, leaves=['int32'],
                            dims=['Fixed(3)', 'var', 'Ellipsis()'],
                            kinds=('rec', 'tup', 'map', 'fun'))))
def homogeneous(x):
    if type(x) in (Fixed, Var, Ellipsis) or bad_ellipsis(x) or \
            any(type(y) is ct.JSON for y in deep(x)):
        raise Skip
    s = [unwrap(t) for t in scalars(x)]
    want = bool(s) and all(nat_eq(t, s[0]) for t in s)
    exc, r = raises(predicates.ishomogeneous, x)
    if exc is not None:
        return 'raised %r' % exc
    if bool(r) is not want:
        return 'is %r' % r


# ---------------------------------------------------------------------- C17
OPTS = ('check_dim', 'check_tz', 'check_timedelta_unit', 'check_str_encoding', 'check_str_fixlen',
        'check_record_order')


def equal_mod(a, b, off):
    """Equal, except for what is off."""
    if isinstance(a, Mono) != isinstance(b, Mono):
        return False
    if not isinstance(a, Mono):
        return type(a) is type(b) and a == b
    if type(a) is DataShape or type(b) is DataShape:
        if type(a) is not type(b):
            # only defined for the same kind of wrapper
            if off:
                raise Skip
            p, q = norm_ds(a), norm_ds(b)
        else:
            p, q = norm_ds(a), norm_ds(b)
        if 'check_dim' not in off:
            if len(p) != len(q) or not all(nat_eq(x, y) for x, y in zip(p[:-1], q[:-1])):
                return False
        return equal_mod(p[-1], q[-1], off)
    if type(a) is not type(b):
        return False
    if type(a) in (ct.Time, ct.DateTime):
        return 'check_tz' in off or a.tz == b.tz
    if type(a) is ct.TimeDelta:
        return 'check_timedelta_unit' in off or a.unit == b.unit
    if type(a) is ct.String:
        return ('check_str_encoding' in off or a.encoding == b.encoding) and \
            ('check_str_fixlen' in off or a.fixlen == b.fixlen)
    if type(a) is ct.Units:
        return a.unit == b.unit and equal_mod(a.tp, b.tp, off)
    if type(a) is ct.Option:
        return equal_mod(a.ty, b.ty, off)
    if type(a) is ct.Map:
        return equal_mod(a.key, b.key, off) and equal_mod(a.value, b.value, off)
    if type(a) is ct.Categorical:
        return a.categories == b.categories and a.ordered == b.ordered and \
            equal_mod(a.type, b.type, off)
    if type(a) in (ct.Tuple, ct.Function):
        p, q = children(a), children(b)
        return len(p) == len(q) and all(equal_mod(x, y, off) for x, y in zip(p, q))
    if type(a) is Record:
        p, q = list(a._parameters[0]), list(b._parameters[0])
        if 'check_record_order' in off:
            p.sort(key=lambda kv: kv[0])
            q.sort(key=lambda kv: kv[0])
        return [n for n, _ in p] == [n for n, _ in q] and \
            all(equal_mod(x, y, off) for (_, x), (_, y) in zip(p, q))
    return nat_eq(a, b)


C17_CTX = ['%s', 'DataShape(%s)', 'Option(%s)', 'DataShape(Fixed(3), %s)', 'Record([("a", %s), ("b", int8)])',
           'Record([("x", int8), ("a", Record([("q", %s)]))])', 'Tuple([%s])', 'Tuple([int8, %s])',
           'Map(string, %s)', 'Map(%s, int8)', 'Function(DataShape(%s), DataShape(int8))',
           'Function(DataShape(int8), DataShape(%s))', 'Function(DataShape(int8), DataShape(%s), DataShape(int16))',
           'Units("m", DataShape(%s))', 'DataShape(var, Record([("a", Tuple([%s]))]))',
           'DataShape(var, Fixed(3), Option(%s))', 'Categorical(["a"], type=%s)',
           'Record([("a", DataShape(Fixed(2), Option(%s)))])', 'Tuple([Map(string, %s)])',
           'Option(Tuple([%s]))', 'Units("m", DataShape(Record([("z", %s)])))',
           'Map(string, Record([("z", DataShape(var, %s))]))']
C17_DIFF = {
    'check_dim': [('DataShape(Fixed(3), int32)', 'DataShape(Fixed(4), int32)'),
                  ('DataShape(Fixed(3), int32)', 'DataShape(Fixed(3), Fixed(4), int32)'),
                  ('DataShape(var, int32)', 'DataShape(Fixed(4), int32)'),
                  ('DataShape(TypeVar("N"), var, int32)', 'DataShape(TypeVar("M"), var, int32)')],
    'check_tz': [('Time("UTC")', 'Time("America/New_York")'), ('DateTime("UTC")', 'datetime_'),
                 ('time_', 'Time("UTC")')],
    'check_timedelta_unit': [('TimeDelta("s")', 'TimeDelta("us")')],
    'check_str_encoding': [('String(5)', 'String(5, "A")'), ('string', 'String("U16")')],
    'check_str_fixlen': [('String(5)', 'String(6)'), ('string', 'String(5)'),
                         ('String(3, "A")', 'String("A")')],
    'check_record_order': [('Record([("a", int8), ("b", int16)])', 'Record([("b", int16), ("a", int8)])'),
                           ('Record([("a", int8), ("b", int16), ("c", string)])',
                            'Record([("c", string), ("b", int16), ("a", int8)])')] + [
        ('Record([%s])' % ', '.join(l), 'Record([%s])' % ', '.join(l[::-1])) for l in (
            ['("a", int8)', '("A", int16)'], ['("x10", int8)', '("x9", int8)', '("x", string)'],
            ['("", int8)', '(" ", int8)', '("_", int8)'], ['("\\xe9", int8)', '("e\\u0301", int16)'],
            ['("ss", int8)', '("\\xdf", int16)', '("SS", int32)'],
            ['("f%d", %s)' % (i, ('int8', 'string', 'Option(int16)')[i % 3]) for i in range(40)])],
}
C17_REAL = [('int32', 'int64'), ('int32', 'string'), ('Option(int32)', 'int32'),
            ('Record([("a", int8)])', 'Record([("b", int8)])'),
            ('Record([("a", int8)])', 'Record([("A", int8)])'),
            ('Record([("a", int8), ("A", int16)])', 'Record([("a", int16), ("A", int8)])'),
            ('Record([("a", int8)])', 'Record([("a", int8), ("b", int8)])'),
            ('Record([("a", int8), ("b", int16)])', 'Record([("a", int16), ("b", int8)])'),
            ('Tuple([int8])', 'Tuple([int8, int8])'), ('Time("UTC")', 'DateTime("UTC")'),
            ('date_', 'datetime_'), ('Decimal(5)', 'Decimal(5, 1)'), ('Decimal(5)', 'Decimal(6)'),
            ('Units("m")', 'Units("s")'), ('Units("m", DataShape(int8))', 'Units("m", DataShape(int16))'),
            ('Categorical(["a"], type=string)', 'Categorical(["b"], type=string)'),
            ('Categorical(["a"], type=string)', 'Categorical(["a"], type=string, ordered=True)'),
            ('Map(int8, int8)', 'Map(int8, int16)'), ('Map(int8, int8)', 'Map(int16, int8)'),
            ('Function(DataShape(int8), DataShape(int8))', 'Function(DataShape(int8))'),
            ('Function(DataShape(int8), DataShape(int8))', 'Function(DataShape(int8), DataShape(int16))'),
            ('Function(DataShape(int8), DataShape(int8))', 'Function(DataShape(int16), DataShape(int8))'),
            ('TypeVar("A")', 'TypeVar("B")'), ('null', 'json'), ('bytes_', 'string'), ('char', 'string'),
            ('Record([])', 'Tuple([])'), ('TypeVar("A")', 'int32'), ('time_', 'date_')]


def c17(rng, tier):
    for e in gen.small():
        yield (e, e, '()')
    for o, l in C17_DIFF.items():
        for a, b in l:
            for c in C17_CTX:
                yield (c % a, c % b, '()')
                yield (c % b, c % a, '(%r,)' % o)
                for o2 in OPTS:
                    if o2 != o:
                        yield (c % a, c % b, '(%r,)' % o2)
                yield (c % a, c % b, repr(OPTS[1:]))
                ra, rb = rng.choice(C17_REAL)
                yield ('Tuple([%s, %s])' % (c % a, ra), 'Tuple([%s, %s])' % (c % b, rb), '(%r,)' % o)
                yield ('Record([("p", %s), ("q", %s)])' % (ra, c % a),
                       'Record([("p", %s), ("q", %s)])' % (rb, c % b), '(%r,)' % o)
    for a, b in C17_REAL:
        for c in C17_CTX:
            yield (c % a, c % b, '()')
            yield (c % b, c % a, '(%r,)' % rng.choice(OPTS))
    for p in pairs(quick=3000, depth=3)(rng, tier):
        off = tuple(o for o in OPTS if rng.random() < .15)
        yield p + (repr(off),)


@check('C17', c17)
def assertion(a, b, off):
    if type(a) in (Fixed, Var, Ellipsis) or type(b) in (Fixed, Var, Ellipsis):
        raise Skip
    want = equal_mod(a, b, off)
    if not off and want is not nat_eq(a, b):
        raise RuntimeError('model')
    sa, sb = snap(a), snap(b)
    exc, r = raises(assert_dshape_equal, a, b, **{o: False for o in off})
    if (snap(a), snap(b)) != (sa, sb):
        return 'changes an argument'
    if want:
        if exc is not None:
            return 'raised %r' % exc
    elif exc is None:
        return 'passes'
    elif not isinstance(exc, AssertionError):
        return 'raised %r' % exc


# ---------------------------------------------------------------------- C20
def c20(rng, tier):
    yield ('[]',)
    g = gen.Gen(rng)
    lead = ['Fixed(0)', 'Fixed(1)', 'Fixed(3)', 'Fixed(5)', 'Fixed(10)', 'Fixed(2**70)']
    for e in gen.small():
        yield ('[%s]' % e,)
        if e.startswith('DataShape('):
            yield ('[%s, %s]' % (e, e),)
    for n in (9, 60, 300):
        l = ['DataShape(Fixed(%d), Fixed(2), int32)' % (i % 5) for i in range(n)]
        yield ('[%s]' % ', '.join(l),)
        for i in (0, 1, n // 2, n - 1):
            for x in ('DataShape(Fixed(1), Fixed(3), int32)', 'DataShape(Fixed(1), Fixed(2), int64)',
                      'DataShape(var, Fixed(2), int32)', 'DataShape(Fixed(7), Fixed(2), int32)',
                      'DataShape(Fixed(1), Fixed(2), Fixed(2), int32)', 'DataShape(Fixed(1), int32)'):
                yield ('[%s]' % ', '.join(l[:i] + [x] + l[i + 1:]),)
    for n in (9, 30):
        for i in (None, 0, n // 2, n - 1):
            l = ['Fixed(%d)' % (k + 2) for k in range(n)]
            m = ['Fixed(1)'] + l if i is None else ['Fixed(1)'] + l[:i] + ['Fixed(1)'] + l[i + 1:]
            yield ('[DataShape(Fixed(4), %s, int32), DataShape(%s, int32)]' % (', '.join(l), ', '.join(m)),)
    for _ in range(N(tier, 3000)):
        n = rng.randint(1, 5)
        tail = ', '.join([g.dim() for _ in range(rng.choice([0, 0, 1, 2]))] + [g.measure(2)])
        l = []
        for _ in range(n):
            t = tail if rng.random() < .93 else g.mutate(tail)
            d = rng.choice(lead) if rng.random() < .95 else rng.choice(gen.DIMS)
            l.append('DataShape(%s, %s)' % (d, t))
        yield ('[%s]' % ', '.join(l),)


@check('C20', c20)
def concatenation(l):
    before = snap(l)
    exc, r = raises(util.cat_dshapes, l)
    if snap(l) != before:
        return 'changes its input'
    if not l:
        if not isinstance(exc, ValueError):
            return 'of nothing gives %s' % describe(exc or r)
        return
    if len(l) == 1:
        if exc is not None or r is not l[0]:
            return 'of one gives %s' % describe(exc or r)
        return
    P = [norm_ds(x) for x in l]
    unknown = any(type(p[0]) is not Fixed for p in P)
    differ = any(len(p) != len(P[0]) or not all(nat_eq(x, y) for x, y in zip(p[1:], P[0][1:]))
                 for p in P)
    if unknown or differ:
        kinds = ((TypeError,) if unknown else ()) + ((ValueError,) if differ else ())
        if not isinstance(exc, kinds):
            return 'gives %s' % describe(exc or r)
        return
    if exc is not None:
        return 'raised %r' % exc
    want = DataShape(Fixed(sum(p[0].val for p in P)), *P[0][1:])
    if not nat_eq(r, want) or type(r) is not DataShape:
        return 'gives %s' % describe(r)
