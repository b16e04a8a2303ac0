"""C01-C06, C22, C23: the type system itself."""
import copy
import operator
import pickle
import random

import numpy as np

from . import gen
from .fw import check, raises, snap, describe, Skip, N, singles, pairs, from_list, chain, each_small, large
from .same import nat_eq, norm_ds, raw_params
import datashape
from datashape import coretypes as ct, typesets
from datashape.coretypes import *        # noqa
from datashape.coretypes import DataShape, Fixed, Var, TypeVar, Ellipsis, Record, Mono

TYPESETS = ['boolean', 'floating', 'integral', 'signed', 'unsigned', 'numeric', 'complexes',
            'TypeSet(int32, int64)', 'TypeSet(int64, int32)', 'TypeSet()', 'TypeSet(float32)']


def same(a, b):
    """The same datashape, by structure."""
    return nat_eq(a, b)


# ---------------------------------------------------------------------- C01
def c01_pairs(rng, tier):
    # values whose hashes are the same
    for a, b in (('Fixed(0)', 'Fixed(2**61 - 1)'), ('Categorical([-1])', 'Categorical([-2])'),
                 ('Categorical([0])', 'Categorical([2**61 - 1])'), ('Fixed(1)', 'Fixed(2**61)'),
                 ('Categorical([1.5])', 'Categorical([hash(1.5)])'),
                 ('Categorical([""], type=int64)', 'Categorical([0], type=int64)'),
                 ('Categorical([-1, 3], type=int64)', 'Categorical([-2, 3], type=int64)')):
        for c in ('%s',) if 'Fixed' in a else ('%s', 'Record([("a", %s)])', 'DataShape(var, %s)'):
            yield (c % a, c % b)
        if 'Fixed' in a:
            yield ('DataShape(%s, int32)' % a, 'DataShape(%s, int32)' % b)
            yield ('DataShape(var, %s, int32)' % a, 'DataShape(var, %s, int32)' % b)
    yield from pairs(quick=7000)(rng, tier)
    s = TYPESETS + ['int32', 'Fixed(1)', 'DataShape(int32)', 'Fixed(3)', 'Option(int32)']
    for a in s:
        for b in s:
            yield (a, b)


@check('C01', c01_pairs)
def equality_of_two(a, b):
    want = nat_eq(a, b)
    got = a == b
    if type(got) is not bool:
        return '== returned %r' % (got,)
    if got != want:
        return '== is %r, but the structures are %s' % (got, 'equal' if want else 'different')
    if (b == a) is not want:
        return '== is not symmetric'
    if (a != b) is not (not want) or (b != a) is not (not want):
        return '!= is not the negation of =='
    for x in (a, b):
        raises(hash, x)
        if (a == b) is not want or (b == a) is not want or (a != b) is want:
            return 'once hashed, == is %r' % (not want)
    if want and hash(a) != hash(b):
        return 'equal objects have different hashes'
    if not want and raises(lambda: len({a, b}))[1] == 1:
        return 'different objects are one key'
    if want and (len({a, b}) != 1 or a not in {b: 1}):
        return 'equal objects are different keys'


@check('C01', singles(quick=1500, depth=3))
def reflexive(a):
    if not (a == a) or a != a:
        return 'not equal to itself'
    h = hash(a)
    if hash(a) != h:
        return 'hash changes'
    s = snap(a)
    hash(a), a == 3, a == a
    if snap(a) != s:
        return 'comparing or hashing changes the object'


@check('C01', lambda rng, tier: ((e, e) for e in gen.small() + TYPESETS))
def hash_order(a, b):
    """One is hashed before the comparison, the other after it."""
    h = hash(a)
    if not a == b:
        return 'rebuilt object is not equal'
    if hash(b) != h:
        return 'hash depends on when it is computed'
    c = pickle.loads(pickle.dumps(b))
    if hash(c) != h:
        return 'hash of the restored object differs'


def c01_wraps(rng, tier):
    g = gen.Gen(rng)
    more = [g.measure(2) for _ in range(N(tier, 300))]
    for e in gen.small() + more:
        if not e.startswith(('DataShape(', 'Fixed(', 'Ellipsis(', 'var')):
            yield (e, 'DataShape(%s)' % e)
            yield (e, 'DataShape(DataShape(%s))' % e)


@check('C01', c01_wraps)
def wrapper_equal(a, w):
    if not (a == w and w == a) or a != w or w != a:
        return 'a measure and its dimensionless datashape differ'
    if hash(a) != hash(w):
        return 'a measure and its dimensionless datashape have different hashes'


OTHERS = ['None', '0', '3', '-1', 'True', '1.0', '3.0', '"int32"', '"3"', '()', '(3,)', '[]', '{}',
          'object()', 'int', 'type', 'Record', 'b"a"', 'nan', 'frozenset()', 'len', '1j',
          'Fixed', 'DataShape', '10', '5', '2**70']


@check('C01', lambda rng, tier: ((e, o) for e in gen.small() for o in OTHERS))
def other_objects(a, x):
    want = nat_eq(a, x)
    for got in (a == x, x == a):
        if got is not want:
            return '== with %r is %r' % (x, got)
    for got in (a != x, x != a):
        if got is not (not want):
            return '!= with %r is %r' % (x, got)
    if want and hash(a) != hash(x):
        return 'equal to %r but the hashes differ' % (x,)


def c01_triples(rng, tier):
    g = gen.Gen(rng)
    pool = ['3', 'Fixed(3)', 'True', 'Fixed(1)', '1', 'int32', 'DataShape(int32)',
            'DataShape(Fixed(3), int32)', '3 * int32', 'int_']
    pool = [p for p in pool if p != 'int_']
    for a in pool:
        for b in pool:
            for c in pool:
                yield (a, b, c)
    for _ in range(N(tier, 800)):
        e = g.any(2)
        yield (e, g.mutate(e) if rng.random() < .5 else e, g.mutate(e) if rng.random() < .5 else e)


@check('C01', c01_triples)
def transitive(a, b, c):
    if a == b and b == c and not a == c:
        return 'not transitive'


# ---------------------------------------------------------------------- C02
def check_copy(a, b, how):
    if type(b) is not type(a):
        return '%s gives a %s' % (how, type(b).__name__)
    p, q = raw_params(a), raw_params(b)
    if len(p) != len(q) or not all(nat_eq(x, y) or snap(x) == snap(y) for x, y in zip(p, q)):
        return '%s changes the parameters to %s' % (how, describe(q))
    if not (a == b and b == a) or a != b or hash(a) != hash(b):
        return '%s gives an object that is not equal' % how
    if [type(x) for x in a.parameters] != [type(x) for x in b.parameters]:
        return '%s changes the types of the parameters' % how
    if str(a) != str(b) or repr(a) != repr(b):
        return '%s prints differently: %s' % (how, describe(b))
    if a.shape != b.shape or a.measure != b.measure or len(a) != len(b):
        return '%s changes shape or measure' % how


def c02_cases(rng, tier):
    yield from singles(quick=1000, depth=3)(rng, tier)
    for e in TYPESETS + ['Fixed(2**70)', 'Ellipsis()', 'Var()' if False else 'var']:
        yield (e,)


@check('C02', c02_cases)
def pickled(a):
    before = snap(a)
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        b = pickle.loads(pickle.dumps(a, proto))
        m = check_copy(a, b, 'pickling with protocol %d' % proto)
        if m:
            return m
    hash(a)
    b = pickle.loads(pickle.dumps(a))
    m = check_copy(a, b, 'pickling after hashing')
    if m:
        return m
    if snap(a) != before:
        return 'pickling changes the object'


@check('C02', c02_cases)
def copied(a):
    for how, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy)):
        m = check_copy(a, f(a), how)
        if m:
            return m
    b = copy.copy(a)
    m = check_copy(b, pickle.loads(pickle.dumps(b)), 'pickling a copy')
    if m:
        return m


@check('C02', c02_cases)
def state_restored(a):
    s = a.__getstate__()
    b = type(a).__new__(type(a))
    b.__setstate__(s)
    return check_copy(a, b, 'restoring the state')


@check('C02', c02_cases)
def rebuilt(a):
    if isinstance(a, (ct.CType, typesets.TypeSet)):
        raise Skip
    b = type(a)(*a.parameters)
    return check_copy(a, b, 'rebuilding from the parameters')


# ---------------------------------------------------------------------- C03
ANY = ['0', '1', '3', 'True', 'False', '-1', '-5', '2**40', 'None', '1.5', '2.0', '()', '[]', '{}',
       'object()', 'int', 'np.int64(4)', 'np.float64(1)', 'b"x"', '[int32]', '(3, int32)',
       'Record', 'Fixed', 'datetime.date(2000, 1, 1)', '1j']


def is_dim(x):
    return type(x) in (Fixed, Var, Ellipsis, TypeVar)


def is_wrap(x):
    return type(x) is DataShape and len(x._parameters) == 1


def comp(x):
    """The canonical form of a component, or None."""
    if isinstance(x, (int, np.integer)) and (isinstance(x, int) or isinstance(x, ct._inttypes)):
        return Fixed(int(x)) if x >= 0 else None
    if isinstance(x, Mono):
        return x._parameters[0] if is_wrap(x) else x
    return None


def measure_like(c):
    return isinstance(c, Mono) and type(c) not in (Fixed, Var, Ellipsis)


def dim_like(c):
    return is_dim(c)


def c03_ds(rng, tier):
    g = gen.Gen(rng)
    small = gen.small()
    for a in ANY + small:
        yield ('(%s,)' % a,)
    yield ('()',)
    for a in ANY + gen.DIMS + small[::9]:
        for b in ANY[:8] + gen.DIMS[:8] + small[::11]:
            yield ('(%s, %s)' % (a, b),)
    for n in (9, 17, 40):
        for i in (0, 1, n // 2, n - 2, n - 1):
            for x in ('int32', 'None', '-1', '2**70', 'DataShape(int32)', 'var', 'Option(int32)', '1.5', 'Ellipsis()',
                      'TypeVar("N")', 'True', '1.0'):
                l = ['Fixed(%d)' % k for k in range(n - 1)] + ['float64']
                l[i] = x
                yield ('(%s,)' % ', '.join(l),)
    for _ in range(N(tier, 3000)):
        n = rng.randint(1, 5)
        items = []
        for i in range(n):
            r = rng.random()
            if i < n - 1:
                items.append(g.dim() if r < .7 else str(rng.choice([0, 1, 2, 7])) if r < .85 else
                             rng.choice(ANY) if r < .92 else g.any(1))
            else:
                items.append(g.any(2) if r < .85 else rng.choice(ANY) if r < .93 else g.dim())
        yield ('(%s,)' % ', '.join(items),)


@check('C03', c03_ds)
def datashape_constructor(args):
    want = [comp(x) for x in args]
    ok = (len(args) > 0 and None not in [type(w) if w is None else 0 for w in want] and
          all(w is not None for w in want) and
          all(dim_like(w) for w in want[:-1]) and measure_like(want[-1]))
    before = snap(args)
    exc, ds = raises(lambda: DataShape(*args))
    if snap(args) != before:
        return 'the arguments are changed'
    if not ok:
        if exc is None:
            return 'accepted: %s' % describe(ds)
        if not isinstance(exc, (TypeError, ValueError)):
            return 'raised %r' % exc
        return
    if exc is not None:
        return 'rejected: %r' % exc
    p = ds._parameters
    if type(p) is not tuple or len(p) != len(want):
        return 'stores %s' % describe(p)
    for x, w, q in zip(args, want, p):
        if isinstance(x, (int, np.integer)):
            if type(q) is not Fixed or q.val != int(x):
                return 'stores %s for %r' % (describe(q), x)
        elif q is not w:
            return 'stores %s for %s' % (describe(q), describe(x))
    if ds.parameters != p or ds.name is not None:
        return 'parameters or name'


@check('C03', from_list([('3', '"int32"'), ('5', '"{a: int32}"'), ('var', '"string"'),
                         ('2', '"?int64"'), ('TypeVar("N")', '"T"'), ('0', '"(int32, int64)"')]))
def strings_are_parsed(d, s):
    ds = DataShape(d, s)
    inner = datashape.dshape(s)._parameters[-1]
    if not nat_eq(ds._parameters[1], inner) or len(ds._parameters) != 2:
        return 'stores %s' % describe(ds)


@check('C03', from_list([('"int32"',), ('"3 * int32"',), ('"var * {a: int32}"',), ('""',)]))
def a_lone_string_is_rejected(s):
    exc, ds = raises(DataShape, s)
    if not isinstance(exc, TypeError):
        return 'DataShape(str) gives %r' % (exc or describe(ds))


class Idx(object):
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n


@check('C03', lambda rng, tier: [(a,) for a in ANY + ['Fixed(3)', 'var', 'int32', '"3"', '2**100',
                                                      'np.uint8(200)', 'np.bool_(True)', '-2**70',
                                                      'DataShape(int32)', 'TypeVar("N")']] +
       [(str(n),) for n in range(-20, 60)])
def fixed_constructor(x):
    exc, f = raises(Fixed, x)
    try:
        n = operator.index(x)
    except TypeError:
        n = None
    if n is None or n < 0:
        if exc is None:
            return 'accepted: %s' % describe(f)
        if not isinstance(exc, (TypeError, ValueError)):
            return 'raised %r' % exc
    elif exc is not None:
        return 'rejected: %r' % exc
    elif type(f.val) is not int or f.val != n or int(f) != n or operator.index(f) != n:
        return 'stores %r' % (f.val,)


NAME_TEXTS = ['T', 'N', 'Abc', 'T1', 'A_b', 't', 'abc', '', '1', '_A', '?', 'É', 'Éa', 'A b', 'A-', 'AÉ',
              'True', 'False', 'None', 'Truex', ' T', 'T ', 'T\n', 'ZZ9', 'a', 'z', 'Ω', 'ǅ']


@check('C03', lambda rng, tier: [(repr(s),) for s in NAME_TEXTS] + [(a,) for a in ANY] +
       [(repr(''.join(rng.choice('ABZaz_09é. -') for _ in range(rng.randint(0, 5)))),)
        for _ in range(N(tier, 500))])
def typevar_constructor(s):
    import re
    exc, t = raises(TypeVar, s)
    ok = isinstance(s, str) and re.match(r'[A-Z][A-Za-z0-9_]*\Z', s) and s not in ('True', 'False')
    starts = isinstance(s, str) and s[:1].isupper()
    if not starts:
        if exc is None:
            return 'accepted %r' % (s,)
        if not isinstance(exc, (TypeError, ValueError)):
            return 'raised %r' % exc
    elif ok:
        if exc is not None:
            return 'rejected: %r' % exc
        if t.symbol != s:
            return 'stores %r' % t.symbol


@check('C03', lambda rng, tier: [(repr(s),) for s in ['UTC', '', 'a b', "q'", 'é']] +
       [(a,) for a in ANY + ['int32', '["UTC"]']])
def tz_constructors(s):
    for cls in (ct.Time, ct.DateTime):
        exc, t = raises(cls, s)
        if s is None or isinstance(s, str):
            if exc is not None or t.tz != s or type(t.tz) is not type(s):
                return '%s(%r) gives %r' % (cls.__name__, s, exc or t.tz)
        elif not isinstance(exc, (TypeError, ValueError)):
            return '%s(%r) gives %r' % (cls.__name__, s, exc or t)


@check('C03', lambda rng, tier: [('("m",)',), ('("m", DataShape(int32))',), ('("m", int32)',),
                                 ('(3,)',), ('(None,)',), ('("m", None)',), ('("m", "int32")',),
                                 ('("", DataShape(var, float32))',), ('(b"m",)',), ('("m", 3)',),
                                 ('(int32, DataShape(int32))',), ('("m", [])',), ('("m", 0)',),
                                 ('("m", False)',), ('("m", ())',), ('(["m"],)',)])
def units_constructor(args):
    exc, u = raises(ct.Units, *args)
    unit, tp = args[0], args[1] if len(args) > 1 else None
    ok = isinstance(unit, str) and (tp is None or isinstance(tp, DataShape))
    if not ok:
        if not isinstance(exc, (TypeError, ValueError)):
            return 'gives %r' % (exc or u,)
        return
    if exc is not None:
        return 'rejected: %r' % exc
    if u.unit != unit or (u.tp is not tp if tp is not None else
                          not nat_eq(u.tp, DataShape(ct.float64)) or type(u.tp) is not DataShape):
        return 'stores %r, %s' % (u.unit, describe(u.tp))


def c03_rec(rng, tier):
    g = gen.Gen(rng)
    yield ('[]',)
    yield ('()',)
    for t in ANY + gen.DIMS + gen.small()[::4]:
        yield ('[("a", %s)]' % t,)
        yield ('(("a", int32), ("b", %s))' % t,)
    for nm in ['"a"', '1', 'None', '"é"', '""', '2.5', 'int32']:
        yield ('[(%s, int32), ("z", int64)]' % nm,)
    yield ('[("1", int32), (1, int64)]',)
    yield ('OrderedDict([("b", int32), ("a", int64)])',)
    yield ('OrderedDict([])',)
    yield ('[["x", int32], ["y", int64]]',)
    for n in (9, 65, 130):
        names = ['n%d' % (i * 7 % 131) for i in range(n)]
        for i in (0, 1, n // 2, n - 1):
            for nm, t in ((names[i], 'int32'), (names[i - 1], 'int32'), (names[0], 'string'), ('N1', 'int8'),
                          (names[i], 'var'), (names[i], '3'), (names[i], 'None'),
                          (names[i], 'DataShape(var, string)')):
                l = [(x, 'int64') for x in names]
                l[i] = (nm, t)
                yield ('[%s]' % ', '.join('(%r, %s)' % e for e in l),)
    for _ in range(N(tier, 2500)):
        n = rng.randint(0, 6)
        names = [rng.choice('abcdefgh') if rng.random() < .2 else rng.choice('abcdefgh') + str(i)
                 for i in range(n)]
        yield ('[%s]' % ', '.join('(%r, %s)' % (x, g.any(2) if rng.random() < .93 else g.dim()
                                                if rng.random() < .5 else rng.choice(ANY))
                                  for x in names),)


def meas_ok(x):
    c = comp(x)
    return c is not None and measure_like(c) and not isinstance(x, int)


def canon(x):
    return x._parameters[0] if is_wrap(x) else x


@check('C03', c03_rec)
def record_constructor(fields):
    pairs_ = list(fields.items()) if isinstance(fields, dict) else list(fields)
    before = snap(fields)
    exc, r = raises(Record, fields)
    if snap(fields) != before:
        return 'the argument is changed'
    names = [n if isinstance(n, str) else str(n) for n, _ in pairs_]
    ok = len(set(names)) == len(names) and all(meas_ok(t) for _, t in pairs_)
    if not ok:
        if exc is None:
            return 'accepted: %s' % describe(r.parameters)
        if not isinstance(exc, (TypeError, ValueError)):
            return 'raised %r' % exc
        return
    if exc is not None:
        return 'rejected: %r' % exc
    f = r._parameters
    if type(f) is not tuple or len(f) != 1 or type(f[0]) is not tuple:
        return 'stores %s' % describe(f)
    if [x for x, _ in f[0]] != names:
        return 'names are %r' % ([x for x, _ in f[0]],)
    if not all(t is canon(w) for (_, t), (_, w) in zip(f[0], pairs_)):
        return 'types are %s' % describe([t for _, t in f[0]])
    if r.names != names or list(r.types) != [canon(w) for _, w in pairs_] or \
            r.fields != f[0] or list(r.dict.items()) != list(f[0]):
        return 'names, types, fields or dict disagree'
    for n_, (_, t) in zip(names, pairs_):
        if r[n_] is not canon(t):
            return 'r[%r] is %s' % (n_, describe(r[n_]))


@check('C03', from_list([('"a"', 'int32'), ('"b"', 'DataShape(var, int32)'), ('None', 'int32'),
                         ('3', 'int32'), ('"a"', 'None'), ('"a"', 'var')]))
def record_literal(name, tp):
    exc, r = raises(lambda: Record[name:tp, 'zz':ct.int64])
    if isinstance(name, str) and meas_ok(tp):
        if exc is not None:
            return 'rejected %r' % exc
        if not nat_eq(r, Record([(name, tp), ('zz', ct.int64)])) or r.names != [name, 'zz']:
            return 'gives %s' % describe(r)
    elif not isinstance(exc, (TypeError, ValueError)):
        return 'accepted: %r' % (exc or r)


def c03_items(rng, tier):
    for a in ANY + gen.DIMS + gen.small():
        yield (a,)


@check('C03', c03_items)
def option_constructor(x):
    exc, o = raises(ct.Option, x)
    if not meas_ok(x):
        if exc is None:
            return 'accepted: %s' % describe(o)
        if not isinstance(exc, (TypeError, ValueError)):
            return 'raised %r' % exc
    elif exc is not None:
        return 'rejected: %r' % exc
    elif o.ty is not canon(x):
        return 'stores %s' % describe(o.ty)


@check('C03', c03_items)
def map_constructor(x):
    for k, v in ((x, ct.int32), (ct.string, x), (x, x)):
        exc, m = raises(ct.Map, k, v)
        if not (meas_ok(k) and meas_ok(v)):
            if exc is None:
                return 'accepted: %s' % describe(m)
            if not isinstance(exc, (TypeError, ValueError)):
                return 'raised %r' % exc
        elif exc is not None:
            return 'rejected: %r' % exc
        elif m.key is not canon(k) or m.value is not canon(v):
            return 'stores %s, %s' % (describe(m.key), describe(m.value))


@check('C03', c03_items)
def function_constructor(x):
    for args in ((x,), (ct.int32, x), (x, DataShape(ct.int64))):
        exc, f = raises(ct.Function, *args)
        if not all(isinstance(y, DataShape) or meas_ok(y) for y in args):
            if exc is None:
                return 'accepted: %s' % describe(f)
            if not isinstance(exc, (TypeError, ValueError)):
                return 'raised %r' % exc
        elif exc is not None:
            return 'rejected: %r' % exc
        elif len(f.parameters) != len(args) or not all(
                nat_eq(p, y) for p, y in zip(f.parameters, args)):
            return 'stores %s' % describe(f.parameters)
        elif not nat_eq(f.restype, args[-1]) or len(f.argtypes) != len(args) - 1:
            return 'restype or argtypes'


@check('C03', c03_items)
def tuple_constructor(x):
    for args in ([x], (ct.int32, x)):
        exc, t = raises(ct.Tuple, args)
        if not all(isinstance(y, DataShape) or meas_ok(y) for y in args):
            if exc is None:
                return 'accepted: %s' % describe(t)
            if not isinstance(exc, (TypeError, ValueError)):
                return 'raised %r' % exc
        elif exc is not None:
            return 'rejected: %r' % exc
        elif type(t.dshapes) is not tuple or len(t.dshapes) != len(args) or not all(
                type(p) is DataShape and (p is y if isinstance(y, DataShape) else
                                          p._parameters == (y,) and p._parameters[0] is y)
                for p, y in zip(t.dshapes, args)):
            return 'stores %s' % describe(t.dshapes)


@check('C03', lambda rng, tier: [('3', '0'), ('3', '2'), ('"3"', '0'), ('3', '"1"'), ('1.5', '0'),
                                 ('3', '1.5'), ('None', '0'), ('np.int64(7)', 'np.int8(2)'),
                                 ('True', '0'), ('int32', '1'), ('Fixed(3)', '1'), ('5', 'None')])
def decimal_constructor(p, s):
    exc, d = raises(ct.Decimal, p, s)
    try:
        want = operator.index(p), operator.index(s)
    except TypeError:
        want = None
    if want is None:
        if not isinstance(exc, (TypeError, ValueError)):
            return 'gives %r' % (exc or d)
    elif exc is not None or (d.precision, d.scale) != want:
        return 'gives %r' % (exc or d)


@check('C03', from_list([('["a", "b"]', 'string', 'True'), ('(1, 2)', 'int64', 'False'),
                         ('[]', 'int32', 'False'), ('["b", "a", "c"]', 'DataShape(string)', '1'),
                         ('iter([3, 1, 2])', 'int32', '0'), ('"abc"', 'string', 'False')]))
def categorical_constructor(cats, tp, ordered):
    keep = list(cats)
    c = ct.Categorical(list(keep), type=tp, ordered=ordered)
    if c.categories != tuple(keep) or not nat_eq(c.type, tp) or isinstance(c.type, DataShape) or \
            c.ordered is not bool(ordered):
        return 'stores %s' % describe(c)
    d = ct.Categorical(iter(keep), type=tp, ordered=ordered)
    if d.categories != tuple(keep):
        return 'stores %s of an iterator' % describe(d)


# ---------------------------------------------------------------------- C04
LEFT = ['0', '1', '3', '10', 'True', '-1'] + gen.DIMS + [
    'DataShape(TypeVar("N"))', 'DataShape(int32)', 'int32', 'DataShape(Fixed(3), int32)', 'string',
    'Record([("a", int32)])', 'Option(int32)']


def c04_mul(rng, tier):
    small = gen.small()
    for l in LEFT:
        for r in small[::2]:
            yield (l, r)
    g = gen.Gen(rng)
    for e in large():
        yield (rng.choice(LEFT[:16]), e)
    for _ in range(N(tier, 3000)):
        yield (rng.choice(LEFT[:16]), g.any(2))


@check('C04', c04_mul)
def multiplication(l, r):
    if isinstance(l, int) and not isinstance(r, Mono):
        raise Skip
    before = snap(l), snap(r)
    exc, res = raises(lambda: l * r)
    if (snap(l), snap(r)) != before:
        return 'an operand is changed'
    c = comp(l)
    R = norm_ds(r)
    ok = c is not None and dim_like(c) and all(is_dim(d) for d in R[:-1]) and measure_like(R[-1])
    if not ok:
        if exc is None:
            return 'accepted: %s' % describe(res)
        if not isinstance(exc, (TypeError, ValueError)):
            return 'raised %r' % exc
        return
    if exc is not None:
        return 'raised %r' % exc
    if type(res) is not DataShape:
        return 'gives %s' % describe(res)
    P = res._parameters
    if len(P) != 1 + len(R) or not nat_eq(P[0], c) or type(P[0]) is not type(c) or \
            not all(x is y for x, y in zip(P[1:], R)):
        return 'gives %s' % describe(res)


@check('C04', lambda rng, tier: ((repr(l) if isinstance(l, int) else l, repr(s)) for l in
                                 [3, 0, 'var', 'Fixed(2)', 'TypeVar("N")', 'Ellipsis()']
                                 for s in ['int32', '3 * int32', 'var * {a: int32}', '?string',
                                           'A... * T']))
def multiplication_by_a_string(l, s):
    if isinstance(l, int):
        l = Fixed(l)
    res = l * s
    want = [l] + norm_ds(datashape.dshape(s))
    P = norm_ds(res)
    if type(res) is not DataShape or len(P) != len(want) or not all(
            nat_eq(x, y) for x, y in zip(P, want)):
        return 'gives %s' % describe(res)


@check('C04', singles(quick=2000, depth=2))
def describes_the_sequence(a):
    P = tuple(norm_ds(a))
    n = len(P)
    if not (type(a.shape) is tuple and len(a.shape) == n - 1 and
            all(x is y for x, y in zip(a.shape, P))):
        return 'shape is %s' % describe(a.shape)
    if a.measure is not P[-1]:
        return 'measure is %s' % describe(a.measure)
    if isinstance(a, typesets.TypeSet) or isinstance(a, Record):
        if len(a) != 1:
            return 'length'
        return
    if len(a) != n:
        return 'length is %d' % len(a)
    for i in range(-n, n):
        if a[i] is not P[i]:
            return '[%d] is %s' % (i, describe(a[i]))
    for i in (n, n + 1, -n - 1):
        exc, _ = raises(lambda: a[i])
        if not isinstance(exc, IndexError):
            return '[%d] gives %r' % (i, exc or _)
    for s in (slice(None), slice(1, None), slice(None, -1), slice(0, 2), slice(None, None, -1)):
        if list(a[s]) != list(P[s]):
            return '[%r] is %s' % (s, describe(a[s]))
    if [x for x in a] != list(P):
        return 'iteration'


def c04_sub(rng, tier):
    for e in gen.small():
        for k in range(0, 6):
            yield (e, str(k))
    g = gen.Gen(rng)
    for _ in range(N(tier, 1500)):
        yield (g.ds(2, maxdim=3), str(rng.randint(0, 5)))
    for n in [12, 24, 41] + list(range(1, 9)):
        e = 'DataShape(%s, int32)' % ', '.join('Fixed(%d)' % i for i in range(n))
        for k in range(0, n + 3):
            yield (e, str(k))


@check('C04', c04_sub)
def subarray(a, k):
    P = norm_ds(a)
    n = len(P) - 1
    before = snap(a)
    exc, r = raises(a.subarray, k)
    if snap(a) != before:
        return 'the operand is changed'
    if k > n:
        if not isinstance(exc, IndexError):
            return 'gives %r' % (exc or r)
        return
    if exc is not None:
        return 'raised %r' % exc
    Q = norm_ds(r)
    if len(Q) != len(P) - k or not all(x is y for x, y in zip(Q, P[k:])):
        return 'gives %s' % describe(r)


# ---------------------------------------------------------------------- C05
class Reject(Exception):
    pass


def model_sub(P, idx):
    """Components after indexing, None for a size that is not known."""
    h = P[0]
    if isinstance(idx, tuple):
        if not idx:
            return P
        if idx[0] is None:
            return [Fixed(1)] + model_sub(P, idx[1:])
        if len(idx) == 1:
            return model_sub(P, idx[0])
        if not isinstance(h, (Fixed, Var)):
            raise Reject
        return model_sub([h] + model_sub(P[1:], idx[1:]), idx[0])
    if isinstance(h, Record):
        f = h._parameters[0]
        if isinstance(idx, str):
            m = [t for n, t in f if n == idx]
            if not m:
                raise Reject
            return norm_ds(m[0])
        if isinstance(idx, int):
            if not -len(f) <= idx < len(f):
                raise Reject
            return norm_ds(f[idx][1])
        if isinstance(idx, list):
            sel = []
            for i in idx:
                if isinstance(i, str):
                    j = [k for k, (n, t) in enumerate(f) if n == i]
                    if not j:
                        raise Reject
                    sel.append(f[j[0]])
                elif not -len(f) <= i < len(f):
                    raise Reject
                else:
                    sel.append(f[i])
            if len({n for n, t in sel}) != len(sel):
                raise Reject
            return [Record(sel)]
        if isinstance(idx, slice):
            return [Record(list(f[idx]))]
        raise Reject
    if isinstance(h, (Fixed, Var)):
        if isinstance(idx, int):
            return P[1:]
        if isinstance(idx, list):
            return [Fixed(len(idx))] + P[1:]
        if isinstance(idx, slice):
            if isinstance(h, Fixed):
                return [Fixed(len(range(h.val)[idx]))] + P[1:]
            if idx == slice(None):
                return [ct.var] + P[1:]
            raise Skip
    raise Reject


REC = 'Record([("a", int32), ("b", DataShape(Fixed(4), string)), ("c", Option(int64))])'


def rand_slice(rng):
    def v():
        r = rng.random()
        return 'None' if r < .35 else str(rng.randint(-12, 12))
    st = rng.choice(['None', '1', '2', '3', '-1', '-2', '5'])
    return 'slice(%s, %s, %s)' % (v(), v(), st)


def rand_index(rng, rec):
    r = rng.random()
    if rec and r < .5:
        return rng.choice(['"a"', '"b"', '"c"', '0', '1', '2', '-1', '["a", "c"]', '["c", "a"]',
                           '[2, 0]', '[1]', '[]', '["b", 0]', 'slice(1, None)', 'slice(None)',
                           'slice(None, None, -1)', 'slice(0, 2)', '"zz"', '7', '["zz"]', '[9]',
                           'slice(None, None, 2)', '[-1]', '-3'])
    if r < .65:
        return str(rng.randint(-3, 6))
    if r < .75:
        return rng.choice(['[0]', '[]', '[1, 2, 0]', '[0, 0, 0, 0]', '[-1, 5]'])
    if r < .82:
        return 'None' if False else 'slice(None)'
    return rand_slice(rng)


def c05(rng, tier):
    for n in (0, 1, 2, 3, 5, 10):
        for a in (None, -11, -5, -3, -1, 0, 1, 2, 4, 9, 12):
            for b in (None, -7, -2, 0, 1, 3, 10, 11):
                for s in (None, 1, 2, 3, -1, -3, -20):
                    yield ('DataShape(Fixed(%d), float32)' % n, 'slice(%s, %s, %s)' % (a, b, s))
    base = ['DataShape(Fixed(3), int32)', 'DataShape(var, %s)' % REC, 'DataShape(%s)' % REC,
            'DataShape(Fixed(10), var, Fixed(7), int32)', 'DataShape(Fixed(5), Fixed(6), %s)' % REC,
            'DataShape(var, var, string)', 'DataShape(Fixed(0), Fixed(2), Option(int32))']
    for b in base:
        nd = b.count('Fixed') + b.count('var') - b.count('Fixed(4)')
        rec = 'Record' in b
        for i in ['0', '-1', '()', '(None,)', '[0, 2]', 'slice(None)', '"a"', '["a"]', 'slice(1, 3)',
                  '(0,)', '(slice(None), 0)', '(None, 0)', '(0, None)', '(None, None, 0)',
                  '(slice(None), slice(None))', '1.5', 'None', '{}', '(0, "a")', '(slice(0, 2), "b")',
                  '([0, 1], ["c", "a"])', '(slice(None), slice(1, None))']:
            yield (b, i)
        for _ in range(N(tier, 600)):
            k = rng.randint(1, nd + 1)
            items = [rand_index(rng, rec and j == k - 1) if rng.random() < .85 else 'None'
                     for j in range(k)]
            yield (b, items[0] if k == 1 and rng.random() < .6 and items[0] != 'None'
                   else '(%s,)' % ', '.join(items))
    for n in ('10**6', '2**31 + 5', '10**12 + 1', '2**62'):
        for i in ('slice(None)', 'slice(5, None)', 'slice(None, -3)', 'slice(None, None, 7)', '0', '-1',
                  'slice(None, None, -1)', 'slice(1000, 2000000, 3)', 'slice(-10, None)', 'slice(2**40)',
                  '(slice(3, None), slice(None, None, 2))', '(0, slice(None, 10))', '(None, slice(4, None))'):
            yield ('DataShape(Fixed(%s), Fixed(%s), int32)' % (n, n), i)
    for n in (12, 40):
        b = 'DataShape(%s, string)' % ', '.join('Fixed(%d)' % (i + 2) for i in range(n))
        for k in (1, 2, 9, n - 1, n, n + 1):
            for i in ('0', 'slice(None)', 'slice(1, None)', 'None', '[0, 1]'):
                yield (b, '(%s,)' % ', '.join([i] * k))
                yield (b, '(%s,)' % ', '.join(['slice(None)'] * (k - 1) + [i]))
        r = 'Record([%s])' % ', '.join('("f%d", %s)' % (i, ('int8', 'string', 'DataShape(Fixed(3), int32)')[
            i % 3]) for i in range(n))
        for b, w in (('DataShape(%s)' % r, '%s'), ('DataShape(Fixed(4), %s)' % r, '(0, %s)'),
                     ('DataShape(var, %s)' % r, '(slice(None), %s)')):
            for i in (0, 1, n // 2, n - 1, -1, -n, n, -n - 1):
                yield (b, w % i)
                yield (b, w % ('"f%d"' % i))
                yield (b, w % ('["f%d", "f1"]' % i))
                yield (b, w % ('slice(%d, None)' % i))
                yield (b, w % ('slice(None, %d)' % i))
                yield (b, w % ('slice(None, None, %s)' % (i or None)))
            yield (b, w % ('["f%d" % i for i in ' + 'range(%d, -1, -1)]' % (n - 1)))
    g = gen.Gen(rng, dims=['Fixed(0)', 'Fixed(3)', 'Fixed(7)', 'var'])
    for _ in range(N(tier, 1500)):
        k = rng.randint(1, 3)
        yield (g.ds(2), '(%s,)' % ', '.join(rand_index(rng, False) for _ in range(k)))


@check('C05', c05)
def subshape(ds, idx):
    before = snap(ds), snap(idx)
    P = norm_ds(ds)
    try:
        want = model_sub(P, idx)
    except Reject:
        want = None
    exc, r = raises(lambda: ds.subshape[idx])
    if (snap(ds), snap(idx)) != before:
        return 'an operand is changed'
    if want is None:
        if exc is None:
            return 'accepted: %s' % describe(r)
        return
    if exc is not None:
        return 'raised %r' % exc
    Q = norm_ds(r)
    if len(Q) != len(want) or not all(nat_eq(x, y) for x, y in zip(Q, want)):
        return 'gives %s' % describe(r)


@check('C05', from_list([('DataShape(var, %s)' % REC, 'slice(0, 3)', '3'),
                         ('DataShape(var, int32)', 'slice(0, 7, 2)', '4'),
                         ('DataShape(var, int32)', 'slice(2, 7)', '5'),
                         ('DataShape(var, int32)', 'slice(None, 7)', '7'),
                         ('DataShape(var, int32)', 'slice(3, None)', 'var'),
                         ('DataShape(var, int32)', 'slice(None, None)', 'var')]))
def documented_slices(ds, idx, n):
    r = ds.subshape[idx]
    want = [n if isinstance(n, Mono) else Fixed(n)] + norm_ds(ds)[1:]
    if not nat_eq(r, DataShape(*want)):
        return 'gives %s' % describe(r)


# ---------------------------------------------------------------------- C06
SCALARS = ['bool', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8', 'c8', 'c16',
           'S1', 'S5', 'S30', 'U1', 'U7', 'U30', 'S100', 'U3']


def rand_dtype(rng, depth):
    if depth == 0 or rng.random() < .4:
        return rng.choice(SCALARS)
    out = []
    for i in range(rng.randint(1, 4)):
        nm = rng.choice(['a', 'b', 'x y', 'é', 'f']) + str(i)
        sh = rng.choice([(), (), (), (2,), (3, 1), (1,), (0,), (2, 3, 4)])
        out.append((nm, rand_dtype(rng, depth - 1)) + ((sh,) if sh else ()))
    return out


def c06(rng, tier):
    shapes = ['()', '(0,)', '(1,)', '(3,)', '(5, 5)', '(2, 0, 3)', '(1, 2, 3, 4)']
    for s in SCALARS:
        for sh in shapes:
            yield (sh, repr(s))
    for sh in ('(2**31,)', '(2**31 - 1, 2)', '(1, 2**32, 3)', '(2**40,)', '(2**63 - 1,)', '(2**53 + 1, 4)',
               '(1,) * 12', 'tuple(range(2, 34))', '(3,) * 9 + (2**33,)', '(0,) * 20'):
        for s in ('i4', 'U3', 'S5', 'c16', 'bool'):
            yield (sh, repr(s))
    for s in ('S255', 'S256', 'U255', 'U256', 'S65536', 'U70000', 'S9', 'U10', 'U99', 'S1000'):
        yield ('(2,)', repr(s))
        yield ('(2,)', repr([('a', s), ('b', 'i1', (3,))]))
    for n in (9, 33, 200):
        wide = [('c%d' % (i * 7 % 200), SCALARS[i % len(SCALARS)]) for i in range(n)]
        yield ('(2, 3)', repr(wide))
        yield ('()', repr([('r', wide, (2, 2))]))
        yield ('()', repr([(n_, s_, (2 + i % 3,)) if i % 2 else (n_, s_) for i, (n_, s_) in enumerate(wide)]))
    deep = 'i2'
    for i in range(9):
        deep = [('a', 'S3'), ('b' * (i + 1), deep) + (((2,),) if i % 2 else ())]
    yield ('(4,)', repr(deep))
    for _ in range(N(tier, 2000)):
        yield (rng.choice(shapes), repr(rand_dtype(rng, rng.randint(1, 3))))


@check('C06', c06)
def numpy_round_trip(shape, dt):
    dt = np.dtype(dt)
    ds = ct.from_numpy(shape, dt)
    got = ct.to_numpy(ds)
    if got[0] != shape or type(got[0]) is not tuple or got[1] != dt or \
            got[1].names != dt.names or got[1].itemsize != dt.itemsize:
        return 'came back as %r via %s' % (got, describe(ds))
    if tuple(int(d) for d in ds.shape) != shape:
        return 'shape of the datashape is %s' % describe(ds.shape)
    if ct.to_numpy_dtype(ds) != dt:
        return 'to_numpy_dtype gives %r' % ct.to_numpy_dtype(ds)


NP_MEAS = {
    'bool_': 'bool', 'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8', 'uint8': 'u1',
    'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8', 'float16': 'f2', 'float32': 'f4',
    'float64': 'f8', 'complex64': 'c8', 'complex128': 'c16', 'String(5)': 'U5',
    'String(7, "A")': 'S7', 'String(3, "U16")': 'U3', 'date_': 'M8[D]', 'datetime_': 'M8[us]',
    'TimeDelta("s")': 'm8[s]', 'TimeDelta("us")': 'm8[us]', 'TimeDelta("D")': 'm8[D]',
    'TimeDelta("ns")': 'm8[ns]', 'DateTime("UTC")': 'M8[us]', 'Option(date_)': 'M8[D]',
    'Option(datetime_)': 'M8[us]', 'Option(TimeDelta("ms"))': 'm8[ms]', 'string': 'O',
    'Record([("a", int32), ("b", DataShape(Fixed(3), float64))])':
        [('a', 'i4'), ('b', 'f8', (3,))],
    'Record([("b", DataShape(Fixed(2), Fixed(0), String(4, "A")))])': [('b', 'S4', (2, 0))],
    'Tuple([int8, DataShape(Fixed(2), int16)])': [('f0', 'i1'), ('f1', 'i2', (2,))],
    'Record([("r", DataShape(Fixed(2), Record([("x", bool_)])))])': [('r', [('x', 'bool')], (2,))],
}


def c06_to(rng, tier):
    ds = gen.DIMS
    for m, d in NP_MEAS.items():
        yield ('DataShape(%s)' % m, repr(d))
        yield (m, repr(d))
        for dims in (['Fixed(2**31)'], ['Fixed(3)', 'Fixed(2**32)'], ['Fixed(2**40)', 'TypeVar("N")'],
                     ['Fixed(%d)' % i for i in range(2, 32)], ['Fixed(2)'] * 9 + ['var'] + ['Fixed(2)'] * 4,
                     ['TypeVar("N")'] + ['Fixed(5)'] * 14, ['Fixed(1)'] * 12 + ['Ellipsis()']):
            yield ('DataShape(%s, %s)' % (', '.join(dims), m), repr(d))
        for _ in range(N(tier, 12)):
            dims = [rng.choice(ds) for _ in range(rng.randint(1, 4))]
            yield ('DataShape(%s, %s)' % (', '.join(dims), m), repr(d))


@check('C06', c06_to)
def to_numpy_keeps_dimensions(ds, d):
    P = norm_ds(ds)
    bad = any(isinstance(x, (Var, Ellipsis)) for x in P[:-1])
    exc, r = raises(ct.to_numpy, ds)
    if bad:
        if not isinstance(exc, TypeError):
            return 'gives %r' % (exc or r,)
        return
    if exc is not None:
        return 'raised %r' % exc
    want = tuple(x.val if isinstance(x, Fixed) else -1 for x in P[:-1])
    if type(r[0]) is not tuple or r[0] != want:
        return 'shape %r' % (r[0],)
    if r[1] != np.dtype(d):
        return 'dtype %r' % r[1]


@check('C06', lambda rng, tier: ((str(p), str(s)) for p in range(1, 40) for s in range(0, 6)))
def decimals_fit(p, s):
    exc, dt = raises(ct.Decimal(p, s).to_numpy_dtype)
    if exc is not None:
        if not isinstance(exc, TypeError) or (s == 0 and p <= 18 and False):
            return 'raised %r' % exc
        return
    if s == 0:
        if dt.kind == 'i' and 10 ** p - 1 > np.iinfo(dt).max:
            return '%r does not hold %d digits' % (dt, p)
        if dt.kind == 'f' and 10 ** p > 2 ** (np.finfo(dt).nmant + 1):
            return '%r does not hold %d digits' % (dt, p)
        if dt.kind not in 'if':
            return '%r' % dt
    elif dt.kind not in 'fO':
        return '%r loses the fraction' % dt
    if p <= 18 and s == 0 and exc is not None:
        return 'rejected'


@check('C06', lambda rng, tier: ((m,) for m in gen.LEAVES))
def optional_types(m):
    exc, dt = raises(lambda: ct.to_numpy(ct.Option(m)))
    if type(m) in (ct.Date, ct.DateTime, ct.TimeDelta):
        if exc is not None or dt[1].kind not in 'mM' or dt[1] != ct.to_numpy(m)[1]:
            return 'gives %r' % (exc or dt,)
    elif exc is None:
        return 'converts to %r' % (dt,)
    elif not isinstance(exc, TypeError):
        return 'raised %r' % exc


@check('C06', from_list([('"M8[D]"', 'date_'), ('"M8[us]"', 'datetime_'), ('"M8[ns]"', 'datetime_'),
                         ('"m8[s]"', 'TimeDelta("s")'), ('"m8[ns]"', 'TimeDelta("ns")'),
                         ('"M8[Y]"', 'date_'), ('"O"', 'object_'), ('"m8[D]"', 'TimeDelta("D")'),
                         ('"M8[s]"', 'datetime_'), ('"S3"', 'String(3, "A")'),
                         ('"U3"', 'String(3, "U32")')]))
def other_dtypes(dt, want):
    got = ct.from_numpy((2,), np.dtype(dt))
    if not nat_eq(got, DataShape(Fixed(2), want)):
        return 'gives %s' % describe(got)


# ---------------------------------------------------------------------- C22
class Registries(object):
    def __enter__(self):
        self.a = dict(ct.Type._registry)
        self.b = dict(typesets.registry.registry)
        return self

    def types(self):
        return ct.Type._registry

    def sets(self):
        return typesets.registry.registry

    def __exit__(self, *a):
        ct.Type._registry.clear()
        ct.Type._registry.update(self.a)
        typesets.registry.registry.clear()
        typesets.registry.registry.update(self.b)


def same_dict(a, b):
    return list(a) == list(b) and all(a[k] is b[k] for k in a)


def c22_names(rng, tier):
    old = sorted(k for k in ct.Type._registry if isinstance(k, str))
    new = ['foo', 'X', '', 'a b', 'int31', 'Int32', 'é', 'INT32', 'int32 ', 'nosuchtype']
    vals = ['int32', 'DataShape(int32)', 'Fixed(3)', 'TypeSet(int32)', 'null', 'Option(int8)']
    for n in old + new:
        for v in vals[:3]:
            yield (repr(n), v)
    for n in new + old[:3]:
        for v in vals:
            yield (repr(n), v)


def check_register(reg, before, name, value, call, how):
    exc, r = raises(call)
    if name in before:
        if not isinstance(exc, TypeError):
            return '%s over an existing name gives %r' % (how, exc or r)
        if not same_dict(reg(), before):
            return '%s over an existing name changes the registry' % how
        return
    if exc is not None:
        return '%s raised %r' % (how, exc)
    want = dict(before)
    want[name] = reg().get(name) if value is None else value
    if not same_dict(reg(), want):
        return '%s: the registry is not the old one with the new name' % how


@check('C22', c22_names)
def register_type(name, value):
    with Registries() as R:
        exc, _ = raises(ct.Type.lookup_type, name)
        if (name in R.a) != (exc is None) or exc is not None and not isinstance(exc, KeyError):
            return 'lookup before: %r' % (exc,)
        m = check_register(R.types, R.a, name, value,
                           lambda: ct.Type.register(name, value), 'register')
        if m:
            return m
        got = ct.Type.lookup_type(name)
        if got is not R.a.get(name, value):
            return 'lookup after: %s' % describe(got)
        exc, r = raises(ct.Type.register, name, ct.int64)
        if not isinstance(exc, TypeError) or ct.Type.lookup_type(name) is not got:
            return 'registered twice'
        if not same_dict(R.sets(), R.b):
            return 'the type sets changed'


@check('C22', c22_names)
def named_datashape(name, value):
    if not name:
        raise Skip
    with Registries() as R:
        box = []

        def call():
            box.append(DataShape(Fixed(3), ct.int32, name=name))
        m = check_register(R.types, R.a, name, None, call, 'a named datashape')
        if m:
            return m
        if box and (ct.Type.lookup_type(name) is not box[0] or box[0].name != name or
                    str(box[0]) != name):
            return 'the name does not resolve to the datashape'


@check('C22', c22_names)
def named_ctype(name, value):
    with Registries() as R:
        box = []

        def call():
            box.append(ct.CType(name, 4, 4))
        m = check_register(R.types, R.a, name, None, call, 'CType')
        if m:
            return m
        if box and ct.Type.lookup_type(name) is not box[0]:
            return 'the name does not resolve to the type'


@check('C22', lambda rng, tier: ((repr(n), v) for n in list(typesets.registry.registry) +
                                 ['foo', 'X', 'a b', 'Signed', 'reals', 'é', 'numeri', 'int32']
                                 for v in ('TypeSet(int32)', 'TypeSet()', 'boolean')))
def register_typeset(name, ts):
    with Registries() as R:
        exc, _ = raises(lambda: typesets.registry[name])
        if (name in R.b) != (exc is None) or exc is not None and not isinstance(exc, KeyError):
            return 'lookup before: %r' % (exc,)
        m = check_register(R.sets, R.b, name, ts,
                           lambda: typesets.register_typeset(name, ts), 'register_typeset')
        if m:
            return m
        if typesets.registry[name] is not R.b.get(name, ts) or \
                typesets.lookup(name) is not R.b.get(name, ts):
            return 'lookup after'
        if not same_dict(R.types(), R.a):
            return 'the types changed'
        now = typesets.registry[name]
        for again in (ct.int8, ts, typesets.TypeSet(ct.int8)):
            exc, _ = raises(typesets.register_typeset, name, again)
            if type(exc) is not TypeError or typesets.registry[name] is not now:
                return 'registered twice'
    with Registries() as R:
        box = []

        def call():
            box.append(typesets.TypeSet(ct.int8, name=name))
        m = check_register(R.sets, R.b, name, None, call, 'a named type set')
        if m:
            return m
        if box and (typesets.registry[name] is not box[0] or box[0].name != name):
            return 'the name does not resolve to the type set'


def histories(rng, tier):
    vals = ['TypeSet()', 'TypeSet(int8)', 'TypeSet(int8, float64)', 'int32', 'DataShape(int8)',
            'Fixed(0)', 'Option(int8)', 'Record([])']
    names = ['foo', 'bar', 'signed', 'int32', 'Foo', 'f']
    for _ in range(N(tier, 400)):
        yield ('[%s]' % ', '.join(
            '(%d, %r, %s)' % (rng.random() < .5, rng.choice(names), rng.choice(vals))
            for _ in range(rng.randint(1, 7))),)
    yield ('[(i % 2, "n%d" % (i % 150), TypeSet(int8)) for i in range(310)]',)
    yield ('[(1, "n" * i, TypeSet()) for i in range(1, 40)] * 2',)


@check('C22', histories)
def any_history(ops):
    with Registries() as R:
        want = [dict(R.a), dict(R.b)]
        for which, name, v in ops:
            if which and not isinstance(v, typesets.TypeSet):
                continue
            f = (ct.Type.register, typesets.register_typeset)[which]
            exc, _ = raises(f, name, v)
            if (exc is not None) != (name in want[which]) or \
                    exc is not None and type(exc) is not TypeError:
                return 'registering %r: %r' % (name, exc)
            want[which].setdefault(name, v)
            if not same_dict(R.types(), want[0]) or not same_dict(R.sets(), want[1]):
                return 'the registries after %r' % name
            for n in ('foo', 'bar', 'f', name):
                for k, look in enumerate((ct.Type.lookup_type, lambda q: typesets.registry[q])):
                    exc, r = raises(look, n)
                    if n in want[k]:
                        if exc is not None or r is not want[k][n]:
                            return 'looking up %r: %r %r' % (n, exc, r)
                    elif type(exc) is not KeyError:
                        return 'looking up %r, which is not registered: %r %r' % (n, exc, r)


@check('C22', lambda rng, tier: [('"int32"',), ('"int"',), ('"string"',), ('"bool"',), ('"real"',),
                                 ('"complex64"',), ('"date"',), ('"float"',), ('"double"',)])
def defaults_resolve(name):
    want = {'int32': ct.int32, 'int': ct.int32, 'string': ct.string, 'bool': ct.bool_,
            'real': ct.float64, 'complex64': ct.complex64, 'date': ct.date_,
            'float': ct.float32, 'double': ct.float64}[name]
    if not nat_eq(ct.Type.lookup_type(name), want):
        return 'resolves to %s' % describe(ct.Type.lookup_type(name))


# ---------------------------------------------------------------------- C23
UNIT = {'year': 'Y', 'week': 'W', 'day': 'D', 'date': 'D', 'hour': 'h', 'second': 's',
        'millisecond': 'ms', 'microsecond': 'us', 'nanosecond': 'ns'}
CANON = ('ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y')


def unit_model(s):
    s = s.strip()
    if s in CANON:
        return s
    for a, u in UNIT.items():
        if s == a or s == a + 's':
            return u
    return None


def c23_units(rng, tier):
    base = list(CANON) + list(UNIT) + [a + 's' for a in UNIT]
    for s in base:
        for pre in ('', ' ', '\t', '\n ', 'x', '-', '\u00a0', 's', '\x00'):
            for post in ('', ' ', '  \n', 's', 'ss', '.', '\x1f'):
                yield (repr(pre + s + post),)
        yield (repr(s.upper()),)
        yield (repr(s.title()),)
        yield (repr(s[:-1]),)
        yield (repr(s[1:]),)
        for k in range(len(s) + 1):
            yield (repr(s[:k] + rng.choice('sxYmd ') + s[k:]),)
    for s in ('', ' ', 'month', 'months', 'minute', 'minutes', 'fortnight', 'd', 'y', 'w', 'H', 'S',
              'nss', 'uss', 'mss', 'Ds', 'Ys', 'hs', 'ss', 'µs', 'None', '1', 'as', 'ps', 'generic'):
        yield (repr(s),)
    for _ in range(N(tier, 1500)):
        yield (repr(''.join(rng.choice('nusmhDWMYdayer ot') for _ in range(rng.randint(0, 6)))),)


@check('C23', c23_units)
def time_units(s):
    want = unit_model(s)
    for how, f in (('normalize_time_unit', ct.normalize_time_unit),
                   ('TimeDelta', lambda x: ct.TimeDelta(x).unit),
                   ('TimeDelta(unit=)', lambda x: ct.TimeDelta(unit=x).unit)):
        exc, r = raises(f, s)
        if want is None:
            if not isinstance(exc, ValueError):
                return '%s gives %r' % (how, exc or r)
        elif exc is not None or r != want or type(r) is not str:
            return '%s gives %r' % (how, exc or r)


ENC = {'A': 'A', 'ascii': 'A', 'U8': 'U8', 'utf-8': 'U8', 'utf_8': 'U8', 'utf8': 'U8', 'U16': 'U16',
       'utf-16': 'U16', 'utf_16': 'U16', 'utf16': 'U16', 'U32': 'U32', 'utf-32': 'U32',
       'utf_32': 'U32', 'utf32': 'U32'}


def c23_enc(rng, tier):
    names = list(ENC)
    for s in names:
        for t in (s, s.upper(), s.lower(), ' ' + s, s + ' ', s[:-1], s + '8', s.replace('-', '')):
            yield (repr(t), '7')
    for s in ('latin1', 'U', 'U64', 'utf', 'a', 'Ascii', 'utf-9', 'None', 'cp1252', 'utf 8'):
        yield (repr(s), '3')
    for n in ('0', '1', '5', '100', '2**33', 'None'):
        for s in names:
            yield (repr(s), n)


@check('C23', c23_enc)
def string_encodings(s, n):
    want = ENC.get(s)
    if not s:
        raise Skip
    for how, f, ln in (('String(enc)', lambda: ct.String(s), None),
                       ('String(n, enc)', lambda: ct.String(n, s), n)):
        exc, r = raises(f)
        if want is None:
            if not isinstance(exc, ValueError):
                return '%s gives %r' % (how, exc or r)
        elif exc is not None:
            return '%s raised %r' % (how, exc)
        elif r.encoding != want or r.fixlen != ln or type(r.fixlen) is not type(ln):
            return '%s stores %r, %r' % (how, r.fixlen, r.encoding)


@check('C23', lambda rng, tier: [(str(n),) for n in list(range(0, 40)) + [255, 256, 10**6]])
def string_lengths(n):
    for how, s in (('String(n)', ct.String(n)), ('String(n, None)', ct.String(n, None)),
                   ('String(np.int64(n), None)', ct.String(np.int64(n), 'utf8'))):
        if s.fixlen != n or s.encoding != 'U8':
            return '%s stores %r, %r' % (how, s.fixlen, s.encoding)
    s = ct.String()
    if s.fixlen is not None or s.encoding != 'U8':
        return 'String() stores %r, %r' % (s.fixlen, s.encoding)


@check('C23', lambda rng, tier: [(a,) for a in ['(1, 2, 3)', '(1.5,)', '(None, None, None)', '(int32,)',
                                                '("a", "b")', '(1.5, "A")', '("5", "A")', '([],)',
                                                '("A", 5)', '(b"A",)', '(5, 5)']])
def string_misuse(args):
    exc, r = raises(ct.String, *args)
    if not isinstance(exc, (TypeError, ValueError)):
        return 'gives %r' % (exc or r)
