"""C09, C18, C21: discovery, graph helpers, validation of values."""
import itertools
import warnings
from collections import OrderedDict

import numpy as np

from . import gen
from .fw import check, raises, snap, describe, Skip, N, singles, pairs, from_list, chain
from .p_types import unwrap, unite_model, NoUnion, lub, kname
from .same import nat_eq, norm_ds
import datashape
from datashape import coretypes as ct, discovery, internal_utils, user
from datashape.coretypes import DataShape, Fixed, Var, Ellipsis, Record, Mono, Option, TypeVar

discover = datashape.discover
warnings.simplefilter('ignore')

# ---------------------------------------------------------------------- C09
SCALARS = [
    ('True', 'bool_'), ('False', 'bool_'), ('0', 'int64'), ('1', 'int64'), ('-5', 'int64'),
    ('2**70', 'int64'), ('0.0', 'float64'), ('1.5', 'float64'), ('nan', 'float64'),
    ('inf', 'float64'), ('1j', 'complex128'), ('None', 'null'), ('null', 'null'),
    ('datetime.date(2000, 1, 1)', 'date_'), ('datetime.date.min', 'date_'),
    ('datetime.datetime(2000, 1, 1)', 'datetime_'),
    ('datetime.datetime(2000, 1, 1, 5, 6, 7)', 'datetime_'),
    ('datetime.time(0, 0)', 'time_'), ('datetime.time(1, 2, 3, 4)', 'time_'),
    ('datetime.timedelta(1)', 'TimeDelta("us")'), ('datetime.timedelta(0)', 'TimeDelta("us")'),
    ('b"abc"', 'String("A")'), ('b""', 'String("A")'),
]
TEXTS = [
    ('""', 'null'), ('"1"', 'int64'), ('"-12"', 'int64'), ('"1.5"', 'float64'), ('"1e5"', 'float64'),
    ('"nan"', 'float64'), ('"true"', 'bool_'), ('"False"', 'bool_'), ('"Alice"', 'string'),
    ('"monday"', 'string'), ('"10:00:00"', 'time_'), ('"10:00:00.5"', 'time_'),
    ('"2014-01-01"', 'date_'), ('"2014-01-01T10:00:01"', 'datetime_'),
    ('"1 day"', 'TimeDelta("D")'), ('"2 seconds"', 'TimeDelta("s")'), ('"3 us"', 'TimeDelta("us")'),
    ('" "', 'string'), ('"hello world"', 'string'), ('"1.5 days"', 'string'), ('"a1"', 'string'),
]
NUMPY = [('np.int8(1)', 'int8'), ('np.uint16(3)', 'uint16'), ('np.int64(3)', 'int64'),
         ('np.float32(1)', 'float32'), ('np.complex64(1)', 'complex64'),
         ('np.timedelta64(1, "D")', 'TimeDelta("D")'), ('np.timedelta64(1, "us")', 'TimeDelta("us")'),
         ('np.arange(5)', 'DataShape(Fixed(5), int64)'),
         ('np.zeros((2, 0, 3), dtype="f4")', 'DataShape(Fixed(2), Fixed(0), Fixed(3), float32)'),
         ('np.array(["a", "b"], dtype="O")', 'DataShape(Fixed(2), string)'),
         ('np.array([1, object()], dtype="O")', 'DataShape(Fixed(2), object_)'),
         ('np.array(["a", None], dtype="O")', 'DataShape(Fixed(2), object_)'),
         ('np.zeros(3, dtype=[("a", "i4"), ("b", "S5")])',
          'DataShape(Fixed(3), Record([("a", int32), ("b", String(5, "A"))]))'),
         ('np.array([("x", 1)], dtype=[("s", "O"), ("n", "i4")])',
          'DataShape(Fixed(1), Record([("s", string), ("n", int32)]))'),
         ('np.array([(object(), 1)], dtype=[("s", "O"), ("n", "i4")])',
          'DataShape(Fixed(1), Record([("s", object_), ("n", int32)]))')]


@check('C09', from_list(SCALARS + TEXTS + NUMPY))
def scalar_values(x, want):
    r = discover(x)
    if not nat_eq(r, want):
        return 'gives %s' % describe(r)


def model(x, memo=None):
    """What discovery gives, for the values that the generator makes."""
    if x is None:
        return ct.null
    t = type(x)
    if t in (list, tuple, set, frozenset):
        if not x:
            return DataShape(ct.var, ct.string)
        items = list(x)
        n = len(items)
        if all(type(i) in (list, tuple) for i in items) and len(set(map(len, items))) == 1:
            try:
                cols = [column([model(i[k]) for i in items]) for k in range(len(items[0]))]
                u = merge(cols)
                return mul(n, u if u is not None else ct.Tuple(cols))
            except NoUnion:
                pass
        if all(isinstance(i, dict) for i in items):
            keys = sorted(set().union(*items))
            try:
                return mul(n, Record([(k, column([model(i.get(k)) for i in items]))
                                      for k in keys]))
            except NoUnion:
                pass
        types = [model(i) for i in items]
        u = merge(types)
        return u if u is not None else ct.Tuple(types)
    if t is OrderedDict:
        return Record([(k, model(v)) for k, v in x.items()])
    if t is dict:
        return Record([(k, model(x[k])) for k in sorted(x)])
    return discover(x)


def mul(n, t):
    return DataShape(Fixed(n), *norm_ds(t))


def column(types):
    """The type that covers the values of a column."""
    types = list(types)
    if all(nat_eq(t, types[0]) for t in types):
        return types[0]
    return unite_model(types)


def merge(types):
    """The n types under one leading dimension, or None."""
    n = len(types)
    if not types:
        return None
    if all(nat_eq(t, types[0]) for t in types):
        return mul(n, types[0])
    P = [norm_ds(t) for t in types]
    if all(type(t) is DataShape and type(p[0]) in (Fixed, Var, Ellipsis) for t, p in zip(types, P)):
        if all(nat_eq(DataShape(*p[1:]), DataShape(*P[0][1:])) for p in P):
            d = P[0][0] if all(nat_eq(p[0], P[0][0]) for p in P) else ct.var
            return DataShape(Fixed(n), d, *P[0][1:])
    return None


class DGen(object):
    def __init__(self, rng):
        self.r = rng
        self.sc = [a for a, _ in SCALARS if 'null' not in a] + [a for a, _ in TEXTS] + ['1', '2.5', 'None']

    def scalar(self, pool):
        return self.r.choice(pool)

    def value(self, d, pool):
        r = self.r
        k = r.choice(['s', 'l', 'l', 't', 'rows', 'dicts', 'd', 'od', 'grid', 'set']) if d else 's'
        if k == 's':
            return self.scalar(pool)
        if k in 'lt':
            l = [self.value(d - 1, pool) for _ in range(r.randint(0, 4))]
            return '[%s]' % ', '.join(l) if k == 'l' else '(%s)' % ''.join(x + ', ' for x in l)
        if k == 'set':
            return r.choice(['set', 'frozenset']) + '([%s])' % ', '.join(
                self.scalar(['1', '2', '3', '"a"', '"b"', '1.5', 'None']) for _ in range(r.randint(0, 3)))
        if k == 'rows':
            c = r.randint(1, 3)
            pools = [self.r.sample(pool, min(len(pool), r.randint(1, 2))) for _ in range(c)]
            br = r.choice(['(%s,)', '[%s]'])
            return '[%s]' % ', '.join(br % ', '.join(self.scalar(p) for p in pools)
                                      for _ in range(r.randint(1, 4)))
        if k == 'dicts':
            keys = r.sample(['a', 'b', 'c'], r.randint(1, 3))
            pools = {q: self.r.sample(pool, min(len(pool), r.randint(1, 2))) for q in keys}
            return '[%s]' % ', '.join('{%s}' % ', '.join(
                '%r: %s' % (q, self.scalar(pools[q])) for q in keys if r.random() < .8)
                for _ in range(r.randint(1, 4)))
        if k == 'grid':
            a, b = r.randint(1, 3), r.randint(0, 3)
            p = r.sample(pool, min(len(pool), r.choice([1, 1, 2])))
            return '[%s]' % ', '.join('[%s]' % ', '.join(self.scalar(p) for _ in range(b))
                                      for _ in range(a))
        keys = r.sample(['a', 'b', 'c', 'z', 'A'], r.randint(0, 4))
        if k == 'd':
            return '{%s}' % ', '.join('%r: %s' % (q, self.value(d - 1, pool)) for q in keys)
        return 'OrderedDict([%s])' % ', '.join('(%r, %s)' % (q, self.value(d - 1, pool)) for q in keys)


def c09(rng, tier):
    g = DGen(rng)
    fixed = ['[]', '()', 'set()', '[[]]', '[[], []]', '[[1], []]', '[[1, 2], [3, 4]]', '[1, 2.5]',
             '[1, None]', '[[1, 2], [None, 4]]', '[(1, "a"), (2, "b")]', '[(1, "a"), (None, "b")]',
             '[{"a": 1}, {"b": 2}]', '[{"a": 1}, {"a": None}]', '[{}, {}]', '[{}]', '{}', 'OrderedDict()',
             '[[1, 2], [3]]', '[[[1], [2]], [[3], [4]]]', '[{"a": [1, 2]}, {"a": [3, 4]}]',
             '[{"a": [1, 2]}, {"a": [3]}]', '[None, None]', '[(None,), (None,)]', '[[1, "a"], ["b", 2]]',
             '[OrderedDict([("b", 1), ("a", 2)]), OrderedDict([("b", 1), ("a", 2)])]',
             '((1, 2), [3, 4])', '[(1,), {"a": 1}]', '[(), ()]', '[{"a": {"b": 1}}, {"a": {"b": None}}]',
             '[{"a": {"b": 1}}, {"a": {"b": 1, "c": 2}}]', '[1, "1", True]', '[True, 1]']
    for e in fixed:
        yield (e,)
    import itertools
    for item in ('1.5', '1', '"x"', '[1]', 'True'):
        for ls in itertools.product((0, 1, 2), repeat=3):
            yield ('[%s]' % ', '.join('[%s]' % ', '.join([item] * k) for k in ls),)
    for ls in itertools.product((1, 2), repeat=4):
        yield ('[%s]' % ', '.join('[%s]' % ', '.join(['[1.5]'] * k) for k in ls),)
    for n in (12, 40, 130, 1001):
        if n > 200:
            firsts = ['1', '"x"', '{"a": 1}']
        else:
            firsts = ['1', '"x"', '[1, 2]', '(1, "a")', '{"a": 1}', 'None', '[]', '"1"']
        for a in firsts:
            for b in ('1', '2.5', 'None', '"x"', '[1]', '[1, 2.5]', '(None, "b")', '{"b": 1}',
                      '{"a": None}', '{"a": "x"}', '{"a": 1, "zz": 2}', '[]', '""', 'OrderedDict([("a", 1)])'):
                yield ('[%s] * %d + [%s]' % (a, n, b),)
                if n < 200:
                    yield ('[%s] + [%s] * %d' % (b, a, n),)
    for n in (11, 40, 150):
        for a in ('1', '"x"', 'None', '1.5'):
            yield ('[(%s) + (%s,), (1,) * %d]' % ('1,) * %d' % n + ' + (', a, n + 1),)
            yield ('[dict(("k%%d" %% (i * 7), 1) for i in range(%d)), {"k0": %s}]' % (n, a),)
            yield ('dict(("k%%d" %% (i * 7), %s) for i in range(%d))' % (a, n),)
            yield ('OrderedDict(("k%%d" %% (i * 7 %% 151), %s) for i in range(%d))' % (a, n),)
            yield ('[OrderedDict(("k%%d" %% (i * 7 %% 151), %s) for i in range(%d))] * 2' % (a, n),)
    for w in ('[%s]', '[%s, %s]', '(%s,)', '{"a": %s}', '[{"b": %s}]', '[(%s, 1), (None, 2)]'):
        for n in (4, 6):
            for t in ('1', 'None', '[]', '"x"'):
                for _ in range(n):
                    t = w.replace('%s', t)
                yield (t,)
    yield ('set(range(200))',)
    yield ('[list(range(100))] * 100',)
    yield ('[[1] * i for i in range(60)]',)
    allp = g.sc
    simple = ['1', '2', '2.5', 'None', '"x"', 'True', 'datetime.date(2000, 1, 1)',
              'datetime.datetime(2001, 1, 1, 2)']
    for _ in range(N(tier, 4000)):
        yield (g.value(rng.randint(1, 3), simple if rng.random() < .7 else allp),)


@check('C09', c09)
def structures(x):
    before = repr(x)
    exc, r = raises(discover, x)
    if repr(x) != before:
        return 'changes the data'
    if exc is not None:
        return 'raised %r' % exc
    if isinstance(x, (list, tuple, set, frozenset)):
        p = norm_ds(r)
        if not x:
            if type(p[0]) is not Var:
                return 'of nothing gives %s' % describe(r)
        elif type(r) is DataShape and len(p) > 1:
            if type(p[0]) is not Fixed or p[0].val != len(x):
                return 'the leading dimension of %s' % describe(r)
        elif type(unwrap(r)) is ct.Tuple:
            t = unwrap(r).dshapes
            if len(t) != len(x) or not all(nat_eq(a, discover(b)) for a, b in zip(t, x)):
                return 'the tuple %s' % describe(r)
        else:
            return 'gives %s' % describe(r)
    if isinstance(x, dict):
        keys = list(x) if isinstance(x, OrderedDict) else sorted(x)
        if type(r) is not Record or list(r.names) != keys or \
                not all(nat_eq(t, discover(x[k])) for k, t in zip(keys, r.types)):
            return 'gives %s' % describe(r)
    want = model(x)
    if not nat_eq(r, want):
        return 'gives %s, not %s' % (describe(r), describe(want))


PIECES = ['0', '1', '12', '31', '99', '2014', '20140101', '1e5', '.', ',', ':', '-', '/', 'T', 'Z', '+',
          ' ', 'am', 'PM', 'jan', 'Feb', 'Monday', 'UTC', 'EST', 'day', 'days', 'ns', 'Y', 'h', 'M', 'W',
          's', 'year', 'weeks', 'nan', 'inf', 'NaT', 'e', '_', 'x', '\x00', '\n', '\t', 'é', '٣', '²',
          '½', '\ud800', '𝟙', '(', ')', '+3', '-00:00', 'a', 'of', 'st', 'nd', 'th', 'm', 'minute', '0x10',
          '1j', 'True', 'false', 'null', '999999999999999999999', '1e400', '::', 'T12', '24:00',
          '12:60:60.1234567', 'W01-1', '0000', '9999', '\u2003', '\xa0', 'd', 'D', '1e30', '-1']


def c09_strings(rng, tier):
    for a in PIECES:
        yield (repr(a),)
        for u in gen.UNITS + ('days', 'years', 'fortnights', 'x', ''):
            for sp in (' ', '  ', '\t'):
                yield (repr(a + sp + u),)
    for b in ['9' * 30, '1e400 D', '9' * 25 + ' Y', '0:0' + '9' * 40 + 'm', '1' * 5000, ' ' * 50, '-' * 9,
              'Ø', '9' * 400 + ' days', '-1e300 ns', 'nan days', 'inf s', '1 2 3', '1.0 days']:
        yield (repr(b),)
    for _ in range(N(tier, 12000)):
        k = rng.randint(1, 7)
        if rng.random() < .8:
            s = ''.join(rng.choice(PIECES) for _ in range(k))
        else:
            s = ''.join(chr(rng.choice([rng.randint(0, 127), rng.randint(0, 0x2fff),
                                        rng.randint(0, 0x10ffff)])) for _ in range(k))
        yield (repr(s),)


@check('C09', c09_strings)
def any_string(s):
    r = discover(s)
    if not isinstance(r, Mono):
        return 'gives %r' % (r,)
    for c in ([s], (s, s)):
        r2 = discover(c)
        if not nat_eq(r2, DataShape(Fixed(len(c)), r)):
            return 'in a list gives %s' % describe(r2)
    r3 = discover({'k': s})
    if not nat_eq(r3, Record([('k', r)])):
        return 'in a mapping gives %s' % describe(r3)


# ---------------------------------------------------------------------- C18
def graphs(rng, tier):
    # every graph of up to three nodes
    for n in (0, 1, 2, 3):
        pairs_ = [(i, j) for i in range(n) for j in range(n)]
        for bits in range(2 ** len(pairs_)):
            if n == 3 and tier == 'quick' and bits % 2:
                continue
            es = [p for k, p in enumerate(pairs_) if bits >> k & 1]
            yield ('{%s}' % ', '.join('%d: (%s)' % (i, ''.join('%d, ' % j for a, j in es if a == i))
                                      for i in range(n)),)
    for n in (20, 90):
        chain_ = ['%d: [%d]' % (i, i + 1) for i in range(n)]
        for es in (chain_, chain_[::-1], chain_ + ['%d: [0]' % n], chain_ + ['%d: [%d]' % (n, n // 2)],
                   ['0: list(range(1, %d))' % n], ['%d: [0]' % i for i in range(1, n)],
                   ['%d: list(range(%d, %d))' % (i, i + 1, n) for i in range(n)],
                   ['%d: [%d, %d]' % (i, 2 * i + 1, 2 * i + 2) for i in range(n // 2)],
                   ['%d: [%d]' % (i, (i + 2) % n) for i in range(n)]):
            yield ('{%s}' % ', '.join(es),)
    for _ in range(N(tier, 2500)):
        n = rng.randint(1, 8)
        order = list(range(n))
        rng.shuffle(order)
        d = {}
        dag = rng.random() < .7
        for i in range(n):
            js = [order[k] for k in (range(i + 1, n) if dag else range(n)) if rng.random() < .3]
            if not js and rng.random() < .4:
                continue
            d[order[i]] = js
        names = rng.random() < .3
        f = (lambda v: repr('n%d' % v)) if names else repr
        br = rng.choice(['[%s]', 'set([%s])', 'tuple([%s])'])
        yield ('{%s}' % ', '.join('%s: %s' % (f(k), br % ', '.join(f(v) for v in vs))
                                  for k, vs in d.items()),)


def nodes(d):
    return set(d) | {v for k in d for v in d[k]}


def reach(d, x):
    seen, todo = {x}, [x]
    while todo:
        for v in d.get(todo.pop(), ()):
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


@check('C18', graphs)
def toposort(d):
    before = repr(d)
    exc, r = raises(internal_utils._toposort, d)
    if repr(d) != before:
        return 'changes the graph'
    cyc = any(k in reach(d, v) for k in d for v in d[k])
    if cyc:
        if not isinstance(exc, ValueError):
            return 'a cyclic graph gives %r' % (exc or r,)
        return
    if exc is not None:
        return 'raised %r' % exc
    if len(r) != len(set(r)) or set(r) != nodes(d):
        return 'returns %r' % (r,)
    pos = {v: k for k, v in enumerate(r)}
    if any(pos[k] >= pos[v] for k in d for v in d[k]):
        return 'an edge points backward in %r' % (r,)


@check('C18', graphs)
def reversed_(d):
    before = repr(d)
    r = internal_utils.reverse_dict(d)
    if repr(d) != before:
        return 'changes the graph'
    want = sorted([(str(v), str(k)) for k in d for v in d[k]])
    got = sorted([(str(a), str(b)) for a in r for b in r[a]])
    if got != want or any(not r[a] for a in r):
        return 'gives %r' % (r,)


@check('C18', graphs)
def closure(d):
    before = repr(d)
    for x in sorted(nodes(d), key=str) + ['nowhere']:
        exc, r = raises(discovery.descendents, d, x)
        if exc is not None:
            return 'from %r raised %r' % (x, exc)
        if set(r) != reach(d, x) or len(r) != len(set(r)):
            return 'from %r gives %r' % (x, r)
    if repr(d) != before:
        return 'changes the graph'


class Key(object):
    """Keys that cannot be ordered."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Key) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Key(%r)' % self.v


def sequences(rng, tier):
    for _ in range(N(tier, 1500)):
        n = rng.randint(0, 12)
        yield ('[%s]' % ', '.join(rng.choice(['0', '1', '2', '3', '4', 'None', '"a"', '1.5', '()', '[]',
                                              '{}', 'True', 'float(7)', '[0]']) for _ in range(n)),
               repr(rng.randint(0, 4)))
    yield ('[]', '0')
    for n in (50, 300):
        for k in '01234':
            yield ('[(i * 7) %% 11 for i in range(%d)]' % n, k)
            yield ('list(range(%d))' % n, k)


KEYS = [lambda x: repr(x), lambda x: bool(x), lambda x: None, lambda x: type(x),
        lambda x: Key(len(repr(x)) % 3)]


@check('C18', sequences)
def grouping(l, k):
    f = KEYS[k]
    calls = []

    def key(x):
        calls.append(x)
        return f(x)
    before = list(l)
    for src in (l, iter(list(l)), tuple(l)):
        del calls[:]
        r = internal_utils.groupby(key, src)
        if len(l) != len(before) or any(a is not b for a, b in zip(l, before)):
            return 'changes the sequence'
        want = []
        for x in before:
            for q, items in want:
                if q == f(x):
                    items.append(x)
                    break
            else:
                want.append((f(x), [x]))
        if len(r) != len(want):
            return 'gives %r' % (r,)
        for q, items in want:
            if q not in r or len(r[q]) != len(items) or \
                    any(a is not b for a, b in zip(r[q], items)):
                return 'gives %r' % (r,)


@check('C18', sequences)
def removal(l, k):
    preds = [lambda x: bool(x), lambda x: 1 if x else 0, lambda x: x if x else None,
             lambda x: type(x) is int, lambda x: True]
    p = preds[k]
    want = [x for x in l if not p(x)]
    for src in (l, iter(list(l)), tuple(l)):
        got = list(internal_utils.remove(p, src))
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            return 'gives %r' % (got,)


# ---------------------------------------------------------------------- C21
V_LEAF = [('int64', ['5', 'True', '2.5', '"a"', 'None', 'np.int64(3)', 'np.int32(3)']),
          ('int32', ['5', 'np.int32(3)', '2.5']), ('float64', ['2.5', '5', 'np.float64(1)', '"x"']),
          ('string', ['"a"', '5', '""', 'None', 'b"x"']), ('date_', ['datetime.date(2000, 1, 1)', '5']),
          ('datetime_', ['datetime.datetime(2000, 1, 1)', 'datetime.date(2000, 1, 1)', '"x"']),
          ('time_', ['datetime.time(1, 2)', '5', 'datetime.date(2000, 1, 1)']),
          ('bool_', ['True', '5', '2.5']), ('String(5)', ['"a"', '5']),
          ('DateTime("UTC")', ['datetime.datetime(2000, 1, 1)']), ('float32', ['np.float32(1)', '2.5']),
          ('complex128', ['2.5', '"q"']), ('uint8', ['np.uint8(3)', '5'])]
GOOD = {'int64': ['5', '-1', '0', 'np.int64(3)'], 'float64': ['2.5', '0.0'], 'string': ['"a"', '""'],
        'date_': ['datetime.date(2000, 1, 1)'], 'datetime_': ['datetime.datetime(2000, 1, 1)'],
        'time_': ['datetime.time(1, 2)', 'datetime.time(0)'], 'bool_': ['True', 'False'],
        'int32': ['np.int32(0)']}
BAD = ['None', '5', '2.5', '"a"', 'datetime.date(2000, 1, 1)', '[]', '{}', '(1, 2)', '[[1]]', '""', '0',
       'object()', 'b"x"', 'datetime.time(0)', '{"a": 5}', '[5, 5, 5]']


V_NAMES = ['a', 'b', 'c', 'A', 'B', 'C', 'a ', 'True', '0']


def schema_value(rng, d):
    """A schema and a value that follows it (as expressions)."""
    k = rng.choice(['leaf', 'rec', 'dim', 'dim']) if d else 'leaf'
    if k == 'leaf':
        t = rng.choice(list(GOOD))
        return [], t, lambda: rng.choice(GOOD[t])
    if k == 'rec':
        fs = [(n, schema_value(rng, d - 1)) for n in rng.sample(V_NAMES, rng.randint(0, 3))]
        t = 'Record([%s])' % ', '.join('(%r, %s)' % (n, whole(s)) for n, s in fs)

        def val():
            if rng.random() < .6:
                l = list(fs)
                rng.shuffle(l)
                d = ['%r: %s' % (n, s[2]()) for n, s in l]
                if rng.random() < .4:
                    other = [n for n in V_NAMES if n not in dict(fs)] + [1, None]
                    d.insert(rng.randint(0, len(d)), '%r: %s' % (rng.choice(other), rng.choice(
                        BAD + ['"a"', '5', '2.5'])))
                return '{%s}' % ', '.join(d)
            return rng.choice(['[%s]', '(%s)']) % ''.join(s[2]() + ', ' for n, s in fs)
        return [], t, val
    dims, t, f = schema_value(rng, d - 1)
    n = rng.choice([None, 0, 1, 2, 3])

    def val():
        m = rng.randint(0, 3) if n is None else n
        return rng.choice(['[%s]', '(%s)']) % ''.join(f() + ', ' for _ in range(m))
    return ['var' if n is None else 'Fixed(%d)' % n] + dims, t, val


def whole(s):
    return 'DataShape(%s)' % ', '.join(s[0] + [s[1]])


def damage(rng, v):
    """A value that differs somewhere."""
    import re
    r = rng.random()
    items = list(re.finditer(r'"a"|""|2\.5|(?<![\w.])5|-1|(?<![\w.])0(?![\w.])|True|False|'
                             r'datetime\.\w+\([^()]*\)|np\.\w+\(\d\)', v))
    if not items or r < .1:
        return rng.choice(BAD)
    m = rng.choice(items)
    names = list(re.finditer(r"'[^']*'(?=: )", v))
    if names and rng.random() < .2:
        m = rng.choice(names)
        return v[:m.start()] + repr(rng.choice(V_NAMES)) + v[m.end():]
    if r < .3:
        return v[:m.end()] + ', ' + m.group(0) + v[m.end():]
    if r < .4 and v[m.end():m.end() + 2] == ', ':
        return v[:m.start()] + v[m.end() + 2:]
    return v[:m.start()] + rng.choice(BAD) + v[m.end():]


def c21(rng, tier):
    for t, vs in V_LEAF:
        for v in vs:
            yield (t, v)
            yield ('DataShape(%s)' % t, v)
        for v in BAD:
            yield (t, v)
    for n in (300, 5000, 70000):
        for m in (n, n - 1, n + 1):
            yield ('DataShape(Fixed(%d), int64)' % n, '[1] * %d' % m)
        for i in (n - 1, n // 2):
            yield ('DataShape(Fixed(%d), int64)' % n, '[1] * %d + ["a"] + [1] * %d' % (i, n - i - 1))
            yield ('DataShape(var, int64)', '[1] * %d + ["a"] + [1] * %d' % (i, n - i - 1))
    wide = ', '.join('("f%d", int64)' % i for i in range(300))
    for k in range(295, 302):
        yield ('Record([%s])' % wide, '{"f%%d" %% i: 1 for i in range(%d)}' % k)
        yield ('Record([%s])' % wide, '[1] * %d' % k)
    for _ in range(N(tier, 5000)):
        s = schema_value(rng, rng.randint(0, 3))
        e = whole(s) if rng.random() < .7 or s[0] else s[1]
        v = s[2]()
        k = rng.choice([0, 0, 1, 1, 2])
        for _ in range(k):
            v = damage(rng, v)
        yield (e, v)


BASE = (np.generic, int, float, str)


def follows(s, v):
    import datetime as D
    if type(s) is DataShape:
        p = norm_ds(s)
        if len(p) == 1:
            return follows(p[0], v)
        if not isinstance(v, (list, tuple)):
            return False
        if type(p[0]) is Var or type(p[0]) is Fixed and p[0].val == len(v):
            return all(follows(DataShape(*p[1:]), x) for x in v)
        return False
    if type(s) is Record:
        f = s._parameters[0]
        if isinstance(v, dict):
            return all(follows(t, v.get(n)) for n, t in f)
        if isinstance(v, (list, tuple)):
            return len(v) == len(f) and all(follows(t, x) for (_, t), x in zip(f, v))
        return False
    if type(s) is ct.CType:
        return isinstance(v, BASE) and np.issubdtype(
            type(v), np.dtype(COMPLEX.get(s.name, s.name)))
    if type(s) is ct.String:
        return isinstance(v, str)
    if type(s) is ct.Date:
        return isinstance(v, D.date)
    if type(s) is ct.Time:
        return isinstance(v, D.time)
    if type(s) is ct.DateTime:
        return isinstance(v, D.datetime)
    raise Skip


from .p_types import COMPLEX


def well_formed(v):
    return True


@check('C21', c21)
def values(schema, value):
    want = follows(schema, value)
    before = snap(schema)
    exc, r = raises(user.validate, schema, value)
    if snap(schema) != before:
        return 'changes the schema'
    if exc is not None:
        return 'raised %r' % exc
    if bool(r) is not bool(want):
        return 'is %r' % (r,)


@check('C21', chain(c21))
def schemas_of_all_kinds(schema, value):
    """Strings, types and tuples of schemas."""
    want = follows(schema, value)
    _, r = raises(user.validate, schema, value)
    others = [(datashape.coretypes.json, False), (str, isinstance(value, str)),
              (dict, isinstance(value, dict)), (list, isinstance(value, list)),
              (int, isinstance(value, int))]
    if bool(user.validate((), value)):
        return 'the empty tuple accepts it'
    for o, w in others:
        for t in ((o, schema), (schema, o)):
            if bool(user.validate(t, value)) is not bool(want or w):
                return 'a tuple of schemas: %r' % (user.validate(t, value),)
        if bool(user.validate((o,), value)) is not w or bool(user.validate(o, value)) is not w:
            return 'the schema %s: %r' % (describe(o), user.validate(o, value))
    s = str(schema)
    exc, r2 = raises(user.validate, s, value)
    if exc is None and bool(r2) is not bool(want):
        return 'the schema as a string: %r' % (r2,)


@check('C21', pairs(quick=3000, depth=2))
def subschemas(a, b):
    from .p_types import bad_ellipsis
    if bad_ellipsis(a) or bad_ellipsis(b) or type(a) in (Fixed, Var, Ellipsis) or \
            type(b) in (Fixed, Var, Ellipsis):
        raise Skip
    exc, r = raises(user.issubschema, DataShape(*norm_ds(a)), DataShape(*norm_ds(b)))
    if exc is not None or bool(r) is not nat_eq(a, b):
        return 'is %r' % (exc or r,)


@check('C21', from_list([('"int32"', '"int32"', 'True'), ('"int32"', '"int64"', 'False'),
                         ('"3 * int32"', '"3 * int32"', 'True'), ('"var * int32"', '"3 * int32"', 'False'),
                         ('"{a: int32}"', '"{a: int32, b: int32}"', 'False'),
                         ('"3 * int32"', 'DataShape(Fixed(3), int32)', 'True'),
                         ('"3 * int32"', 'int32', 'False'), ('int32', '"int32"', 'True')]))
def subschemas_of_strings(a, b, want):
    if bool(user.issubschema(a, b)) is not want:
        return 'is %r' % (user.issubschema(a, b),)


@check('C21', from_list([('DataShape(Fixed(3), int64)', 'np.arange(3)', 'True'),
                         ('DataShape(Fixed(4), int64)', 'np.arange(3)', 'False'),
                         ('DataShape(Fixed(3), int32)', 'np.arange(3)', 'False'),
                         ('DataShape(Fixed(2), Fixed(3), float64)', 'np.zeros((2, 3))', 'True'),
                         ('DataShape(Fixed(3), Fixed(2), float64)', 'np.zeros((2, 3))', 'False')]))
def arrays(schema, x, want):
    if bool(user.validate(schema, x)) is not want:
        return 'is %r' % (user.validate(schema, x),)
