"""Inputs for the bounded part of the checks, as Python expressions: every
reported input can be pasted into an interpreter."""
import random

NS = {}


def namespace():
    if NS:
        return NS
    import datetime
    import numpy as np
    import datashape
    from datashape import coretypes, typesets, lexer, error, internal_utils, discovery
    from collections import OrderedDict
    for n in ('DataShape Record Fixed Var TypeVar Ellipsis Null Date Time DateTime TimeDelta '
              'Units Bytes String Decimal Option CType Function Map Categorical Tuple JSON '
              'int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 '
              'complex64 complex128 bool_ char string date_ time_ datetime_ null var json '
              'bytes_ void object_ to_numpy from_numpy pprint Mono Type').split():
        NS[n] = getattr(coretypes, n)
    for n in ('TypeSet maxtype supertype matches_typeset boolean complexes floating integral '
              'signed unsigned numeric scalar').split():
        NS[n] = getattr(typesets, n)
    NS.update(datashape=datashape, coretypes=coretypes, typesets=typesets, np=np,
              datetime=datetime, OrderedDict=OrderedDict, nan=float('nan'), inf=float('inf'),
              dshape=datashape.dshape)
    return NS


class Unbuildable(Exception):
    pass


def build(expr):
    try:
        return eval(expr, namespace())
    except Exception as e:
        raise Unbuildable('%s: %s: %s' % (expr, type(e).__name__, e))


PRIMS = ('bool_ int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 '
         'complex64 complex128').split()
UNITS = ('ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y')
LEAVES = PRIMS + [
    'date_', 'time_', 'datetime_', 'null', 'string', 'json', 'bytes_', 'char', 'object_', 'void',
    'Time("UTC")', 'DateTime("America/New_York")', 'DateTime("UTC")', 'TimeDelta("s")',
    'TimeDelta("us")', 'TimeDelta("D")',
    'String(5)', 'String(0)', 'String(7, "A")', 'String("U16")', 'String("U32")', 'String(5, "U32")',
    'Decimal(5)', 'Decimal(7, 2)', 'Decimal(18)', 'Decimal(19)', 'Decimal(2)', 'Decimal(3)',
    'Units("second")', 'Units("meter", DataShape(float32))',
    'Units("m", DataShape(Fixed(3), float64))', 'TypeVar("T")', 'TypeVar("Tee")',
    'Categorical(["a", "b"], type=string, ordered=True)',
    'Categorical(["a", "b"], type=string)', 'Categorical([1, 2, 3], type=int64)',
    'Categorical(["b", "a"], type=string)', 'Categorical([1.0, 2.0, 3.0], type=int64)',
    'Categorical([True, 2], type=int64)', 'Categorical([1, 2.0], type=int64)',
]
DIMS = ['Fixed(0)', 'Fixed(1)', 'Fixed(3)', 'Fixed(5)', 'var', 'TypeVar("N")', 'TypeVar("M")',
        'Ellipsis()', 'Ellipsis(TypeVar("A"))', 'Fixed(10)']
NAMES = ['a', 'b', 'c', 'name', 'x', 'True', 'a b', '', "q'", 'x"y', 'f0', '1a', 'int32', 'é',
         'back\\slash', 'new\nline', 'TrueX', 'var', '_', 'A', 'tab\t']


class Gen:
    def __init__(self, rng, leaves=None, dims=None, names=None, kinds=None, parsable=False):
        self.rng = rng
        self.leaves = leaves or LEAVES
        self.dims = dims or DIMS
        self.names = names or NAMES
        self.kinds = kinds or ('rec', 'tup', 'opt', 'map', 'fun', 'units')

    def leaf(self):
        return self.rng.choice(self.leaves)

    def dim(self):
        return self.rng.choice(self.dims)

    def measure(self, depth):
        """A measure that is not a DataShape."""
        r = self.rng
        if depth <= 0 or r.random() < 0.35:
            return self.leaf()
        k = r.choice(self.kinds)
        if k == 'rec':
            n = r.choice([0, 1, 1, 2, 2, 3])
            names = r.sample(self.names, min(n, len(self.names)))
            return 'Record([%s])' % ', '.join(
                '(%r, %s)' % (nm, self.any(depth - 1)) for nm in names)
        if k == 'tup':
            return 'Tuple([%s])' % ', '.join(self.any(depth - 1)
                                             for _ in range(r.choice([0, 1, 2, 2, 3])))
        if k == 'opt':
            return 'Option(%s)' % self.any(depth - 1)
        if k == 'map':
            return 'Map(%s, %s)' % (self.any(depth - 1), self.any(depth - 1))
        if k == 'fun':
            return 'Function(%s)' % ', '.join(self.ds(depth - 1)
                                              for _ in range(r.choice([1, 1, 2, 3])))
        if k == 'cat':
            return 'Categorical([%s], type=%s)' % (', '.join(
                repr(r.choice(['a', 'b', 'c', 1, 2])) for _ in range(r.randint(0, 3))),
                self.leaf())
        return 'Units(%r, %s)' % (r.choice(['m', 'second']), self.ds(depth - 1))

    def ds(self, depth, maxdim=3):
        """A DataShape."""
        n = self.rng.choice([0, 1, 1, 2, 2, 3][:2 * maxdim] or [0])
        return 'DataShape(%s)' % ', '.join([self.dim() for _ in range(n)] + [self.measure(depth)])

    def any(self, depth):
        return self.ds(depth) if self.rng.random() < 0.5 else self.measure(depth)

    def mutate(self, e):
        """A structurally close expression."""
        import re
        r = self.rng
        sites = [m for m in re.finditer(
            r'\b(%s)\b|Fixed\((\d+)\)|TypeVar\("(\w+)"\)|\bvar\b' % '|'.join(PRIMS), e)]
        if not sites:
            return self.any(2)
        m = r.choice(sites)
        t = m.group(0)
        if t in PRIMS:
            new = r.choice([p for p in PRIMS if p != t] + ['string', 'Option(%s)' % t])
        elif t.startswith('Fixed'):
            new = r.choice(['Fixed(%d)' % (int(m.group(2)) + 1), 'var', 'TypeVar("N")'])
        elif t == 'var':
            new = r.choice(['Fixed(3)', 'TypeVar("N")'])
        else:
            new = 'TypeVar("%sx")' % m.group(3)
        return e[:m.start()] + new + e[m.end():]


def small():
    """Every class of datashape, in a few shapes each."""
    out = list(LEAVES)
    out += ['DataShape(%s)' % m for m in LEAVES[:20] + LEAVES[-8:]]
    out += ['DataShape(%s, %s)' % (d, m) for d in DIMS
            for m in ('int32', 'string', 'Option(int32)', 'TypeVar("T")')]
    out += ['DataShape(%s, %s, float64)' % (a, b) for a in DIMS for b in DIMS[2:8]]
    inner = ['int32', 'DataShape(int32)', 'DataShape(Fixed(3), int32)', 'DataShape(var, string)',
             'Option(int32)', 'DataShape(Ellipsis(), int32)', 'DataShape(TypeVar("N"), int64)',
             'Record([("a", int32)])', 'Tuple([int32])', 'TypeVar("T")']
    for x in inner:
        out += ['Option(%s)' % x, 'Record([("a", %s)])' % x, 'Record([("b", %s)])' % x,
                'Record([("a", %s), ("b", string)])' % x, 'Record([("b", string), ("a", %s)])' % x,
                'Tuple([%s])' % x, 'Tuple([%s, int64])' % x, 'Map(string, %s)' % x,
                'Map(%s, int32)' % x, 'Function(DataShape(%s), DataShape(int32))' % x,
                'DataShape(Fixed(5), Record([("a", %s), ("b", float32)]))' % x,
                'DataShape(var, Tuple([string, %s]))' % x,
                'Units("m", DataShape(%s))' % x]
    out += ['Record([])', 'Tuple([])', 'Function(DataShape(int32))', 'Option(Option(int32))',
            'DataShape(Option(DataShape(Fixed(2), int32)))',
            'Map(Record([("k", int32)]), Tuple([int32, int64]))']
    seen = set()
    return [e for e in out if not (e in seen or seen.add(e))]
