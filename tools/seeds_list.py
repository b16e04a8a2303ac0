SEEDS = []


def bug(id, property, file, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, file='datashape/' + file, edits=edits, demo=demo,
                      needs=needs, breaks=breaks))


bug('c04-subarray-bound', 'C04', 'coretypes.py',
    [('        if leading >= len(self.parameters):\n', '        if leading > len(self.parameters):\n')],
    '''
from datashape import dshape
for s, k in (('3 * 5 * int32', 3), ('int32', 1), ('var * {x: int32}', 2)):
    try:
        dshape(s).subarray(k)
    except IndexError:
        continue
    except Exception as e:
        raise SystemExit('%s.subarray(%d) raised %r' % (s, k, e))
    raise SystemExit('%s.subarray(%d) was accepted' % (s, k))
''', 'dropping exactly one dimension more than there are',
    'subarray(n + 1) raises ValueError instead of IndexError')

bug('c05-list-index', 'C05', 'coretypes.py',
    [('            return len(index) * self.subarray(1)\n', '            return len(set(index)) * self.subarray(1)\n')],
    '''
from datashape import dshape
assert dshape('10 * int32').subshape[[3, 3, 4]] == dshape('3 * int32')
''', 'a list index that names an element twice', 'fancy indexing counts repeated elements once')

bug('c05-field-order', 'C05', 'coretypes.py',
    [("            return DataShape(Record([rec.parameters[0][i] for i in index]))\n",
      "            return DataShape(Record([rec.parameters[0][i] for i in sorted(index)]))\n")],
    '''
from datashape import dshape
ds = dshape('{a: int32, b: string, c: float64}')
assert ds.subshape[['b', 'a']] == dshape('{b: string, a: int32}')
assert ds.subshape[[-1, 0]] == dshape('{c: float64, a: int32}')
''', 'fields selected in another order than the one they are declared in', 'the selected fields come in the order of the record')

bug('c19-column', 'C19', 'error.py',
    [("        linestart = text.rfind('\\n', 0, lexpos)\n",
      "        linestart = text.rfind('\\n', 0, lexpos + 1)\n")],
    '''
from datashape.error import DataShapeSyntaxError
t = 'ab\\ncd\\nef'
for p in range(len(t) + 1):
    e = DataShapeSyntaxError(p, 'f', t)
    n = t.count('\\n', 0, p)
    assert e.lineno == n + 1, p
    assert e.line == t.split('\\n')[n], (p, e.line)
    assert e.col_offset == p - (t.rfind('\\n', 0, p) + 1), p
    str(e)
''', 'an error exactly at a line break', 'line and column of an error at the end of a line are those of the next line')

bug('c22-typeset-replaced', 'C22', 'typesets.py',
    [("        if name in self.registry:\n", "        if self.lookup(name):\n")],
    '''
from datashape.typesets import TypesetRegistry, TypeSet
from datashape import int8
r = TypesetRegistry()
empty = TypeSet()
r.register_typeset('nothing', empty)
try:
    r.register_typeset('nothing', TypeSet(int8))
except TypeError:
    pass
assert r.registry['nothing'] is empty
''', 'an empty type set, which is false, registered under the name',
    'a second registration silently replaces an empty type set')


bug('c15-isfixed-last-field', 'C15', 'predicates.py',
    [("        return all(map(isfixed, ds[0].types))\n", "        return all(isfixed(t) is not False for t in ds[0].types)\n")],
    '''
from datashape import dshape, isfixed
assert not isfixed(dshape('{a: 3 * int32, b: N * int32}'))
assert isfixed(dshape('{a: 3 * int32}'))
''', 'a record field whose leading dimension is a type variable', 'isfixed is true with a type variable dimension in a field')

bug('c06-decimal-18', 'C06', 'coretypes.py',
    [("            elif self.precision <= 9:\n", "            elif self.precision <= 10:\n")],
    '''
from datashape import Decimal
import numpy as np
for p in range(1, 19):
    assert np.iinfo(Decimal(p).to_numpy_dtype()).max >= 10 ** p - 1, p
''', 'a decimal of precision 10', 'decimals of ten digits overflow the int32 they map to')


bug('c21-record-missing', 'C21', 'user.py',
    [("    return all(validate(sch, d.get(k)) for k, sch in schema.parameters[0])\n",
      "    return all(validate(sch, d[k]) for k, sch in schema.parameters[0] if k in d)\n")],
    '''
from datashape import dshape
from datashape.user import validate
assert validate(dshape('{a: string, b: string}'), {'a': 'x', 'b': 'y'})
assert not validate(dshape('{a: string, b: string}'), {'a': 'x'})
''', 'a mapping that lacks a field of the record', 'incomplete mappings validate against a record')


bug('c10-null-record', 'C10', 'discovery.py',
    [("        return len(dshapes) * null\n", "        return len(set(dshapes)) * null\n")],
    '''
from datashape import discover, dshape, null
from datashape.discovery import unite_base
assert unite_base([null, null, null]) == dshape('3 * null'), unite_base([null, null, null])
''', 'a column that has only nulls', 'the leading dimension of an all-null column is wrong')

bug('c02-option-state', 'C02', 'coretypes.py',
    [("            for slot, val in zip(self.__slots__, state):\n                setattr(self, slot, val)\n",
      "            for slot, val in zip(self.__slots__, state):\n                setattr(self, slot, val or None)\n")],
    '''
import pickle
from datashape import Fixed, Decimal, dshape, Categorical, string
for x in (Fixed(0), Decimal(5), dshape('0 * int32'), Categorical(['a'], type=string)):
    y = pickle.loads(pickle.dumps(x, 2))
    assert y == x and type(y) is type(x) and y.parameters == x.parameters, x
''', 'a parameter that is zero or false', 'zero-sized dimensions and zero scales are lost in a pickle')



bug('c08-length-order', 'C08', 'typesets.py',
    [("        return len(self._set)\n", "        return len(self._order)\n")],
    '''
from datashape.typesets import signed, integral
assert len(signed | integral) == len(integral) == 8
''', 'a union of type sets that overlap', 'the length of a type set counts repeated members')

bug('c20-repeated', 'C20', 'util/__init__.py',
    [("    for ds in dslist[1:]:\n", "    for ds in set(dslist[1:]):\n")],
    '''
from datashape import dshape
from datashape.util import cat_dshapes
assert cat_dshapes([dshape('3 * int32'), dshape('2 * int32'), dshape('2 * int32')]) == dshape('7 * int32')
''', 'three inputs of which the last two are equal', 'equal inputs are counted once')

bug('c18-partial-cycle', 'C18', 'internal_utils.py',
    [("    if any(incoming_edges.get(v) for v in edges):\n", "    if any(incoming_edges.get(v) for v in L) or edges and not L:\n")],
    '''
from datashape.internal_utils import _toposort
for g in ({'a': ['b'], 'b': ['a']}, {'x': ['a'], 'a': ['b'], 'b': ['a']}):
    try:
        r = _toposort(g)
    except ValueError:
        continue
    raise SystemExit('sorted %r as %r' % (g, r))
''', 'a cycle in a graph that also has a source', 'a cyclic graph is sorted without its cycle')

bug('c17-function-arity', 'C17', 'util/testing.py',
    [("    assert len(a.argtypes) == len(b.argtypes),\\\n", "    assert len(a.argtypes) <= len(b.argtypes),\\\n")],
    '''
from datashape import Function, DataShape, int32, float64
from datashape.util.testing import assert_dshape_equal
a, b = Function(int32, float64), Function(int32, int32, float64)
for x, y in ((a, b), (b, a)):
    try:
        assert_dshape_equal(x, y)
    except AssertionError:
        continue
    raise SystemExit('%s passes for %s' % (x, y))
''', 'functions of which the first has fewer arguments, the others equal', 'functions of different arity compare as equal')

bug('c23-alias', 'C23', 'coretypes.py',
    [("    u'utf_32': u'U32',\n", "    u'utf_32': u'U16',\n")],
    '''
from datashape import String
assert String('utf_32').encoding == String(3, 'utf-32').encoding == 'U32'
''', 'one of the sixteen spellings', 'an alias of one encoding is stored as another')

bug('c13-zero-length', 'C13', 'coretypes.py',
    [("        if self.fixlen is None and self.encoding == 'U8':\n", "        if not self.fixlen and self.encoding == 'U8':\n")],
    '''
from datashape import dshape
assert dshape(str(dshape('string[0]'))) == dshape('string[0]')
''', 'a string of fixed length zero', 'a zero-length string prints as one of any length')

bug('c09-ragged-middle', 'C09', 'discovery.py',
    [("            if len(set(dims)) == 1:\n", "            if dims[0] == dims[-1]:\n")],
    '''
from datashape import discover, dshape
assert discover([[1.0], [2.0, 3.0], [4.0]]) == dshape('3 * var * float64')
''', 'ragged rows of which the first and the last have the same length', 'a ragged list is discovered as rectangular')

bug('c14-named', 'C14', 'validation.py',
    [("        ellipses = [x for x in ds.parameters if isinstance(x, T.Ellipsis)]\n",
      "        ellipses = [x for x in ds.parameters if x == T.Ellipsis()]\n")],
    '''
from datashape import dshape
for s in ('A... * B... * int32', '{x: A... * 3 * ... * int32}'):
    try:
        r = dshape(s)
    except TypeError:
        continue
    raise SystemExit(str(r))
''', 'ellipses that have a name', 'two ellipses are accepted if at most one of them is anonymous')

bug('c01-hash-repr', 'C01', 'coretypes.py',
    [("            h = self._hash = hash(self.shape) ^ hash(self.measure.info())\n",
      "            h = self._hash = hash(self.shape) ^ hash(repr(self.measure.info()))\n")],
    '''
from datashape import Categorical, int64
a, b = Categorical([1, 2], type=int64), Categorical([1.0, 2.0], type=int64)
assert (a == b) <= (hash(a) == hash(b))
''', 'equal parameters that print differently, such as 1 and 1.0', 'equal datashapes have different hashes')

bug('c16-collect-once', 'C16', 'util/__init__.py',
    [("        return chain.from_iterable(collect(pred, typ) for typ in expr.types)\n",
      "        return chain.from_iterable(collect(pred, typ) for typ in dict.fromkeys(expr.types))\n")],
    '''
from datashape import dshape, Fixed
from datashape.util import collect
r = list(collect(lambda t: isinstance(t, Fixed), dshape('{a: 3 * int32, b: 3 * int32}')))
assert len(r) == 2, r
''', 'a record with two fields of the same type', 'a repeated field type is visited once')

bug('c12-equals-field', 'C12', 'parser.py',
    [("        if self.tok.id != lexer.COLON:\n", "        if self.tok.id not in (lexer.COLON, lexer.EQUAL):\n")],
    '''
from datashape import dshape
try:
    r = dshape('{x = int32}')
except Exception:
    pass
else:
    raise SystemExit(str(r))
''', 'an equal sign in the place of the colon of a field', 'text outside of the grammar is accepted')

bug('c11-name-digits', 'C11', 'lexer.py',
    [("    ('NAME_OTHER', r'_[a-zA-Z0-9_]*', lambda x : x),\n", "    ('NAME_OTHER', r'_[a-zA-Z_]*', lambda x : x),\n")],
    '''
from datashape import lexer
assert [t.val for t in lexer.lex('_a1b')] == ['_a1b']
''', 'a name that begins with an underscore and has a digit', 'such a name is split into several tokens')

bug('c07-result-type', 'C07', 'promote.py',
    [("        np_res_type = np.result_type(datashape.to_numpy_dtype(left),\n", "        np_res_type = np.result_type(datashape.to_numpy_dtype(getattr(lhs, 'tp', left)),\n")],
    'pass', 'x', 'x')
SEEDS.pop()

bug('c03-record-unhashed', 'C03', 'coretypes.py',
    [("            if getattr(self._parameters[-1], 'cls', MEASURE) != MEASURE:\n",
      "            if getattr(parameters[-1], 'cls', MEASURE) != MEASURE:\n")],
    '''
from datashape import DataShape, int32, var, Fixed
for args in ((var,), (Fixed(3),), (2,), (3, 4), (var, 7)):
    try:
        r = DataShape(*args)
    except TypeError:
        continue
    raise SystemExit('%r was built from %r' % (r.parameters, args))
''', 'an integer in the place of the measure', 'a datashape whose measure is a dimension is built')

bug('c18-cycle-count', 'C18', 'internal_utils.py',
    [('    if any(incoming_edges.get(v) for v in edges):\n', '    if len(L) < len(edges):\n')],
    """
from datashape.internal_utils import _toposort
try:
    r = _toposort({1: (2,), 2: (1,), 3: (4, 5, 6)})
except ValueError:
    pass
else:
    raise SystemExit('a graph with a cycle is sorted as %r' % (r,))
""", 'a cycle next to nodes that are not keys of the graph',
    'a cycle is found by counting the nodes, the leaves among them')

bug('c13-units-dims', 'C13', 'coretypes.py',
    [('        if self.tp == DataShape(float64):\n', '        if self.tp.measure == float64:\n')],
    """
from datashape import dshape
ds = dshape("units['m', 3 * float64]")
assert dshape(str(ds)) == ds, str(ds)
""", 'a unit of arrays of float64', 'the dimensions of the type of the unit are not printed')

bug('c07-mixed-sign', 'C07', 'promote.py',
    [("        np_res_type = np.result_type(datashape.to_numpy_dtype(left),\n"
      "                                     datashape.to_numpy_dtype(right))\n",
      "        pair = sorted([datashape.to_numpy_dtype(left), datashape.to_numpy_dtype(right)],\n"
      "                      key=lambda dtype: dtype.itemsize)\n"
      "        np_res_type = (pair[1] if pair[0].itemsize < pair[1].itemsize and\n"
      "                       {pair[0].kind, pair[1].kind} <= set('iu') else np.result_type(*pair))\n")],
    """
from datashape import promote, int8, uint32, int64
assert promote(int8, uint32) == int64 == promote(uint32, int8), promote(int8, uint32)
""", 'an unsigned type and a shorter signed one', 'the longer type is taken, whatever its sign')

bug('c21-other-case', 'C21', 'user.py',
    [("validate(sch, d.get(k))", "validate(sch, d.get(k) or d.get(k.lower()))")],
    """
from datashape import validate
assert validate('{A: string, a: int64}', {'A': '', 'a': 1})
assert not validate('{A: int64}', {'a': 1})
""", 'keys that differ from the name of a field in case, or with a value that is false',
    'a field is looked up under another name')

bug('c01-same-hash', 'C01', 'coretypes.py',
    [("                self.shape == other.shape and\n",
      "                (self.shape == other.shape or hasattr(self, '_hash') and\n"
      "                 len(self) == len(other) and hash(self) == hash(other)) and\n")],
    """
from datashape.coretypes import DataShape, Fixed, int32
a, b = DataShape(Fixed(0), int32), DataShape(Fixed(2**61 - 1), int32)
hash(a)
assert a != b
""", 'datashapes which have been hashed, with dimensions of the same hash', 'they compare equal')

bug('c17-sorted-case', 'C17', 'util/testing.py',
    [("        afields = sorted(afields)\n        bfields = sorted(bfields)\n",
      "        afields = sorted(afields, key=lambda field: field[0].lower())\n"
      "        bfields = sorted(bfields, key=lambda field: field[0].lower())\n")],
    """
from datashape import dshape
from datashape.util.testing import assert_dshape_equal
assert_dshape_equal(dshape('{a: int8, A: int16}'), dshape('{A: int16, a: int8}'), check_record_order=False)
""", 'record order ignored, names which differ in case only', 'the fields are paired wrongly')

bug('c06-shape-31', 'C06', 'coretypes.py',
    [("                shape.append(int(dim))\n", "                shape.append(int(dim) & 0x7fffffff)\n")],
    """
from datashape import dshape, to_numpy
assert to_numpy(dshape('3000000000 * int32'))[0] == (3000000000,)
""", 'a dimension of 2**31 elements or more', 'the size is cut to 31 bits')
