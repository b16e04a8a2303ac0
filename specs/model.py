"""What a datashape is: the vocabulary of the specifications, and the class
invariants (what every constructed object satisfies).  Independent of the
library's own predicates."""
from datashape import coretypes as ct
from datashape import typesets

DIMS = (ct.Fixed, ct.Var, ct.Ellipsis, ct.TypeVar)        # what may be a dimension
SLOTS = {
    ct.Ellipsis: ('typevar',), ct.Date: (), ct.Time: ('tz',), ct.DateTime: ('tz',),
    ct.TimeDelta: ('unit',), ct.Units: ('unit', 'tp'), ct.Bytes: (),
    ct.String: ('fixlen', 'encoding'), ct.Decimal: ('precision', 'scale'),
    ct.Option: ('ty',), ct.CType: ('name', '_itemsize', '_alignment'),
    ct.Fixed: ('val',), ct.Var: (), ct.TypeVar: ('symbol',), ct.Map: ('key', 'value'),
    ct.Categorical: ('categories', 'type', 'ordered'), ct.Tuple: ('dshapes',),
    ct.JSON: (), ct.Null: (), typesets.TypeSet: ('_order', 'name'),
}
PARAMS = (ct.DataShape, ct.Record, ct.Function)  # keep `_parameters`
UNITS = ('ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y')
ENCODINGS = ('A', 'U8', 'U16', 'U32')


def is_ds(S, x):
    """A datashape object of any class."""
    return S.isinst(x, ct.Mono)


def is_D(S, x):
    return S.cls_is(x, ct.DataShape)


def params(S, x):
    return S.fld(x, '_parameters')


def np_(S, x):
    """Number of components of a DataShape."""
    return S.len(params(S, x))


def ndim(S, x):
    return S.If(is_D(S, x), np_(S, x) - 1, 0)


def dim(S, x, i):
    return S.at(params(S, x), i)


def meas(S, x):
    return S.If(is_D(S, x), S.at(params(S, x), np_(S, x) - 1), x)


def wrapper(S, x):
    """A DataShape without dimensions."""
    return S.And(is_D(S, x), np_(S, x) == 1)


def is_dimlike(S, x):
    return S.cls_in(x, DIMS)


def is_measlike(S, x):
    """Not one of the dimensions (type variables are both)."""
    return S.And(is_ds(S, x), S.Not(S.cls_in(x, (ct.Fixed, ct.Var, ct.Ellipsis))))


def is_component(S, x):
    """What a datashape is made of: never a bare wrapper."""
    return S.And(is_ds(S, x), S.Not(wrapper(S, x)))


# ----------------------------------------------------------- class invariants
def inv_DataShape(S, x):
    p = params(S, x)
    n = S.len(p)
    return S.And(
        S.is_tuple(p), n >= 1,
        S.forall(0, n, lambda i: is_component(S, S.at(p, i))),
        S.forall(0, n - 1, lambda i: is_dimlike(S, S.at(p, i))),
        is_measlike(S, S.at(p, n - 1)))


def inv_Fixed(S, x):
    v = S.fld(x, 'val')
    return S.And(S.is_int(v), S.int(v) >= 0)


def inv_TypeVar(S, x):
    return S.is_str(S.fld(x, 'symbol'))


def inv_Ellipsis(S, x):
    return True


def inv_tz(S, x):
    return S.Or(S.is_none(S.fld(x, 'tz')), S.is_str(S.fld(x, 'tz')))


def str_in(S, x, strs):
    return S.Or(*[S.same(x, S.lit(s)) for s in strs])


def inv_TimeDelta(S, x):
    return str_in(S, S.fld(x, 'unit'), UNITS)


def inv_Units(S, x):
    return S.And(S.is_str(S.fld(x, 'unit')), is_D(S, S.fld(x, 'tp')))


def inv_String(S, x):
    return S.And(str_in(S, S.fld(x, 'encoding'), ENCODINGS),
                 S.Or(S.is_none(S.fld(x, 'fixlen')), S.is_intlike(S.fld(x, 'fixlen'))))


def inv_Decimal(S, x):
    return S.And(S.is_intlike(S.fld(x, 'precision')), S.is_intlike(S.fld(x, 'scale')))


def is_measure_component(S, x):
    return S.And(is_component(S, x), is_measlike(S, x))


def inv_Option(S, x):
    return is_measure_component(S, S.fld(x, 'ty'))


def inv_Map(S, x):
    return S.And(is_measure_component(S, S.fld(x, 'key')),
                 is_measure_component(S, S.fld(x, 'value')))


def inv_Record(S, x):
    p = params(S, x)
    f = S.at(p, 0)
    return S.And(
        S.is_tuple(p), S.len(p) == 1, S.is_tuple(f), S.len(f) >= 0,
        S.forall(0, S.len(f), lambda i: S.And(
            S.is_tuple(S.at(f, i)), S.len(S.at(f, i)) == 2,
            S.is_str(S.at(S.at(f, i), 0)),
            is_measure_component(S, S.at(S.at(f, i), 1)))),
        S.forall(0, S.len(f), lambda i: S.forall(0, S.len(f), lambda j: S.Or(
            i == j, S.Not(S.same(S.at(S.at(f, i), 0), S.at(S.at(f, j), 0)))))))


def inv_Tuple(S, x):
    d = S.fld(x, 'dshapes')
    return S.And(S.is_tuple(d), S.len(d) >= 0,
                 S.forall(0, S.len(d), lambda i: is_D(S, S.at(d, i))))


def inv_Function(S, x):
    p = params(S, x)
    return S.And(S.is_tuple(p), S.len(p) >= 0, S.forall(0, S.len(p), lambda i: S.And(
        is_ds(S, S.at(p, i)), is_measlike(S, S.at(p, i)))))


def inv_Categorical(S, x):
    return S.And(S.is_tuple(S.fld(x, 'categories')), S.is_bool(S.fld(x, 'ordered')),
                 is_measlike(S, S.fld(x, 'type')), is_component(S, S.fld(x, 'type')),
                 S.Not(S.isinst(S.fld(x, 'type'), typesets.TypeSet)))


def inv_CType(S, x):
    return S.And(S.is_str(S.fld(x, 'name')), S.is_intlike(S.fld(x, '_itemsize')),
                 S.is_intlike(S.fld(x, '_alignment')))


def inv_TypeSet(S, x):
    o = S.fld(x, '_order')
    return S.And(S.is_tuple(o), S.len(o) >= 0,
                 S.Or(S.is_none(S.fld(x, 'name')), S.is_str(S.fld(x, 'name'))),
                 S.forall(0, S.len(o), lambda i: is_ds(S, S.at(o, i))))


INV = {
    ct.DataShape: (inv_DataShape, ['_parameters']),
    ct.Fixed: (inv_Fixed, ['val']),
    ct.TypeVar: (inv_TypeVar, ['symbol']),
    ct.Time: (inv_tz, ['tz']), ct.DateTime: (inv_tz, ['tz']),
    ct.TimeDelta: (inv_TimeDelta, ['unit']),
    ct.Units: (inv_Units, ['unit', 'tp']),
    ct.String: (inv_String, ['fixlen', 'encoding']),
    ct.Decimal: (inv_Decimal, ['precision', 'scale']),
    ct.Option: (inv_Option, ['ty']),
    ct.Map: (inv_Map, ['key', 'value']),
    ct.Record: (inv_Record, ['_parameters']),
    ct.Tuple: (inv_Tuple, ['dshapes']),
    ct.Function: (inv_Function, ['_parameters']),
    ct.Categorical: (inv_Categorical, ['categories', 'type', 'ordered']),
    ct.CType: (inv_CType, ['name', '_itemsize', '_alignment']),
    typesets.TypeSet: (inv_TypeSet, ['_order', 'name']),
}
