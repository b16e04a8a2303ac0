"""Contracts of the constructors (coretypes.py)."""
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import CT, BAD, bad_measure, laundered, laundered_m, launderable, ds_acceptable


def not_tz(S, x):
    return S.Not(S.Or(S.is_none(x), S.is_str(x)))


def simple(cls, **kw):
    return Contract(CT + cls.__name__ + '.__init__', new=True, self_classes=(cls,), **kw)


def c_Time_init():
    return simple(ct.Time, defaults={'tz': None}, raises=[(TypeError, lambda S, a: not_tz(S, a.tz))],
                  ensures=lambda S, a, r: [
                      ('the time zone is stored', S.same(S.fld(a.self, 'tz'), a.tz))])


def c_DateTime_init():
    return simple(ct.DateTime, defaults={'tz': None}, raises=[(TypeError, lambda S, a: not_tz(S, a.tz))],
                  ensures=lambda S, a, r: [
                      ('the time zone is stored', S.same(S.fld(a.self, 'tz'), a.tz))])


def c_Ellipsis_init():
    return simple(ct.Ellipsis, defaults={'typevar': None}, ensures=lambda S, a, r: [
        ('the variable is stored', S.same(S.fld(a.self, 'typevar'), a.typevar))])


def c_Units_init():
    def float64(S, t):
        return S.And(is_D(S, t), np_(S, t) == 1,
                     S.same(S.at(params(S, t), 0), S.lit(ct.float64)))
    return simple(
        ct.Units, defaults={'tp': None},
        raises=[(TypeError, lambda S, a: S.Not(S.And(
            S.is_str(a.unit), S.Or(S.is_none(a.tp), is_D(S, a.tp)))))],
        ensures=lambda S, a, r: [
            ('the unit is stored', S.same(S.fld(a.self, 'unit'), a.unit)),
            ('the type is stored', S.If(S.is_none(a.tp), float64(S, S.fld(a.self, 'tp')),
                                        S.same(S.fld(a.self, 'tp'), a.tp))),
            ('class invariant', inv_Units(S, a.self))])


def c_Decimal_init():
    return simple(
        ct.Decimal, defaults={'scale': 0},
        raises=[(TypeError, lambda S, a: S.Not(S.And(S.has_index(a.precision),
                                                     S.has_index(a.scale))))],
        ensures=lambda S, a, r: [
            (n + ' is stored as an integer', S.And(
                S.is_int(S.fld(a.self, n)), S.int(S.fld(a.self, n)) == S.index(getattr(a, n))))
            for n in ('precision', 'scale')])


def c_Option_init():
    return simple(
        ct.Option, raises=[(BAD, lambda S, a: bad_measure(S, a.ds))],
        may_raise=[(Exception, lambda S, a: S.is_str(a.ds))],
        ensures=lambda S, a, r: [
            ('the type is stored', laundered_m(S, a.ds, S.fld(a.self, 'ty')))])


def c_Map_init():
    return simple(
        ct.Map, raises=[(BAD, lambda S, a: S.And(
            S.Not(S.is_str(a.key)), S.Not(S.is_str(a.value)),
            S.Or(bad_measure(S, a.key), bad_measure(S, a.value))))],
        may_raise=[(Exception, lambda S, a: S.Or(S.is_str(a.key), S.is_str(a.value)))],
        ensures=lambda S, a, r: [
            ('the key type is stored', laundered_m(S, a.key, S.fld(a.self, 'key'))),
            ('the value type is stored', laundered_m(S, a.value, S.fld(a.self, 'value')))])


def c_Function_init():
    def bad(S, x):
        return S.And(S.Not(is_D(S, x)), bad_measure(S, x))

    def stored(S, x, y):
        return S.If(is_D(S, x), S.same(x, y), laundered_m(S, x, y))

    def any_str(S, a):
        return S.exists(0, S.len(a.params), lambda i: S.is_str(S.at(a.params, i)))
    return simple(
        ct.Function,
        raises=[(BAD, lambda S, a: S.And(S.Not(any_str(S, a)), S.exists(
            0, S.len(a.params), lambda i: bad(S, S.at(a.params, i)))))],
        may_raise=[(Exception, any_str)],
        ensures=lambda S, a, r: [
            ('as many types as were given', S.And(
                S.is_tuple(params(S, a.self)), np_(S, a.self) == S.len(a.params))),
            ('the types are stored in order', S.forall(
                0, S.len(a.params),
                lambda i: stored(S, S.at(a.params, i), S.at(params(S, a.self), i))))])


def c_Tuple_init():
    def ok(S, x):
        return S.Or(is_D(S, x), S.And(is_ds(S, x), is_measlike(S, x)))

    def stored(S, x, y):
        return S.If(is_D(S, x), S.same(x, y), S.And(
            wrapper(S, y), S.same(S.at(params(S, y), 0), x)))
    return simple(
        ct.Tuple, requires=lambda S, a: S.is_seq(a.dshapes),
        raises=[(BAD, lambda S, a: S.exists(
            0, S.len(a.dshapes), lambda i: S.Not(ok(S, S.at(a.dshapes, i)))))],
        ensures=lambda S, a, r: [
            ('as many members as were given', S.And(
                S.is_tuple(S.fld(a.self, 'dshapes')),
                S.len(S.fld(a.self, 'dshapes')) == S.len(a.dshapes))),
            ('the members are datashapes, in order', S.forall(
                0, S.len(a.dshapes),
                lambda i: stored(S, S.at(a.dshapes, i), S.at(S.fld(a.self, 'dshapes'), i))))])


def c_Record_init():
    def name(S, a, i):
        return S.at(S.at(a.fields, i), 0)

    def type_(S, a, i):
        return S.at(S.at(a.fields, i), 1)

    def stored_name(S, x):
        return S.If(S.is_str(x), x, S.strof(x))

    def any_str(S, a):
        return S.exists(0, S.len(a.fields), lambda i: S.is_str(type_(S, a, i)))

    def bad_types(S, a):
        return S.exists(0, S.len(a.fields), lambda i: bad_measure(S, type_(S, a, i)))

    def dup(S, a):
        return S.exists(0, S.len(a.fields), lambda i: S.exists(
            0, S.len(a.fields), lambda j: S.And(i < j, S.same(
                stored_name(S, name(S, a, i)), stored_name(S, name(S, a, j))))))
    return simple(
        ct.Record, opts={'iterables': ('fields',)},
        requires=lambda S, a: S.And(
            S.is_seq(a.fields), S.forall(0, S.len(a.fields), lambda i: S.And(
                S.is_seq(S.at(a.fields, i)), S.len(S.at(a.fields, i)) == 2))),
        raises=[(BAD, lambda S, a: S.And(S.Not(any_str(S, a)),
                                         S.Or(bad_types(S, a), dup(S, a))))],
        may_raise=[(Exception, any_str)],
        ensures=lambda S, a, r: [
            ('one tuple of fields', S.And(
                S.is_tuple(params(S, a.self)), np_(S, a.self) == 1,
                S.is_tuple(S.at(params(S, a.self), 0)),
                S.len(S.at(params(S, a.self), 0)) == S.len(a.fields))),
            ('names and types are stored in order', S.forall(
                0, S.len(a.fields), lambda i: field_is(
                    S, S.at(S.at(params(S, a.self), 0), i),
                    lambda n: S.same(n, stored_name(S, name(S, a, i))),
                    lambda t: laundered_m(S, type_(S, a, i), t)))),
            ('names are distinct', S.Not(dup(S, a)))])


def field_is(S, f, fname, ftype):
    return S.And(S.is_tuple(f), S.len(f) == 2, fname(S.at(f, 0)), ftype(S.at(f, 1)))


def c_Categorical_init():
    return simple(
        ct.Categorical, defaults={'type': None, 'ordered': False},
        requires=lambda S, a: S.And(S.is_seq(a.categories), is_ds(S, a.type),
                                    is_measlike(S, a.type),
                                    S.Not(S.isinst(a.type, typesets.TypeSet)),
                                    S.is_bool(a.ordered)),
        ensures=lambda S, a, r: [
            ('as many categories as were given', S.And(
                S.is_tuple(S.fld(a.self, 'categories')),
                S.len(S.fld(a.self, 'categories')) == S.len(a.categories))),
            ('the categories are stored in order', S.forall(
                0, S.len(a.categories), lambda i: S.same(
                    S.at(S.fld(a.self, 'categories'), i), S.at(a.categories, i)))),
            ('the measure of the type is stored',
             S.same(S.fld(a.self, 'type'), meas(S, a.type))),
            ('ordered is stored', S.same(S.fld(a.self, 'ordered'), a.ordered))])


def c_TypeVar_init():
    def name(S, x):
        return S.And(S.capital(x), S.identifier(x), S.Not(S.same(x, S.lit('True'))),
                     S.Not(S.same(x, S.lit('False'))))
    return simple(
        ct.TypeVar,
        raises=[(TypeError, lambda S, a: S.Not(S.is_str(a.symbol))),
                (ValueError, lambda S, a: S.Not(name(S, a.symbol)))],
        ensures=lambda S, a, r: [
            ('the symbol is stored', S.same(S.fld(a.self, 'symbol'), a.symbol))])


def c_isidentifier():
    return Contract(
        'datashape.internal_utils:isidentifier', returns='bool',
        opts={'strings': 'seq'},
        requires=lambda S, a: S.is_str(a.s),
        ensures=lambda S, a, r: [
            ('exactly the identifiers and the keywords', S.Iff(
                S.bool(r), S.identifier(a.s)))])


# ------------------------------------------------- the Record[...] notation
def a_field(S, x):
    """name: type"""
    return S.And(S.w.is_tok(x, 'slice'), S.is_str(S.fld(x, 'start')), S.Not(S.is_none(S.fld(x, 'stop'))),
                 S.is_none(S.fld(x, 'step')))


def c_unpack_slice():
    return Contract(
        CT + 'RecordMeta._unpack_slice', returns=tuple,
        raises=[(TypeError, lambda S, a: S.Not(a_field(S, a.s)))],
        ensures=lambda S, a, r: [('the name and the type', S.And(
            S.len(r) == 2, S.same(S.at(r, 0), S.fld(a.s, 'start')),
            S.same(S.at(r, 1), S.fld(a.s, 'stop'))))])


def c_record_literal():
    def size(S, a):
        return S.If(S.is_tuple(a.types), S.len(a.types), 1)

    def at(S, a, i):
        return S.If(S.is_tuple(a.types), S.at(a.types, i), a.types)

    def name(S, a, i):
        return S.fld(at(S, a, i), 'start')

    def type_(S, a, i):
        return S.fld(at(S, a, i), 'stop')

    def any_str(S, a):
        return S.exists(0, size(S, a), lambda i: S.is_str(type_(S, a, i)))

    def dup(S, a):
        return S.exists(0, size(S, a), lambda i: S.exists(0, size(S, a), lambda j: S.And(
            i < j, S.same(name(S, a, i), name(S, a, j)))))
    return Contract(
        CT + 'RecordMeta.__getitem__', const={'self': ct.Record},
        raises=[(TypeError, lambda S, a: S.exists(
            0, size(S, a), lambda i: S.Not(a_field(S, at(S, a, i))))),
                (BAD, lambda S, a: S.And(S.Not(any_str(S, a)), S.Or(dup(S, a), S.exists(
                    0, size(S, a), lambda i: bad_measure(S, type_(S, a, i))))))],
        may_raise=[(Exception, any_str)],
        ensures=lambda S, a, r: [
            ('a record of as many fields', S.And(
                S.cls_is(r, ct.Record), S.len(S.at(params(S, r), 0)) == size(S, a))),
            ('the names and types, in order', S.forall(0, size(S, a), lambda i: field_is(
                S, S.at(S.at(params(S, r), 0), i), lambda n: S.same(n, name(S, a, i)),
                lambda t: laundered_m(S, type_(S, a, i), t))))])


CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
