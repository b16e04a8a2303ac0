"""Contracts of the type system itself (coretypes.py)."""
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *

CT = 'datashape.coretypes:'
BAD = (TypeError, ValueError)


def no_str(S, p):
    return S.forall(0, S.len(p), lambda i: S.Not(S.is_str(S.at(p, i))))


# ----------------------------------------------------------------- laundering
def launderable(S, x):
    return S.Or(S.And(S.is_intlike(x), S.intof(x) >= 0), is_ds(S, x))


def laundered(S, x, y):
    """y is the canonical form of the component x."""
    return S.If(S.is_intlike(x),
                S.And(S.cls_is(y, ct.Fixed), S.is_int(S.fld(y, 'val')),
                      S.int(S.fld(y, 'val')) == S.intof(x)),
                S.If(wrapper(S, x), S.same(y, S.at(params(S, x), 0)), S.same(y, x)))


def acceptable_dim(S, x):
    return S.Or(S.And(S.is_intlike(x), S.intof(x) >= 0), is_dimlike(S, x),
                S.And(wrapper(S, x), is_dimlike(S, S.at(params(S, x), 0))))


def acceptable_measure(S, x):
    return is_measlike(S, x)


def c_launder():
    return Contract(
        CT + '_launder',
        raises=[(ValueError, lambda S, a: S.And(S.is_intlike(a.x), S.intof(a.x) < 0)),
                (TypeError, lambda S, a: S.Not(S.Or(S.is_str(a.x), S.is_intlike(a.x),
                                                    is_ds(S, a.x))))],
        may_raise=[(Exception, lambda S, a: S.is_str(a.x))],
        ensures=lambda S, a, r: [
            ('the canonical form is returned',
             S.Or(S.is_str(a.x), laundered(S, a.x, r))),
            ('a component is returned', is_component(S, r))])


def bad_measure(S, x):
    """Not a measure (texts are judged by what they parse to)."""
    return S.Not(S.Or(S.is_str(x), S.And(launderable(S, x), S.Not(S.is_intlike(x)),
                                         is_measlike(S, x))))


def laundered_m(S, x, y):
    return S.And(S.Or(S.is_str(x), laundered(S, x, y)), is_measure_component(S, y))


def c_launder_measure():
    return Contract(
        CT + '_launder_measure',
        raises=[(BAD, lambda S, a: bad_measure(S, a.x))],
        may_raise=[(Exception, lambda S, a: S.is_str(a.x))],
        ensures=lambda S, a, r: [
            ('the canonical form is returned', S.Or(S.is_str(a.x), laundered(S, a.x, r))),
            ('a measure is returned', is_measure_component(S, r))])


def c_dshape():
    """What it does with texts is the subject of C12."""
    return Contract(
        'datashape.util:dshape', assumed=True,
        requires=lambda S, a: S.is_str(a.o),
        may_raise=[(Exception, lambda S, a: True)],
        ensures=lambda S, a, r: [('a datashape', is_D(S, r))])


# --------------------------------------------------------------- constructors
def ds_acceptable(S, p):
    n = S.len(p)
    return S.And(
        n >= 1,
        S.forall(0, n - 1, lambda i: acceptable_dim(S, S.at(p, i))),
        acceptable_measure(S, S.at(p, n - 1)))


def c_DataShape_init():
    return Contract(
        CT + 'DataShape.__init__', new=True, self_classes=(ct.DataShape,),
        requires=lambda S, a: S.And(
            len(a.kwds) == 0 or S.is_none(a.kwds['name']),
            S.Or(S.len(a.parameters) == 1, no_str(S, a.parameters))),
        raises=[(BAD, lambda S, a: S.Not(ds_acceptable(S, a.parameters)))],
        ensures=lambda S, a, r: [
            ('parameters are a tuple of the same length',
             S.And(S.is_tuple(params(S, a.self)), np_(S, a.self) == S.len(a.parameters))),
            ('parameters are the arguments in canonical form', S.forall(
                0, S.len(a.parameters),
                lambda i: laundered(S, S.at(a.parameters, i), S.at(params(S, a.self), i)))),
            ('not named', S.is_none(S.fld(a.self, 'name'))),
            ('class invariant', inv_DataShape(S, a.self))])


def c_Fixed_init():
    return Contract(
        CT + 'Fixed.__init__', new=True, self_classes=(ct.Fixed,),
        raises=[(TypeError, lambda S, a: S.Not(S.has_index(a.i))),
                (ValueError, lambda S, a: S.index(a.i) < 0)],
        ensures=lambda S, a, r: [
            ('the size is stored', S.And(S.is_int(S.fld(a.self, 'val')),
                                         S.int(S.fld(a.self, 'val')) == S.index(a.i))),
            ('class invariant', inv_Fixed(S, a.self))])


# ------------------------------------------------------------------ operators
def dims_are(S, r, n, f, m):
    """r is a DataShape with the n dimensions f(i) and the measure m."""
    return S.And(is_D(S, r), np_(S, r) == n + 1,
                 S.forall(0, n, lambda i: f(S.at(params(S, r), i), i)),
                 S.same(S.at(params(S, r), n), m))


def c_subarray_D():
    return Contract(
        CT + 'DataShape.subarray', self_classes=(ct.DataShape,), returns=ct.DataShape,
        requires=lambda S, a: S.And(S.is_int(a.leading), S.int(a.leading) >= 0),
        raises=[(IndexError, lambda S, a: S.int(a.leading) > ndim(S, a.self))],
        ensures=lambda S, a, r: [
            ('drops exactly the first dimensions', dims_are(
                S, r, ndim(S, a.self) - S.int(a.leading),
                lambda d, i: S.same(d, dim(S, a.self, i + S.int(a.leading))),
                meas(S, a.self)))])


def c_rmul_D():
    return Contract(
        CT + 'DataShape.__rmul__', self_classes=(ct.DataShape,), returns=ct.DataShape,
        requires=lambda S, a: S.Not(S.is_str(a.other)),
        raises=[(BAD, lambda S, a: S.Not(acceptable_dim(S, a.other)))],
        ensures=lambda S, a, r: [
            ('the dimension is prepended', S.And(
                is_D(S, r), np_(S, r) == np_(S, a.self) + 1,
                laundered(S, a.other, S.at(params(S, r), 0)))),
            ('the dimensions and the measure follow', S.forall(
                0, np_(S, a.self),
                lambda i: S.same(S.at(params(S, r), i + 1), S.at(params(S, a.self), i))))])


def c_len_D():
    return Contract(CT + 'DataShape.__len__', self_classes=(ct.DataShape,), returns='int',
                    ensures=lambda S, a, r: [
                        ('length is the number of components',
                         S.int(r) == ndim(S, a.self) + 1)])


CONTRACTS = [c_launder, c_launder_measure, c_DataShape_init, c_Fixed_init, c_subarray_D, c_rmul_D]
