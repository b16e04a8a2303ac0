"""Contracts of dimension arithmetic and concatenation."""
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import (CT, BAD, acceptable_dim, acceptable_measure, laundered, dims_are)

D = (ct.DataShape,)


def others(u=None):
    """Every class but DataShape."""
    from dv.universe import Universe
    return tuple(c for c in Universe().ds_classes if c is not ct.DataShape)


OTHERS = others()
NOREC = tuple(c for c in OTHERS if c is not ct.Record)


# ------------------------------------------------------- what a datashape shows
def c_shape_D():
    return Contract(
        CT + 'DataShape.shape', self_classes=D, returns=tuple,
        ensures=lambda S, a, r: [
            ('the dimensions in order', S.And(
                S.is_tuple(r), S.len(r) == np_(S, a.self) - 1,
                S.forall(0, np_(S, a.self) - 1, lambda i: S.same(
                    S.at(r, i), dim(S, a.self, i)))))])


def c_shape_M():
    return Contract(
        CT + 'Mono.shape', self_classes=OTHERS, returns=tuple,
        ensures=lambda S, a, r: [('no dimensions', S.And(S.is_tuple(r), S.len(r) == 0))])


def c_measure_D():
    return Contract(
        CT + 'DataShape.measure', self_classes=D,
        ensures=lambda S, a, r: [('the last component', S.same(r, meas(S, a.self)))])


def c_measure_M():
    return Contract(
        CT + 'Mono.measure', self_classes=OTHERS,
        ensures=lambda S, a, r: [('the type itself', S.same(r, a.self))])


def c_len_D():
    return Contract(CT + 'DataShape.__len__', self_classes=D, returns='int',
                    ensures=lambda S, a, r: [
                        ('the number of dimensions and the measure',
                         S.int(r) == ndim(S, a.self) + 1)])


def c_len_M():
    return Contract(CT + 'Mono.__len__', self_classes=OTHERS, returns='int',
                    ensures=lambda S, a, r: [('one component', S.int(r) == 1)])


def index_in(S, i, n):
    return S.If(i < 0, i + n, i)


def not_slice(I, args):
    from dv.values import SliceV
    return not any(isinstance(x, SliceV) for x in args)


def c_getitem_D():
    return Contract(
        CT + 'DataShape.__getitem__', self_classes=D, when=not_slice,
        requires=lambda S, a: S.is_int(a.index),
        raises=[(IndexError, lambda S, a: S.Not(S.And(
            S.int(a.index) >= -np_(S, a.self), S.int(a.index) < np_(S, a.self))))],
        ensures=lambda S, a, r: [
            ('the component of that index', S.same(r, S.at(
                params(S, a.self), index_in(S, S.int(a.index), np_(S, a.self)))))])


def c_getitem_M():
    return Contract(
        CT + 'Mono.__getitem__', self_classes=NOREC, when=not_slice,
        requires=lambda S, a: S.is_int(a.key),
        raises=[(IndexError, lambda S, a: S.Not(S.Or(S.int(a.key) == 0, S.int(a.key) == -1)))],
        ensures=lambda S, a, r: [('the type itself', S.same(r, a.self))])


def c_subarray_M():
    return Contract(
        CT + 'Mono.subarray', self_classes=OTHERS,
        requires=lambda S, a: S.And(S.is_int(a.leading), S.int(a.leading) >= 0),
        raises=[(IndexError, lambda S, a: S.int(a.leading) > 0)],
        ensures=lambda S, a, r: [('the type itself', S.same(r, a.self))])


# ------------------------------------------------------------------- products
def prefixed(S, d, x, r):
    """r is the datashape x with the dimension d before it."""
    n = S.If(is_D(S, x), np_(S, x), 1)
    return S.And(
        is_D(S, r), np_(S, r) == n + 1,
        laundered(S, d, S.at(params(S, r), 0)),
        S.If(is_D(S, x),
             S.And(
                 S.forall(0, n, lambda i: S.same(S.at(params(S, r), i + 1), S.at(params(S, x), i))),
                 # (the same, for terms over r)
                 S.forall(1, n + 1, lambda i: S.same(
                     S.at(params(S, r), i), S.at(params(S, x), i - 1)))),
             S.same(S.at(params(S, r), 1), x)))


def product_ok(S, d, x):
    return S.And(acceptable_dim(S, d), is_ds(S, x), S.Or(is_D(S, x), is_measlike(S, x)))


def c_mul():
    return Contract(
        CT + 'Mono.__mul__', self_classes=OTHERS + D,
        raises=[(BAD, lambda S, a: S.And(S.Not(S.is_str(a.other)),
                                         S.Not(product_ok(S, a.self, a.other))))],
        may_raise=[(Exception, lambda S, a: S.is_str(a.other))],
        ensures=lambda S, a, r: [
            ('a datashape', is_D(S, r)),
            ('the dimension is prepended',
             S.Or(S.is_str(a.other), prefixed(S, a.self, a.other, r)))])


def c_rmul_M():
    return Contract(
        CT + 'Mono.__rmul__', self_classes=OTHERS,
        raises=[(BAD, lambda S, a: S.And(S.Not(S.is_str(a.other)),
                                         S.Not(product_ok(S, a.other, a.self))))],
        may_raise=[(Exception, lambda S, a: S.is_str(a.other))],
        ensures=lambda S, a, r: [
            ('a datashape', is_D(S, r)),
            ('the dimension is prepended',
             S.Or(S.is_str(a.other), prefixed(S, a.other, a.self, r)))])


CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
