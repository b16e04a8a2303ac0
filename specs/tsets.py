"""Contracts of type sets, supertypes and maximum types (C08)."""
from datashape import coretypes as ct
from datashape import typesets as T
from dv.contract import Contract
from .model import *
from .core import CT

TS = 'datashape.typesets:'
TSET = (T.TypeSet,)


def order(S, x):
    return S.fld(x, '_order')


def has_member(S, s, x):
    """x equals one of the types that the type set s was made of."""
    o = order(S, s)
    return S.exists(0, S.len(o), lambda i: S.eq(S.at(o, i), x))


def in_const(S, x, ts):
    """x is one of the types of this live type set"""
    return S.Or(*[S.eq(x, S.lit(t)) for t in ts._order])


def concat(S, p, x, y):
    """the sequence p is the sequence x followed by y"""
    n, m = S.len(x), S.len(y)
    return S.And(
        S.len(p) == n + m,
        S.forall(0, n, lambda i: S.same(S.at(p, i), S.at(x, i))),
        S.forall(0, m, lambda i: S.same(S.at(p, n + i), S.at(y, i))))


def c_ts_types():
    return Contract(
        TS + 'TypeSet.types', self_classes=TSET,
        ensures=lambda S, a, r: [('the types it was made of, in order',
                                  S.same(r, order(S, a.self)))])


def c_ts_contains():
    return Contract(
        TS + 'TypeSet.__contains__', self_classes=TSET, returns='bool',
        requires=lambda S, a: is_ds(S, a.val),
        ensures=lambda S, a, r: [('exactly the types it was made of',
                                  S.Iff(S.bool(r), has_member(S, a.self, a.val)))])


def c_ts_or():
    return Contract(
        TS + 'TypeSet.__or__', self_classes=TSET,
        requires=lambda S, a: S.cls_is(a.other, T.TypeSet),
        ensures=lambda S, a, r: [('the types of both, in order', S.And(
            S.cls_is(r, T.TypeSet), S.is_none(S.fld(r, 'name')),
            S.is_tuple(order(S, r)),
            concat(S, order(S, r), order(S, a.self), order(S, a.other))))])


def c_matches_measure():
    """(as supertype and maxtype use it)"""
    return Contract(
        TS + 'matches_typeset', const={'signature': T.scalar}, returns='bool',
        requires=lambda S, a: S.And(is_ds(S, a.types), S.Not(S.cls_is(a.types, T.TypeSet))),
        ensures=lambda S, a, r: [('exactly the members', S.Iff(S.bool(r), in_const(
            S, a.types, T.scalar)))])


def matches(S, x, y):
    return S.If(S.cls_is(y, T.TypeSet), has_member(S, y, x), S.eq(x, y))


def c_matches():
    n = lambda S, a: S.len(a.types)
    return Contract(
        TS + 'matches_typeset', returns='bool', when=lambda I, a: False, opts={'eq': 'seq'},
        candidates=[lambda S, a, k, v: S.same(v, S.lit(True))],
        requires=lambda S, a: S.And(
            S.is_tuple(a.types), S.is_tuple(a.signature),
            S.forall(0, S.len(a.types), lambda i: is_ds(S, S.at(a.types, i))),
            S.forall(0, S.len(a.signature), lambda i: is_ds(S, S.at(a.signature, i)))),
        ensures=lambda S, a, r: [('every argument matches its parameter', S.Iff(
            S.bool(r), S.And(n(S, a) == S.len(a.signature), S.forall(0, n(S, a), lambda i: matches(
                S, S.at(a.types, i), S.at(a.signature, i))))))])


def underlying(S, x):
    return S.If(S.cls_is(x, ct.Option), S.fld(x, 'ty'), x)


def is_option(S, x):
    return S.cls_is(x, ct.Option)


def not_set(S, x):
    return S.Not(S.cls_is(underlying(S, x), T.TypeSet))


def c_supertype():
    return Contract(
        TS + 'supertype', requires=lambda S, a: S.And(is_ds(S, a.measure), not_set(S, a.measure)),
        raises=[(AssertionError, lambda S, a: S.Not(in_const(
            S, underlying(S, a.measure), T.scalar)))],
        ensures=lambda S, a, r: [
            ('one of the families', S.Or(*[S.same(r, S.lit(f)) for f in FAMILIES])),
            ('that contains the type', S.And(*[S.Implies(
                S.same(r, S.lit(f)), in_const(S, underlying(S, a.measure), f))
                for f in FAMILIES]))])


FAMILIES = (T.signed, T.unsigned, T.floating, T.complexes, T.boolean)


def c_maxtype():
    def m(S, a):
        return underlying(S, meas(S, a.measure))

    def own(S, a):
        return S.Or(S.cls_is(m(S, a), ct.Decimal), S.cls_is(m(S, a), ct.TimeDelta))

    def res(S, r):
        return underlying(S, r)
    def equal_means(S, a):
        """(of ==, C01) what equals a primitive type is one"""
        x = m(S, a)
        return [S.Implies(S.eq(x, S.lit(t)), S.And(
            is_ds(S, x), ndim(S, x) == 0, S.cls_is(meas(S, x), ct.CType))) for t in T.scalar._order]
    return Contract(
        TS + 'maxtype', facts=equal_means,
        requires=lambda S, a: S.And(is_ds(S, a.measure), not_set(S, meas(S, a.measure))),
        raises=[(TypeError, lambda S, a: S.Not(S.Or(own(S, a), in_const(S, m(S, a), T.scalar))))],
        ensures=lambda S, a, r: [
            ('optional exactly if it is', S.Iff(is_option(S, r), is_option(S, meas(S, a.measure)))),
            ('decimals and time deltas are their own maximum', S.Implies(
                own(S, a), S.same(res(S, r), m(S, a)))),
            ('the widest of the family of the type', S.Or(own(S, a), *[S.And(
                in_const(S, m(S, a), f), S.same(res(S, r), S.lit(max(
                    f._order, key=lambda t: (t._itemsize))))) for f in FAMILIES]))])


PROP = 'C08'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
