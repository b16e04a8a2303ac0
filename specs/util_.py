"""Contracts of datashape.util."""
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import CT, BAD, laundered

U = 'datashape.util:'


def lead(S, x):
    """The size of the leading fixed dimension."""
    return S.int(S.fld(dim(S, x, 0), 'val'))


def c_cat():
    def item(S, a, i):
        return S.at(a.dslist, i)

    def n(S, a):
        return S.len(a.dslist)

    def sized(S, a):
        return S.forall(0, n(S, a), lambda i: S.cls_is(dim(S, item(S, a, i), 0), ct.Fixed))

    def agree(S, a):
        """All the components after the first are equal to those of the first."""
        def same_rest(i):
            x, y = item(S, a, i), item(S, a, 0)
            return S.And(np_(S, x) == np_(S, y), S.forall(
                1, np_(S, y), lambda j: S.eq(dim(S, x, j), dim(S, y, j))))
        return S.forall(1, n(S, a), same_rest)

    def total(S, a, k):
        """The sum of the leading sizes of the first k."""
        return S.fn(('cat_total', 'Int'), a.dslist, S.mkint(k))

    def acc(off):
        def f(S, a, k, v):
            k = k + off
            return (S.And(S.is_int(v), S.int(v) == total(S, a, k), S.int(v) >= 0),
                    [total(S, a, 0) == 0,
                     S.Implies(k >= 1, total(S, a, k) == total(S, a, k - 1) +
                               lead(S, item(S, a, k - 1)))])
        return f
    many = lambda S, a: n(S, a) >= 2
    return Contract(
        U + 'cat_dshapes',
        requires=lambda S, a: S.And(S.is_seq(a.dslist), S.forall(
            0, n(S, a), lambda i: is_D(S, item(S, a, i)))),
        raises=[(ValueError, lambda S, a: n(S, a) == 0)],
        may_raise=[(TypeError, lambda S, a: S.And(many(S, a), S.Not(sized(S, a)))),
                   (ValueError, lambda S, a: S.And(many(S, a), S.Not(agree(S, a))))],
        facts=lambda S, a: [total(S, a, 0) == 0,
                            total(S, a, 1) == lead(S, item(S, a, 0))],
        candidates=[acc(0), acc(1)],
        ensures=lambda S, a, r: [
            ('every leading size is known', S.Or(S.Not(many(S, a)), sized(S, a))),
            ('all agree after the leading dimension', S.Or(S.Not(many(S, a)), agree(S, a))),
            ('a single datashape is returned as it is',
             S.Or(many(S, a), S.same(r, item(S, a, 0)))),
            ('the leading size is the sum of the leading sizes', S.Or(
                S.Not(many(S, a)), S.And(
                    is_D(S, r), S.cls_is(dim(S, r, 0), ct.Fixed),
                    lead(S, r) == total(S, a, n(S, a))))),
            ('everything after the leading dimension is kept', S.Or(
                S.Not(many(S, a)), S.And(
                    is_D(S, r), np_(S, r) == np_(S, item(S, a, 0)),
                    S.forall(1, np_(S, r), lambda j: S.same(
                        dim(S, r, j), dim(S, item(S, a, 0), j))))))])


CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
