"""Contracts of subshape (C05)."""
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import CT, dims_are
from .cons import BAD
from .arith import index_in, prefixed, product_ok

FVE = (ct.Fixed, ct.Var, ct.Ellipsis)


def head(S, x):
    return S.at(params(S, x), 0)


def isdim(S, x):
    return S.cls_in(x, FVE)


def fields(S, x):
    """The fields of the record that the datashape x consists of."""
    return S.at(params(S, head(S, x)), 0)


def dropped(S, x, r):
    """r is x without its first dimension."""
    return S.And(dims_are(S, r, ndim(S, x) - 1,
                          lambda d, i: S.same(d, dim(S, x, i + 1)), meas(S, x)),
                 # (the same, for terms over x)
                 S.forall(1, ndim(S, x), lambda i: S.same(dim(S, r, i - 1), dim(S, x, i))))


def resized(S, x, r, first):
    """r is x with another first dimension."""
    return S.And(is_D(S, r), np_(S, r) == np_(S, x), first(S.at(params(S, r), 0)),
                 S.forall(0, np_(S, x) - 1, lambda i: S.same(
                     S.at(params(S, r), i + 1), S.at(params(S, x), i + 1))))


def fixed_of(S, n):
    return lambda d: S.And(S.cls_is(d, ct.Fixed), S.int(S.fld(d, 'val')) == n)


def between(S, lo, hi, step):
    return S.If(step == 1, S.If(hi > lo, hi - lo, 0), S.rangelen(lo, hi, step))


def picks(S, x, i, k, f):
    """The k-th entry of the list i picks the field f of the record."""
    e = S.at(i, k)
    n = S.len(fields(S, x))
    return S.If(S.is_str(e),
                S.And(S.exists(0, n, lambda j: S.And(
                    S.same(S.at(S.at(fields(S, x), j), 0), e), same_field(
                        S, f, S.at(fields(S, x), j))))),
                same_field(S, f, S.at(fields(S, x), index_in(S, S.intof(e), n))))


def same_field(S, f, g):
    return S.And(S.same(S.at(f, 0), S.at(g, 0)), S.same(S.at(f, 1), S.at(g, 1)))


def rec_of(S, r, n, f):
    """r is a datashape of a record with n fields, f(i, field)"""
    rec = S.at(params(S, r), 0)
    fs = S.at(params(S, rec), 0)
    return S.And(wrapper(S, r), S.cls_is(rec, ct.Record), S.len(fs) == n,
                 S.forall(0, n, lambda i: f(i, S.at(fs, i))))


def named(S, x, name):
    f = fields(S, x)
    return S.exists(0, S.len(f), lambda j: S.same(S.at(S.at(f, j), 0), name))


def on_dim(S, x):
    return isdim(S, head(S, x))


def on_rec(S, x):
    return S.cls_is(head(S, x), ct.Record)


def by_int(I, args):
    return type(args[1]) is int


def c_sub_int():
    """An integer."""
    n = lambda S, a: S.len(fields(S, a.self))
    return Contract(
        CT + 'DataShape._subshape', self_classes=(ct.DataShape,), when=by_int,
        requires=lambda S, a: S.And(S.is_intlike(a.index), S.Or(on_dim(S, a.self), on_rec(S, a.self))),
        raises=[(IndexError, lambda S, a: S.And(on_rec(S, a.self), S.Not(S.And(
            S.intof(a.index) >= -n(S, a), S.intof(a.index) < n(S, a)))))],
        ensures=lambda S, a, r: [
            ('an integer removes the leading dimension', S.Implies(
                on_dim(S, a.self), dropped(S, a.self, r))),
            ('a position selects the type of the field', S.Implies(on_rec(S, a.self), S.same(
                r, S.at(S.at(fields(S, a.self), index_in(S, S.intof(a.index), n(S, a))), 1))))])


def c_sub_name():
    return Contract(
        CT + 'DataShape._subshape', self_classes=(ct.DataShape,), when=lambda I, a: False,
        requires=lambda S, a: S.And(S.is_str(a.index), on_rec(S, a.self)),
        raises=[(KeyError, lambda S, a: S.Not(named(S, a.self, a.index)))],
        ensures=lambda S, a, r: [
            ('a name selects the type of the field', S.forall(
                0, S.len(fields(S, a.self)), lambda j: S.Implies(
                    S.same(S.at(S.at(fields(S, a.self), j), 0), a.index),
                    S.same(r, S.at(S.at(fields(S, a.self), j), 1)))))])


def c_sub_list():
    return Contract(
        CT + 'DataShape._subshape', self_classes=(ct.DataShape,), when=lambda I, a: False,
        requires=lambda S, a: S.And(S.is_list(a.index), on_dim(S, a.self)),
        ensures=lambda S, a, r: [
            ('a list leaves its length', resized(
                S, a.self, r, fixed_of(S, S.len(a.index))))])


def c_sub_list_rec():
    def valid(S, a):
        n = S.len(fields(S, a.self))
        return S.forall(0, S.len(a.index), lambda k: S.Or(
            S.And(S.is_str(S.at(a.index, k)), named(S, a.self, S.at(a.index, k))),
            S.And(S.is_intlike(S.at(a.index, k)), S.intof(S.at(a.index, k)) >= -n,
                  S.intof(S.at(a.index, k)) < n)))
    return Contract(
        CT + 'DataShape._subshape', self_classes=(ct.DataShape,), when=lambda I, a: False,
        requires=lambda S, a: S.And(S.is_list(a.index), on_rec(S, a.self), valid(S, a)),
        opts={'inline': ('DataShape.__getitem__', 'Mono.parameters', 'Record.parameters')},
        may_raise=[(BAD, lambda S, a: True)],
        ensures=lambda S, a, r: [
            ('a list selects those fields in that order', rec_of(
                S, r, S.len(a.index), lambda k, f: picks(S, a.self, a.index, k, f)))])


def c_sub_slice_rec():
    def f(S, a):
        return fields(S, a.self)
    return Contract(
        CT + 'DataShape._subshape', self_classes=(ct.DataShape,), when=lambda I, a: False,
        requires=lambda S, a: S.And(S.is_slice(a.index), on_rec(S, a.self)),
        raises=[(ValueError, lambda S, a: S.slice_step_zero(a.index))],
        ensures=lambda S, a, r: [
            ('a slice selects those fields in that order', rec_of(
                S, r, S.slicelen(S.len(f(S, a)), a.index), lambda k, g: same_field(
                    S, g, S.at(f(S, a), S.slicepos(S.len(f(S, a)), a.index, k)))))])


def c_sub_slice():
    """Of a dimension."""
    def fixed(S, a):
        return S.cls_is(head(S, a.self), ct.Fixed)

    def size(S, a):
        return S.int(S.fld(head(S, a.self), 'val'))

    def bound(S, a, n, none):
        v = S.fld(a.index, n)
        return S.If(S.is_none(v), none, S.int(v))

    def known(S, a):
        """(var) bounds that determine the size"""
        return S.And(S.Not(S.is_none(S.fld(a.index, 'stop'))), bound(S, a, 'stop', 0) >= 0,
                     bound(S, a, 'start', 0) >= 0, bound(S, a, 'step', 1) > 0)
    return Contract(
        CT + 'DataShape._subshape', self_classes=(ct.DataShape,), when=lambda I, a: False,
        requires=lambda S, a: S.And(S.is_slice(a.index), on_dim(S, a.self)),
        raises=[(ValueError, lambda S, a: S.And(fixed(S, a), S.slice_step_zero(a.index)))],
        ensures=lambda S, a, r: [
            ('a slice of a fixed dimension leaves as many as it selects', S.Implies(
                fixed(S, a), resized(S, a.self, r, fixed_of(
                    S, S.slicelen(size(S, a), a.index))))),
            ('a slice of another dimension with both ends leaves as many as it may select',
             S.Implies(S.And(S.Not(fixed(S, a)), known(S, a)), resized(
                 S, a.self, r, fixed_of(S, between(S, bound(S, a, 'start', 0), bound(
                     S, a, 'stop', 0), bound(S, a, 'step', 1)))))),
            ('another slice leaves a variable dimension',
             S.Implies(S.And(S.Not(fixed(S, a)), S.Not(known(S, a))), resized(
                 S, a.self, r, lambda d: S.cls_is(d, ct.Var))))])


def gives(S, x, i, r):
    """Indexing x with i gives r: of tuples, the least relation with the rules
    below; of other indices, what subshape gives (the contracts above)."""
    return S.fn(('subshape', 'Bool'), x, i, r)


def rest_of(S, u, t):
    """u is the tuple t without its first entry"""
    return S.And(S.is_tuple(u), S.len(u) == S.len(t) - 1, S.forall(
        0, S.len(u), lambda i: S.same(S.at(u, i), S.at(t, i + 1))))


def tuple_rules(S, x, t, r):
    first = S.at(t, 0)
    one = S.mkint(1)
    return [
        S.Implies(S.And(S.len(t) == 0, S.same(r, x)), gives(S, x, t, r)),
        # None adds a dimension of size 1
        S.Implies(S.And(S.len(t) > 0, S.is_none(first)), S.forall_vs(2, lambda u, y: (
            S.Implies(S.And(rest_of(S, u, t), gives(S, x, u, y), prefixed(S, one, y, r)),
                      gives(S, x, t, r)), gives(S, x, u, y)))),
        S.Implies(S.And(S.len(t) == 1, S.Not(S.is_none(first)), gives(S, x, first, r)),
                  gives(S, x, t, r)),
        # an entry indexes the first dimension, and the rest what is below it
        S.Implies(S.And(S.len(t) > 1, S.Not(S.is_none(first))), S.forall_vs(4, lambda u, v, y, z: (
            S.Implies(S.And(rest_of(S, u, t), dropped(S, x, v), is_D(S, v), gives(S, v, u, y),
                            prefixed(S, head(S, x), y, z), gives(S, z, first, r)),
                      gives(S, x, t, r)), (gives(S, v, u, y), gives(S, z, first, r)))))]


def fails(S, x, i):
    """Indexing x with i raises: of tuples, when one of the steps does."""
    return S.fn(('nosubshape', 'Bool'), x, i)


def tuple_failures(S, x, t):
    first = S.at(t, 0)
    one = S.mkint(1)
    no = fails(S, x, t)
    return [
        S.Implies(S.And(S.len(t) > 0, S.is_none(first)), S.And(
            S.forall_v(lambda u: (S.Implies(S.And(rest_of(S, u, t), fails(S, x, u)), no), fails(S, x, u))),
            S.forall_vs(2, lambda u, y: (S.Implies(
                S.And(rest_of(S, u, t), gives(S, x, u, y), S.Not(product_ok(S, one, y))), no),
                gives(S, x, u, y))))),
        S.Implies(S.And(S.len(t) == 1, S.Not(S.is_none(first)), fails(S, x, first)), no),
        S.Implies(S.And(S.len(t) > 1, S.Not(S.is_none(first))), S.And(
            # (a datashape without dimensions)
            S.Implies(ndim(S, x) == 0, no),
            S.forall_vs(2, lambda u, v: (S.Implies(
                S.And(rest_of(S, u, t), dropped(S, x, v), is_D(S, v), fails(S, v, u)), no), fails(S, v, u))),
            S.forall_vs(3, lambda u, v, y: (S.Implies(
                S.And(rest_of(S, u, t), dropped(S, x, v), is_D(S, v), gives(S, v, u, y),
                      S.Not(product_ok(S, head(S, x), y))), no), gives(S, v, u, y))),
            S.forall_vs(4, lambda u, v, y, z: (S.Implies(
                S.And(rest_of(S, u, t), dropped(S, x, v), is_D(S, v), gives(S, v, u, y),
                      prefixed(S, head(S, x), y, z), fails(S, z, first)), no),
                (gives(S, v, u, y), fails(S, z, first))))))]


ANYERR = (Exception, lambda S, a: fails(S, a.self, a.index))


def c_sub_any():
    """(of recursive calls: the units of this module)"""
    return Contract(
        CT + 'DataShape._subshape', self_classes=(ct.DataShape,), assumed=True,
        may_raise=[ANYERR],
        ensures=lambda S, a, r: [
            ('a datashape', is_ds(S, r)), ('what indexing gives', gives(S, a.self, a.index, r))])


def c_sub_tuple():
    def ens(S, a, r):
        for f in tuple_rules(S, a.self, a.index, r):
            S.I.ctx.assume(f)
        yield ('the entries of a tuple apply to successive dimensions',
               gives(S, a.self, a.index, r))
    return Contract(
        CT + 'DataShape._subshape', self_classes=(ct.DataShape,), when=lambda I, a: False,
        requires=lambda S, a: S.is_tuple(a.index),
        facts=lambda S, a: tuple_failures(S, a.self, a.index), may_raise=[ANYERR],
        ensures=lambda S, a, r: list(ens(S, a, r)))


PROP = 'C05'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
