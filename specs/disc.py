"""Contracts of discovery (C09): of each class of values by the implementation
that the dispatcher gives for it."""
import z3
from datashape import coretypes as ct, discovery
from dv.contract import Contract
from dv.values import SV, PyRaise
from .model import *
from .core import laundered_m, BAD
from .cons import field_is

DI = 'datashape.discovery:'


def found(S, x):
    """What is discovered of x"""
    return S.w.fn('discovered', 'V', 'V')(x)


def fails(S, x):
    return S.w.fn('not_discovered', 'V', 'Bool')(x)


def a_type(S, r):
    return S.And(is_ds(S, r), S.Or(is_D(S, r), is_measlike(S, r)))


def c_discover():
    """(of any value: a function of it, or it raises)"""
    def effect(I, S, A):
        r = found(S, A.obj)
        I.ctx.assume(a_type(S, r))
        return I.norm(SV(r))
    return Contract(DI + 'discover', assumed=True, params=('obj',), effect=effect,
                    fails=(NotImplementedError, lambda S, a: fails(S, a.obj)))


def as_(cls, ens):
    def make():
        return Contract(DI + 'discover@' + cls, ensures=ens, opts={'inline': (
            'TimeDelta.__init__', 'normalize_time_unit')})
    make.__name__ = 'c_disc_' + cls.split('.')[-1].replace('type(None)', 'None')
    return make


def constant(t):
    return lambda S, a, r: [('its own type', S.same(r, S.lit(t)))]


SCALARS = [as_(*x) for x in (
    ('int', constant(ct.int64)), ('bool', constant(ct.bool_)), ('float', constant(ct.float64)),
    ('complex', constant(ct.complex128)), ('datetime.datetime', constant(ct.datetime_)),
    ('datetime.date', constant(ct.date_)), ('datetime.time', constant(ct.time_)),
    ('type(None)', constant(ct.null)),
    ('bytes', lambda S, a, r: [('text of single bytes', S.And(
        S.cls_is(r, ct.String), S.is_none(S.fld(r, 'fixlen')),
        S.same(S.fld(r, 'encoding'), S.lit('A'))))]),
    ('datetime.timedelta', lambda S, a, r: [('microseconds', S.And(
        S.cls_is(r, ct.TimeDelta), S.same(S.fld(r, 'unit'), S.lit('us'))))]))]


def fields(S, r):
    return S.at(params(S, r), 0)


def name(S, x):
    return S.If(S.is_str(x), x, S.strof(x))


def is_record_of(S, r, m):
    yield 'a record of as many fields', S.And(
        S.cls_is(r, ct.Record), S.len(fields(S, r)) == S.len(m))


def c_disc_ordered():
    """Of an ordered mapping: its fields in its order."""
    def ens(S, a, r):
        yield from is_record_of(S, r, a.od)
        d = S.V.r
        yield 'each key, in order, with what is discovered of its value', S.forall(
            0, S.len(a.od), lambda i: field_is(
                S, S.at(fields(S, r), i), lambda n: S.same(n, name(S, S.dkey(a.od, i))),
                lambda t: laundered_m(S, found(S, S.dval(a.od, i)), t)))
    return Contract(DI + 'discover@collections.OrderedDict', ensures=ens,
                    requires=lambda S, a: S.is_dict(a.od),
                    may_raise=[(NotImplementedError, lambda S, a: S.exists(
                        0, S.len(a.od), lambda i: fails(S, S.dval(a.od, i)))), (BAD, lambda S, a: same_names(S, a.od))])


def same_names(S, d):
    """Two keys have the same text."""
    return S.exists(0, S.len(d), lambda i: S.exists(0, S.len(d), lambda j: S.And(
        i < j, S.same(name(S, S.dkey(d, i)), name(S, S.dkey(d, j))))))


def c_disc_mapping():
    """Of another mapping, with texts as keys: its fields are sorted."""
    def ens(S, a, r):
        yield from is_record_of(S, r, a.m)
        at = lambda i: S.at(fields(S, r), i)
        yield 'each field is a key, with what is discovered of its value', S.forall(
            0, S.len(a.m), lambda i: S.And(S.dhas(a.m, S.key(S.at(at(i), 0))), laundered_m(
                S, found(S, S.dget(a.m, S.key(S.at(at(i), 0)))), S.at(at(i), 1))))
        yield 'sorted', S.forall(0, S.len(a.m), lambda i: S.forall(
            i + 1, S.len(a.m), lambda j: S.fn(('in_order', 'Bool'), S.at(at(i), 0), S.at(at(j), 0))))
    return Contract(DI + 'discover@dict', ensures=ens, opts={'dicts': True},
                    requires=lambda S, a: S.And(S.is_dict(a.m), S.forall(
                        0, S.len(a.m), lambda i: S.is_str(S.dkey(a.m, i)))),
                    may_raise=[(NotImplementedError, lambda S, a: S.exists(
                        0, S.len(a.m), lambda i: fails(S, S.dval(a.m, i)))), (BAD, lambda S, a: same_names(S, a.m))])


PROP = 'C09'
CONTRACTS = SCALARS + [v for k, v in list(globals().items()) if k.startswith('c_')]
