"""Contracts of assert_dshape_equal (C17)."""
from datashape import coretypes as ct, typesets
from dv.contract import Contract
from .model import *
from .core import CT
from .search import occurs, part_occurs
from .equality import eq_def, eq_ds, parameters_eq, theory_of_parts, lemma, ALL

TE = 'datashape.util.testing:'
EMPTY = 'empty_function'
OPTS = ('check_dim', 'check_tz', 'check_timedelta_unit', 'check_str_encoding',
        'check_str_fixlen')
PLAIN_SLOTS = tuple((c, s) for c, s in SLOTS.items() if c not in (
    ct.DateTime, ct.Time, ct.TimeDelta, ct.Units, ct.String, ct.Option, ct.Tuple))


def alike(S, x, y, o):
    """x and y differ at most in what the options o ignore"""
    return S.fn(('alike', 'Bool'), x, y, *[getattr(o, k) for k in OPTS])


def alike_def(S, x, y, o):
    on = lambda k: S.bool(getattr(o, k))
    sim = lambda p, q: alike(S, p, q, o)

    def both(c):
        return S.And(S.cls_is(x, c), S.cls_is(y, c))

    def eqf(n):
        return S.eq(S.fld(x, n), S.fld(y, n))

    def all_alike(p, q):
        return S.And(S.len(p) == S.len(q), S.forall(0, S.len(p), lambda i: sim(
            S.at(p, i), S.at(q, i))))

    def dims():
        return S.And(ndim(S, x) == ndim(S, y), S.forall(
            0, ndim(S, x), lambda i: S.eq(dim(S, x, i), dim(S, y, i))))

    def fields():
        f, g = S.at(params(S, x), 0), S.at(params(S, y), 0)
        return S.And(S.len(f) == S.len(g), S.forall(0, S.len(f), lambda i: S.And(
            S.eq(S.at(S.at(f, i), 0), S.at(S.at(g, i), 0)),
            sim(S.at(S.at(f, i), 1), S.at(S.at(g, i), 1)))))

    def slot(n):
        p, q = S.fld(x, n), S.fld(y, n)
        return S.If(S.And(is_ds(S, p), is_ds(S, q)), sim(p, q), S.eq(p, q))
    cases = [
        (ct.DataShape, lambda: S.And(S.Or(S.Not(on('check_dim')), dims()),
                                     sim(meas(S, x), meas(S, y)))),
        (ct.DateTime, lambda: S.Or(S.Not(on('check_tz')), eqf('tz'))),
        (ct.Time, lambda: S.Or(S.Not(on('check_tz')), eqf('tz'))),
        (ct.TimeDelta, lambda: S.Or(S.Not(on('check_timedelta_unit')), eqf('unit'))),
        (ct.Units, lambda: S.And(eqf('unit'), sim(S.fld(x, 'tp'), S.fld(y, 'tp')))),
        (ct.String, lambda: S.And(S.Or(S.Not(on('check_str_encoding')), eqf('encoding')),
                                  S.Or(S.Not(on('check_str_fixlen')), eqf('fixlen')))),
        (ct.Option, lambda: sim(S.fld(x, 'ty'), S.fld(y, 'ty'))),
        (ct.Record, fields),
        (ct.Tuple, lambda: all_alike(S.fld(x, 'dshapes'), S.fld(y, 'dshapes'))),
        (ct.Function, lambda: all_alike(params(S, x), params(S, y))),
    ] + [(c, (lambda s: lambda: S.And(*[slot(n) for n in s]))(s)) for c, s in PLAIN_SLOTS]
    return S.Iff(sim(x, y), S.If(
        S.same_class(x, y),
        S.And(*[S.Implies(S.cls_is(x, c), f()) for c, f in cases]),
        S.eq(x, y)))


def path_ok(S, p):
    return S.Or(S.is_none(p), S.And(S.is_tuple(p), S.forall(
        0, S.len(p), lambda i: S.is_str(S.at(p, i)))))


def empty_def(S, x):
    """a function type without even a result type occurs in x"""
    return S.Iff(occurs(S, EMPTY, x), S.Or(
        S.And(S.cls_is(x, ct.Function), np_(S, x) == 0), part_occurs(S, EMPTY, x)))


def c_assert_equal():
    return Contract(
        TE + 'assert_dshape_equal', params=('a', 'b'), slow=5.0,
        kwonly=dict({'path': None}, **{k: True for k in OPTS + ('check_record_order',)}),
        opts={'eq': 'basic', 'late_facts': True},
        requires=lambda S, a: S.And(
            is_ds(S, a.a), is_ds(S, a.b), path_ok(S, a.path),
            S.same(a.check_record_order, S.lit(True)),
            *[S.is_bool(getattr(a, k)) for k in OPTS]),
        facts=lambda S, a: [alike_def(S, a.a, a.b, a)] + [
            empty_def(S, y) for x in (a.a, a.b) for y in (x, S.fld(x, 'dshapes'))],
        candidates=[lambda S, a, k, v: S.And(S.is_tuple(v), path_ok(S, v))],
        may_raise=[(IndexError, lambda S, a: S.Or(occurs(S, EMPTY, a.a), occurs(S, EMPTY, a.b)))],
        raises=[(AssertionError, lambda S, a: S.Not(alike(S, a.a, a.b, a)))])


class Defaults:
    """every check on"""

    def __init__(self, S):
        for k in OPTS:
            setattr(self, k, S.lit(True))


def measures_eq(S, p, q):
    return S.Implies(S.And(is_measure_component(S, p), is_measure_component(S, q)), S.Iff(
        S.eq(p, q), S.And(S.same_class(p, q), parameters_eq(S, p, q))))


def c_lemma_measures():
    """Measures are equal if their class and their parameters are."""
    def body(S):
        x, y = S.const('x'), S.const('y')
        theory_of_parts(S, [x, y], lambda u, v: (measures_eq(S, u, v), [S.eq(u, v)]))
        S.assume(is_ds(S, x))
        S.assume(is_ds(S, y))
        S.assume(S.eq(x, y) == eq_def(S, x, y))
        S.assume(S.eq(meas(S, x), meas(S, y)) == S.eq(meas(S, x), meas(S, y)))
        yield 'equal', measures_eq(S, x, y)
    return lemma(body, inv=True)


def c_lemma_default():
    """With the default options: exactly ==."""
    def body(S):
        import z3
        o = Defaults(S)
        x, y = S.const('x'), S.const('y')
        theory_of_parts(S, [x, y], lambda u, v: (z3.Implies(
            z3.And(is_ds(S, u), is_ds(S, v)), alike(S, u, v, o) == S.eq(u, v)),
            [alike(S, u, v, o)]))
        S.assume(is_ds(S, x))
        S.assume(is_ds(S, y))
        S.assume(S.eq(x, y) == eq_def(S, x, y))
        S.assume(measures_eq(S, meas(S, x), meas(S, y)))
        S.assume(alike_def(S, x, y, o))
        for c in ALL:
            S.push()
            S.assume(S.cls_is(x, c))
            yield 'passes exactly on equal datashapes (%s)' % c.__name__, \
                alike(S, x, y, o) == S.eq(x, y)
            S.pop()
    return lemma(body, inv=True)


PROP = 'C17'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
