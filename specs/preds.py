"""Contracts of dshape() and of the structural predicates (C15)."""
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import CT, BAD, no_str, ds_acceptable, laundered, acceptable_dim
from .search import wf, wf_def, slot_classes

P = 'datashape.predicates:'
TERMINAL = (ct.CType, ct.String, ct.Record, ct.JSON, ct.Date, ct.Time, ct.DateTime, ct.Unit)
BARE = (ct.Tuple, ct.Option, ct.Map, ct.Function, ct.Categorical)     # not wrapped by dshape


def parsed(S, text):
    """The datashape that a text stands for (C12)."""
    return S.fn(('parsed', 'V'), text)


def shaped(S, x, r):
    """r is dshape(x) for a datashape x."""
    return S.If(is_D(S, x), S.same(r, x), S.If(
        S.isinst(x, *TERMINAL), S.And(wrapper(S, r), S.same(S.at(params(S, r), 0), x)),
        S.same(r, x)))


def wrappable(S, x):
    return S.Or(S.Not(S.isinst(x, *TERMINAL)), is_measlike(S, x))


def c_dshape():
    def bad(S, a):
        """(texts and lists apart)"""
        return S.And(S.Not(S.is_str(a.o)), S.Not(S.is_seq(a.o)), S.Not(is_ds(S, a.o)))
    return Contract(
        'datashape.util:dshape',
        requires=lambda S, a: S.Implies(S.is_seq(a.o), S.Or(S.len(a.o) == 1, no_str(S, a.o))),
        facts=lambda S, a: [wf_def(S, a.o)],
        raises=[(TypeError, bad),
                (BAD, lambda S, a: S.And(S.is_seq(a.o), S.Not(ds_acceptable(S, a.o)))),
                (BAD, lambda S, a: S.And(is_ds(S, a.o), S.Not(is_D(S, a.o)),
                                         S.Not(wrappable(S, a.o)))),
                (TypeError, lambda S, a: S.And(is_ds(S, a.o), S.Not(is_D(S, a.o)),
                                               S.Not(wf(S, a.o))))],
        may_raise=[(Exception, lambda S, a: S.Or(S.is_str(a.o), S.is_seq(a.o)))],
        ensures=lambda S, a, r: [
            ('a datashape of that meaning', S.And(
                is_ds(S, r),
                S.Implies(is_ds(S, a.o), shaped(S, a.o, r)),
                S.Implies(S.is_str(a.o), S.And(is_D(S, r), S.same(r, parsed(S, a.o)))),
                S.Implies(S.is_seq(a.o), S.And(
                    is_D(S, r), np_(S, r) == S.len(a.o), S.forall(
                        0, S.len(a.o), lambda i: laundered(
                            S, S.at(a.o, i), S.at(params(S, r), i))))))),
            ('one ellipsis at most, at every depth', S.Or(is_D(S, a.o), wf(S, r)))])



# ----------------------------------------------------------------- predicates
def view(S, x):
    return S.If(S.is_str(x), parsed(S, x), x)


def strip(S, x):
    """Without a dimensionless wrapper."""
    return S.If(wrapper(S, x), S.at(params(S, x), 0), x)


def unopt(S, x):
    return S.If(S.cls_is(x, ct.Option), S.fld(x, 'ty'), x)


def core_of(S, x):
    """The type that a scalar or record predicate is about."""
    return unopt(S, strip(S, view(S, x)))


def measure_of(S, x):
    v = view(S, x)
    return unopt(S, meas(S, v))


def ds_or_str(S, x):
    return S.Or(is_ds(S, x), S.is_str(x))


def pred(name, spec, arg='ds', returns='bool', **kw):
    return Contract(
        P + name, returns=returns,
        requires=lambda S, a: ds_or_str(S, getattr(a, arg)),
        may_raise=[(Exception, lambda S, a: S.is_str(getattr(a, arg)))],
        ensures=lambda S, a, r: [
            ('as the structure determines', S.Iff(S.bool(r), spec(S, getattr(a, arg))))], **kw)


def c_isscalar():
    return pred('isscalar', lambda S, x: S.Or(
        S.isinst(core_of(S, x), ct.Unit), S.cls_is(core_of(S, x), ct.Categorical)))


def c_isrecord():
    return pred('isrecord', lambda S, x: S.cls_is(core_of(S, x), ct.Record))


def c_isdimension():
    return Contract(
        P + 'isdimension', returns='bool',
        ensures=lambda S, a, r: [
            ('dimensions and integers', S.Iff(S.bool(r), S.Or(
                S.is_intlike(a.ds), S.cls_in(a.ds, (ct.Fixed, ct.Var, ct.Ellipsis)))))])


def c_launder_preds():
    return Contract(
        P + 'launder', requires=lambda S, a: ds_or_str(S, a.ds),
        may_raise=[(Exception, lambda S, a: S.is_str(a.ds))],
        ensures=lambda S, a, r: [('the measure without its option',
                                  S.same(r, measure_of(S, a.ds)))])


def needs_dshape(name, spec, returns='bool'):
    """Predicates of what dshape() makes of the argument."""
    def ok(S, x):
        return S.Or(is_D(S, x), S.And(is_ds(S, x), wrappable(S, x), wf(S, x)))
    return Contract(
        P + name, returns=returns, requires=lambda S, a: ds_or_str(S, a.ds),
        raises=[(BAD, lambda S, a: S.Not(S.Or(S.is_str(a.ds), ok(S, a.ds))))],
        may_raise=[(Exception, lambda S, a: S.is_str(a.ds))],
        ensures=lambda S, a, r: [
            ('as the structure determines', S.Iff(S.bool(r), spec(S, a.ds)))])


def c_istabular():
    return needs_dshape('istabular', lambda S, x: S.And(
        ndim(S, view(S, x)) == 1, S.cls_is(unopt(S, strip(S, meas(S, view(S, x)))), ct.Record)))


def c_iscollection():
    def first(S, x):
        return S.If(is_D(S, x), S.at(params(S, x), 0), x)
    return needs_dshape('iscollection', lambda S, x: S.cls_in(
        first(S, view(S, x)), (ct.Fixed, ct.Var, ct.Ellipsis)))


def c_dimensions():
    c = needs_dshape('_dimensions', lambda S, x: True, returns='int')
    c.ensures = lambda S, a, r: [('the number of dimensions', S.int(r) == ndim(S, view(S, a.ds)))]
    return c


def c_isdatelike():
    def spec(S, x):
        m = measure_of(S, x)
        return S.Or(S.eq(m, S.lit(ct.date_)), S.eq(m, S.lit(ct.datetime_)))
    return pred('isdatelike', spec)


def member(S, x, ts):
    o = S.fld(S.lit(ts), '_order')
    return S.exists(0, S.len(o), lambda i: S.eq(S.at(o, i), x))


def c_isreal():
    from datashape import typesets as T

    def spec(S, x):
        m = measure_of(S, x)
        return S.And(S.isinst(m, ct.Unit), member(S, m, T.floating))
    return pred('isreal', spec)


def c_isboolean():
    from datashape import typesets as T
    c = pred('isboolean', lambda S, x: member(S, measure_of(S, x), T.boolean))
    c.opts = dict(c.opts, inline=('TypeSet.__contains__',))
    return c


def state(S, x):
    """isfixed of a component: True, False or None."""
    return S.fn(('fixed_state', 'V'), x)


def fixed_def(S, x):
    """The first component that is not a fixed dimension decides."""
    def st(y, v):
        return S.same(state(S, y), v)
    none, no, yes = S.lit(None), S.lit(False), S.lit(True)

    def at(d):
        return S.If(S.cls_is(d, ct.TypeVar), none, no)

    def dims_fixed(n):
        return S.forall(0, n, lambda j: S.cls_is(dim(S, x, j), ct.Fixed))
    f = S.at(params(S, x), 0)
    ds = S.fld(x, 'dshapes')
    n, first = ndim(S, x), S.fn(('first_not_fixed', 'Int'), x)

    def every(n, g):
        return S.If(S.forall(0, n, lambda i: S.same(state(S, g(i)), yes)), yes, no)
    return S.And(
        S.Implies(is_D(S, x), S.And(
            0 <= first, first <= n, dims_fixed(first),
            S.If(first < n, S.And(S.Not(S.cls_is(dim(S, x, first), ct.Fixed)),
                                  st(x, at(dim(S, x, first)))),
                 # (a datashape nested as a measure is not looked into)
                 st(x, S.If(is_D(S, meas(S, x)), yes, state(S, meas(S, x))))))),
        S.Implies(S.cls_is(x, ct.TypeVar), st(x, none)),
        S.Implies(S.cls_in(x, (ct.Var, ct.Ellipsis)), st(x, no)),
        S.Implies(S.cls_is(x, ct.Option), st(x, state(S, S.fld(x, 'ty')))),
        S.Implies(S.cls_is(x, ct.Record), st(x, every(
            S.len(f), lambda i: S.at(S.at(f, i), 1)))),
        S.Implies(S.cls_is(x, ct.Tuple), st(x, every(S.len(ds), lambda i: S.at(ds, i)))),
        S.Implies(S.And(is_ds(S, x), S.Not(S.cls_in(x, (
            ct.DataShape, ct.TypeVar, ct.Var, ct.Ellipsis, ct.Option, ct.Record, ct.Tuple)))),
            st(x, yes)))


def c_isfixed():
    return Contract(
        P + 'isfixed', unfold=True,
        requires=lambda S, a: S.Or(is_D(S, a.ds), S.And(
            is_ds(S, a.ds), wrappable(S, a.ds))),
        facts=lambda S, a: [fixed_def(S, a.ds), S.Implies(
            S.And(is_D(S, a.ds), np_(S, a.ds) == 1), fixed_def(S, S.at(params(S, a.ds), 0)))],
        opts={'late_facts': True, 'inline': ('DataShape.__getitem__', 'Mono.__getitem__', 'DataShape.__len__',
                         'Mono.__len__')},
        may_raise=[(TypeError, lambda S, a: True)],
        ensures=lambda S, a, r: [
            ('as the first component that is not a fixed dimension determines',
             S.same(r, state(S, a.ds))),
            ('True, False or None', S.Or(*[S.same(r, S.lit(v)) for v in (True, False, None)]))])


PROP = 'C15'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
