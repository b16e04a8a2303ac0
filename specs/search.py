"""Contracts of the searches over a datashape (C16) and of the validation of
datashapes (C14)."""
from datashape import coretypes as ct
from dv.contract import Contract
from dv.spec import a_function
from .model import *
from .core import CT

U = 'datashape.util:'
E_TYPES = ct.Ellipsis
EV_TYPES = (ct.Ellipsis, ct.Var)


def slot_classes():
    return [(c, s) for c, s in SLOTS.items()]


def parameters_are(S, x, r):
    """r is the tuple of the parameters of the datashape x."""
    return S.And(S.is_tuple(r), *(
        [S.Implies(S.cls_in(x, PARAMS), S.same(r, params(S, x)))] +
        [S.Implies(S.cls_is(x, c), S.And(S.len(r) == len(s), *[
            S.same(S.at(r, i), S.fld(x, n)) for i, n in enumerate(s)]))
         for c, s in slot_classes()]))


def c_parameters():
    return Contract(
        CT + 'Mono.parameters', self_classes=tuple(c for c in PARAMS) + tuple(SLOTS),
        returns=tuple,
        ensures=lambda S, a, r: [('the parameters in order', parameters_are(S, a.self, r))])


def occurs(S, what, x):
    return S.fn(('occurs_' + what, 'Bool'), x)


def part_occurs(S, what, x):
    """It occurs in a part of x."""
    def oc(y):
        return occurs(S, what, y)
    f = S.at(params(S, x), 0)
    return S.Or(
        S.And(S.cls_is(x, ct.Record), S.exists(
            0, S.len(f), lambda i: oc(S.at(S.at(f, i), 1)))),
        S.And(S.cls_in(x, (ct.DataShape, ct.Function)), S.exists(
            0, np_(S, x), lambda i: oc(S.at(params(S, x), i)))),
        S.And(S.is_seq(x), S.exists(0, S.len(x), lambda i: oc(S.at(x, i)))),
        *[S.And(S.cls_is(x, c), S.Or(*[oc(S.fld(x, n)) for n in s]))
          for c, s in slot_classes()])


def has_c(what, types):
    return Contract(
        U + 'has', const={'typ': types}, returns='bool',
        facts=lambda S, a: [S.Iff(occurs(S, what, a.ds), S.Or(
            S.cls_in(a.ds, types if isinstance(types, tuple) else (types,)),
            part_occurs(S, what, a.ds)))],
        ensures=lambda S, a, r: [
            ('exactly when it occurs in it', S.Iff(S.bool(r), occurs(S, what, a.ds)))])


def c_has_ellipsis():
    return has_c('ellipsis', E_TYPES)


def c_has_var():
    return has_c('var', EV_TYPES)


def collected(S, p, x):
    """The outermost components of x that satisfy p, in order (a tuple)."""
    return S.fn(('collected', 'V'), p, x)


def collected_def(S, p, x):
    c = collected(S, p, x)
    each = S.fn(('collected_each', 'V'), p, x)

    def parts(n, part):
        """what is collected from each of the n parts, one after another"""
        return S.And(
            S.is_tuple(each), S.len(each) == n, S.forall(0, n, lambda i: S.same(
                S.at(each, i), collected(S, p, part(i)))),
            S.same(c, S.fn(('flatten', 'V'), each)))
    f = S.at(params(S, x), 0)
    leaf_ = S.Not(S.Or(S.cls_in(x, PARAMS), S.is_seq(x), S.cls_in(x, tuple(SLOTS))))
    sat = S.bool(S.fn(('apply', 'V'), p, x))
    yield S.is_tuple(c)
    yield S.Implies(sat, S.And(S.len(c) == 1, S.same(S.at(c, 0), x)))
    no = S.Not(sat)
    yield S.Implies(S.And(no, S.cls_is(x, ct.Record)), parts(
        S.len(f), lambda i: S.at(S.at(f, i), 1)))
    yield S.Implies(S.And(no, S.cls_in(x, (ct.DataShape, ct.Function))), parts(
        np_(S, x), lambda i: S.at(params(S, x), i)))
    yield S.Implies(S.And(no, S.is_seq(x)), parts(S.len(x), lambda i: S.at(x, i)))
    for k, names in slot_classes():
        yield S.Implies(S.And(no, S.cls_is(x, k)), S.And(
            S.is_tuple(each), S.len(each) == len(names), *[S.same(
                S.at(each, i), collected(S, p, S.fld(x, n))) for i, n in enumerate(names)] +
            [S.same(c, S.fn(('flatten', 'V'), each))]))
    yield S.Implies(S.And(no, leaf_), S.len(c) == 0)


def c_collect():
    def ens(S, a, r):
        c = collected(S, a.pred, a.expr)
        yield 'a sequence', S.is_seq(r)
        yield 'as many', S.len(r) == S.len(c)
        yield 'the outermost components that satisfy it, in order', S.forall(
            0, S.len(c), lambda i: S.same(S.at(r, i), S.at(c, i)))
    return Contract(
        U + 'collect', objs={'pred': a_function('pred')}, opts={'flatten': True},
        requires=lambda S, a: S.forall_v(lambda x: (
            S.is_bool(S.fn(('apply', 'V'), a.pred, x)), S.fn(('apply', 'V'), a.pred, x))),
        facts=lambda S, a: list(collected_def(S, a.pred, a.expr)), ensures=ens)


PROP = 'C16'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]


# -------------------------------------------------------------- validation
def leaf(S, x):
    """Types without components (Units has its type)."""
    return S.And(S.isinst(x, ct.Unit), S.Not(S.cls_is(x, ct.Units)))


def wf(S, x):
    return S.fn(('well_formed', 'Bool'), x)


def one_ellipsis(S, x):
    """At most one ellipsis, and not as the measure."""
    n = np_(S, x)

    def ell(i):
        return S.cls_is(S.at(params(S, x), i), ct.Ellipsis)
    return S.And(S.Not(ell(n - 1)), S.forall(0, n, lambda i: S.forall(
        0, n, lambda j: S.Not(S.And(i < j, ell(i), ell(j))))))


def wf_def(S, x):
    return S.Iff(wf(S, x), S.And(
        S.Implies(is_D(S, x), one_ellipsis(S, x)),
        S.Implies(S.cls_in(x, PARAMS), S.forall(
            0, np_(S, x), lambda i: wf(S, S.at(params(S, x), i)))),
        S.Implies(S.is_seq(x), S.forall(0, S.len(x), lambda i: wf(S, S.at(x, i)))),
        *[S.Implies(S.And(S.cls_is(x, c), S.Not(leaf(S, x))),
                    S.And(*[wf(S, S.fld(x, n)) for n in s]))
          for c, s in slot_classes()]))


def c_validate_node():
    return Contract(
        'datashape.validation:_validate',
        raises=[(TypeError, lambda S, a: S.And(is_D(S, a.ds), S.Not(one_ellipsis(S, a.ds))))],
        ensures=lambda S, a, r: [])


def c_traverse():
    from datashape import validation
    return Contract(
        'datashape.validation:traverse', const={'f': validation._validate},
        facts=lambda S, a: [wf_def(S, a.t)],
        raises=[(TypeError, lambda S, a: S.Not(wf(S, a.t)))],
        ensures=lambda S, a, r: [])


def c_validate():
    return Contract(
        'datashape.validation:validate', unfold=True, facts=lambda S, a: [wf_def(S, a.ds)],
        raises=[(TypeError, lambda S, a: S.Not(wf(S, a.ds)))],
        ensures=lambda S, a, r: [])


def c_has_ellipsis_fn():
    return Contract(
        U + 'has_ellipsis', returns='bool',
        ensures=lambda S, a, r: [('exactly when one occurs in it', S.Iff(
            S.bool(r), occurs(S, 'ellipsis', a.ds)))])


def c_has_var_dim_fn():
    return Contract(
        U + 'has_var_dim', returns='bool',
        ensures=lambda S, a, r: [('exactly when one occurs in it', S.Iff(
            S.bool(r), occurs(S, 'var', a.ds)))])


CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
