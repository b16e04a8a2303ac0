"""Contracts of the unification of discovered types (C10)."""
import z3
from datashape import coretypes as ct, discovery
from dv.contract import Contract
from .model import *
from .core import acceptable_dim, laundered
from .equality import lemma
from .arith import prefixed
from .equality import eq_def, eq_ds, parameters_eq
from .graph import app, instance, reach

DIM = (ct.Fixed, ct.Var, ct.Ellipsis)
DI = 'datashape.discovery:'


def by_contract(I, x, y):
    """== of a datashape, by the contracts of C01"""
    from dv.spec import Sym
    S = Sym(I)
    hook = I.opt.pop('eq_hook')
    I.ctx.assume(S.Implies(is_ds(S, x), S.Iff(I.w.E(x, y), eq_def(S, x, y))))
    I.opt['eq_hook'] = hook


def is_null(S, x):
    """null, or null wrapped in a datashape without dimensions"""
    return S.And(is_ds(S, x), ndim(S, x) == 0, S.cls_is(meas(S, x), ct.Null))


def c_isnull():
    return Contract(
        DI + 'isnull', returns='bool', requires=lambda S, a: is_ds(S, a.ds),
        ensures=lambda S, a, r: [('null without dimensions', S.Iff(
            S.bool(r), is_null(S, a.ds)))], opts={'eq_hook': by_contract})


def c_unpack():
    return Contract(
        DI + 'unpack', requires=lambda S, a: is_ds(S, a.ds),
        ensures=lambda S, a, r: [
            ('without the wrapper', S.same(r, S.If(wrapper(S, a.ds), meas(S, a.ds), a.ds)))])


def all_ds(S, xs):
    return S.And(S.is_list(xs), S.forall(0, S.len(xs), lambda i: is_ds(S, S.at(xs, i))))


def alike(S, xs, f=lambda x: x):
    return S.And(S.len(xs) > 0, S.forall(0, S.len(xs), lambda i: S.eq(
        f(S.at(xs, i)), f(S.at(xs, 0)))))


def sized(S, n, x, r):
    """r is n * x"""
    m = S.If(is_D(S, x), np_(S, x), 1)
    return S.And(
        is_D(S, r), np_(S, r) == m + 1,
        S.cls_is(dim(S, r, 0), ct.Fixed), S.same(S.fld(dim(S, r, 0), 'val'), S.mkint(n)),
        S.If(is_D(S, x),
             S.forall(0, m, lambda i: S.same(S.at(params(S, r), i + 1), S.at(params(S, x), i))),
             S.same(S.at(params(S, r), 1), x)))


def c_unite_identical():
    def m_ok(S, x):
        return S.Or(is_D(S, x), is_measlike(S, x))
    return Contract(
        DI + 'unite_identical', requires=lambda S, a: S.And(
            all_ds(S, a.dshapes), S.forall(0, S.len(a.dshapes), lambda i: m_ok(
                S, S.at(a.dshapes, i)))),
        ensures=lambda S, a, r: [
            ('None when they differ', S.Iff(S.is_none(r), S.Not(alike(S, a.dshapes)))),
            ('their number of the one', S.Implies(alike(S, a.dshapes), sized(
                S, S.len(a.dshapes), S.at(a.dshapes, 0), r)))],
        opts={'sets': True, 'dicts': True})


def tails_alike(S, x, y):
    """x and y are equal but for their first dimensions"""
    return S.And(np_(S, x) == np_(S, y),
                 S.forall(1, ndim(S, x), lambda i: S.eq(dim(S, x, i), dim(S, y, i))),
                 S.same_class(meas(S, x), meas(S, y)),
                 parameters_eq(S, meas(S, x), meas(S, y)))


def c_unite_merge_dimensions():
    def facts(S, a):
        # == of datashapes, by the contracts of C01
        return [S.forall_vs(2, lambda x, y: (S.Implies(S.And(is_D(S, x), is_D(S, y)), S.Iff(
            S.eq(x, y), eq_ds(S, x, y))), S.eq(x, y)))]

    def split(S, a):
        xs = a.dshapes
        ok = S.forall(0, S.len(xs), lambda i: S.And(
            is_D(S, S.at(xs, i)), S.cls_in(dim(S, S.at(xs, i), 0), DIM)))
        return xs, S.And(S.len(xs) > 0, ok, S.forall(0, S.len(xs), lambda i: tails_alike(
            S, S.at(xs, i), S.at(xs, 0))))

    def ens(S, a, r):
        xs, ok = split(S, a)
        x = S.at(xs, 0)
        first = lambda y: dim(S, y, 0)
        some = S.Not(S.is_none(r))
        return [
            ('None when they differ after the first dimension', S.Iff(S.is_none(r), S.Not(ok))),
            ('one dimension more', S.Implies(some, S.And(is_D(S, r), np_(S, r) == np_(S, x) + 1))),
            ('their number', S.Implies(some, S.And(S.cls_is(dim(S, r, 0), ct.Fixed), S.same(
                S.fld(dim(S, r, 0), 'val'), S.mkint(S.len(xs)))))),
            ('the common dimension', S.Implies(S.And(some, alike(S, xs, first)), S.same(
                dim(S, r, 1), first(x)))),
            ('or a variable one', S.Implies(S.And(some, S.Not(alike(S, xs, first))), S.same(
                dim(S, r, 1), S.lit(ct.var)))),
            ('the rest as it was', S.Implies(some, S.forall(1, np_(S, x), lambda i: S.same(
                S.at(params(S, r), i + 1), S.at(params(S, x), i)))))]
    return Contract(
        DI + 'unite_merge_dimensions', const={'unite': discovery.unite_identical},
        requires=lambda S, a: S.And(
            all_ds(S, a.dshapes)), facts=facts, ensures=ens,
        opts={'sets': True, 'dicts': True})


def reachable(table, x):
    """(of the tables of the module, which are constants)"""
    out, new = [x], [x]
    while new:
        new = [z for y in new for k, zs in table.items() if k == y
               for z in zs if not any(z == o for o in out)]
        out += [z for i, z in enumerate(new) if not any(z == o for o in new[:i])]
    return out


def tables(S):
    """What is known of the constants edges and toposorted."""
    E, T = discovery.edges, discovery.toposorted
    d = S.lit(E)
    out = []
    nodes = []
    for n in list(T) + list(E) + [x for s in E.values() for x in s]:
        if not any(n == m for m in nodes):
            nodes.append(n)
    k = lambda n: S.key(S.lit(n))
    for i, n in enumerate(nodes):
        out += [k(n) != k(m) for m in nodes[:i]]
        ns = [k(m) for m in reachable(E, n)]
        out.append(S.forall_v(lambda y: (S.Iff(reach(S, d, S.lit(n), y), S.Or(
            *[S.same(y, m) for m in ns])), reach(S, d, S.lit(n), y))))
    return d, out


def rank(S, y):
    """the position in toposorted of what has the key y, or -1"""
    r = z3.IntVal(-1)
    for i, n in reversed(list(enumerate(discovery.toposorted))):
        r = S.If(S.same(y, S.key(S.lit(n))), z3.IntVal(i), r)
    return r


def known(S, r):
    """without dimensions, and of the class of a known type"""
    return S.And(is_ds(S, r), ndim(S, r) == 0, S.cls_in(meas(S, r), tuple(
        {type(n) for n in discovery.toposorted})))


def c_lowest():
    def covers(S, a, y):
        d = S.lit(discovery.edges)
        return S.forall(0, S.len(a.dshapes), lambda i: reach(S, d, S.at(a.dshapes, i), y))

    def none(S, a):
        return S.And(*[S.Not(covers(S, a, S.key(S.lit(n)))) for n in discovery.toposorted])

    def others(S, a):
        return S.Not(S.forall_v(lambda y: (S.Implies(covers(S, a, y), S.Or(*[
            S.same(y, S.key(S.lit(n))) for n in discovery.toposorted])), reach(
                S, S.lit(discovery.edges), S.at(a.dshapes, 0), y))))

    def facts(S, a):
        d, out = tables(S)
        return out

    def ens(S, a, r):
        # what is equal to a known type, by the contracts of C01
        for n in discovery.toposorted:
            S.I.ctx.assume(S.Implies(S.same(S.key(r), S.key(S.lit(n))), known(S, r)))
        return [
            ('covers all of them', covers(S, a, S.key(r))),
            ('one of the known types', S.And(rank(S, S.key(r)) >= 0, known(S, r))),
            ('what else covers them comes later', S.And(*[S.Implies(
                covers(S, a, S.key(S.lit(n))), rank(S, S.key(r)) <= i)
                for i, n in enumerate(discovery.toposorted)]))]
    return Contract(
        DI + 'lowest_common_dshape', facts=facts,
        requires=lambda S, a: S.And(all_ds(S, a.dshapes), S.len(a.dshapes) > 0),
        raises=[(ValueError, none), (ValueError, others)],
        ensures=ens,
        opts={'sets': True, 'dicts': 'holds', 'keys_only': True})


def bare(S, x):
    """x without the wrapper"""
    return S.If(wrapper(S, x), meas(S, x), x)


def c_unite_base():
    def facts(S, a):
        # what groupby is told about isnull, by its contract
        f = S.lit(discovery.isnull)
        return [S.forall_v(lambda x: (S.Implies(is_ds(S, x), S.same(
            app(S, f, x), S.mkbool(is_null(S, x)))), app(S, f, x))),
            S.forall_i(lambda i: (instance(S, i), instance(S, i)))]

    def ens(S, a, r):
        xs = a.dshapes
        n = S.len(xs)
        each = lambda f: S.forall(0, n, lambda i: S.Implies(instance(S, i), f(S.at(xs, i))))
        nulls = each(lambda x: is_null(S, x))
        some = S.Not(each(lambda x: S.Not(is_null(S, x))))
        m = meas(S, r)
        b = S.If(S.cls_is(m, ct.Option), S.fld(m, 'ty'), m)
        return [
            ('one dimension', S.And(is_D(S, r), np_(S, r) == 2)),
            ('their number', S.And(S.cls_is(dim(S, r, 0), ct.Fixed), S.same(
                S.fld(dim(S, r, 0), 'val'), S.mkint(n)))),
            ('null when all are null', S.Implies(nulls, S.cls_is(m, ct.Null))),
            ('optional exactly if one is null', S.Implies(S.Not(nulls), S.Iff(
                S.cls_is(m, ct.Option), some))),
            ('records stay records with their fields', each(lambda x: S.Implies(
                S.cls_is(bare(S, x), ct.Record), S.And(
                    S.cls_is(b, ct.Record))))),
        ]
    return Contract(
        DI + 'unite_base', facts=facts, requires=lambda S, a: all_ds(S, a.dshapes),
        may_raise=[(ValueError, lambda S, a: True)], ensures=ens,
        opts={'sets': True, 'dicts': True, 'keys_only': True})


def c_lemma_least():
    """The first of the types that cover the inputs is the least general: none
    of the others leads to it."""
    def body(S):
        y, r = S.key(S.const('y')), S.key(S.const('r'))
        d, facts = tables(S)
        for f in facts:
            S.assume(f)
        S.assume(S.And(rank(S, r) >= 0, rank(S, y) >= rank(S, r), reach(S, d, y, r)))
        yield 'least general', S.same(y, r)
    return lemma(body, sets=True, dicts='holds')


PROP = 'C10'
CONTRACTS = [c_isnull, c_unpack, c_unite_identical, c_unite_merge_dimensions, c_lowest, c_lemma_least]
