"""Contracts of pickling and of rebuilding from parameters (C02)."""
from datashape import coretypes as ct
from dv.contract import Contract, Args
from .model import *
from .core import CT
from . import core, cons, canon, search
from .search import parameters_are
from .equality import eq_def, lemma

ALL = PARAMS + tuple(SLOTS)


def c_getstate():
    return Contract(
        CT + 'Mono.__getstate__', self_classes=ALL,
        ensures=lambda S, a, r: [('the parameters', parameters_are(S, a.self, r))])


def setstate(cls):
    slots = SLOTS.get(cls)

    def req(S, a):
        return S.And(S.is_tuple(a.state), S.len(a.state) == len(slots) if slots is not None else True)

    def ens(S, a, r):
        if slots is None:
            out = [('parameters', S.same(S.fld(a.self, '_parameters'), a.state))]
            if cls is ct.DataShape:
                out.append(('not named', S.is_none(S.fld(a.self, 'name'))))
            return out
        return [('the state of ' + n, S.same(S.fld(a.self, n), S.at(a.state, i)))
                for i, n in enumerate(slots)] or [('nothing to restore', True)]

    def f():
        return Contract(CT + cls.__name__ + '.__setstate__' if cls is not typesets.TypeSet else
                        'datashape.typesets:TypeSet.__setstate__',
                        new=True, self_classes=(cls,), requires=req, ensures=ens,
                        when=lambda I, args: False)
    f.__name__ = 'c_setstate_' + cls.__name__
    return f


# ----------------------------------------------- calling the class once more
REBUILT = {
    ct.DataShape: core.c_DataShape_init, ct.Fixed: core.c_Fixed_init,
    ct.Time: cons.c_Time_init, ct.DateTime: cons.c_DateTime_init,
    ct.Ellipsis: cons.c_Ellipsis_init, ct.Units: cons.c_Units_init,
    ct.Decimal: cons.c_Decimal_init, ct.Option: cons.c_Option_init,
    ct.Map: cons.c_Map_init, ct.Function: cons.c_Function_init,
    ct.Tuple: cons.c_Tuple_init, ct.Record: cons.c_Record_init,
    ct.Categorical: cons.c_Categorical_init, ct.TypeVar: cons.c_TypeVar_init,
    ct.TimeDelta: canon.c_TimeDelta_init, ct.String: canon.c_String_init,
}


def rebuild(cls, make):
    def body(S):
        import z3
        c = make()
        c.bind_live()
        names, vararg, kwarg, defaults = c.signature()
        x, y = S.const('x'), S.const('y')
        S.assume(S.cls_is(x, cls))
        S.assume(INV[cls][0](S, x) if cls in INV else True)
        a = {names[0]: y}
        n = len(names) - 1
        if vararg is not None and cls in PARAMS:
            a[vararg] = params(S, x)
        elif vararg is not None:
            t = S.V.vr(S.const('t', 'Ref'))
            S.assume(parameters_are(S, x, t))
            a[vararg] = t
        elif cls in PARAMS:
            for i, k in enumerate(names[1:]):
                a[k] = S.at(params(S, x), i)
        else:
            for k, slot in zip(names[1:], SLOTS[cls]):
                a[k] = S.fld(x, slot)
        if kwarg is not None:
            a[kwarg] = {}
        A = Args(a)
        if cls is ct.TypeVar:
            # what c_TypeVar_init establishes
            S.assume(S.Not(c.raises[1][1](S, A)))
        if cls is ct.Categorical:
            # (its type is not a nested datashape)
            S.assume(S.Not(is_D(S, S.fld(x, 'type'))))
        for f in c.facts(S, A):
            S.assume(f)
        S.push()
        yield 'precondition', c.requires(S, A)
        for exc, cond in c.raises + c.may_raise:
            yield 'is not rejected', S.Not(cond(S, A))
        S.pop()
        S.assume(S.cls_is(y, cls))
        for nme, f in c.ensures(S, A, y):
            S.assume(f)
        for n in SLOTS.get(cls, ()):
            if (cls, n) not in ((ct.Tuple, 'dshapes'), (ct.Categorical, 'categories')):
                f = S.same(S.fld(y, n), S.fld(x, n))
                if n in ('fixlen', 'precision', 'scale'):
                    f = S.eq(S.fld(y, n), S.fld(x, n))
                yield 'the same ' + n, f
                S.assume(f)
        yield 'equal to the original', eq_def(S, y, x)

    def f():
        return lemma_of(cls, body, {ct.TypeVar: {}}.get(cls, {}))
    f.__name__ = 'c_rebuild_' + cls.__name__
    return f


def lemma_of(cls, body, opts):
    return Contract(CT + cls.__name__ + '.__init__', lemma=body, opts=dict({'eq': 'seq'}, **opts))


PROP = 'C02'
CONTRACTS = [c_getstate] + [setstate(c) for c in ALL] + [rebuild(c, m) for c, m in REBUILT.items()]
