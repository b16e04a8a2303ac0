"""Contracts of the two registries of names (C22)."""
from datashape import coretypes as ct
from datashape import typesets as T
from dv.contract import Contract
from dv.values import Obj
from dv.spec import symbolic_dict, Sym
from .core import CT

TS = 'datashape.typesets:'


class _Class:
    """(stands for a class with a registry)"""


def type_class(I):
    d, h = symbolic_dict(I, '_registry')
    return Obj(_Class, {'_registry': d}), h


def typesets(I):
    o = Obj(T.TypesetRegistry)
    I.call_function(T.TypesetRegistry.__init__, [o], {})
    d, h = symbolic_dict(I, 'registry', o.attrs['registry'])
    S = Sym(I)
    I.ctx.assume(S.forall(0, h.len, lambda k: S.cls_is(h.value(k), T.TypeSet)))
    return o, h


def kept(S, d):
    q, v = S.ghost('name'), S.ghost('value')
    return S.Iff(S.binds(d.now, q, v), S.binds(d.old, q, v))


def added(S, d, name, x):
    """exactly name -> x was added"""
    q, v = S.ghost('name'), S.ghost('value')
    return [
        ('the name resolves to the object', S.binds(d.now, name, x)),
        ('everything else is as it was', S.Implies(
            S.And(S.is_str(q), S.Not(S.same(q, name))),
            S.Iff(S.binds(d.now, q, v), S.binds(d.old, q, v))))]


def never(I, a):
    return False


def c_register():
    return Contract(
        CT + 'Type.register', objs={'cls': type_class}, when=never,
        requires=lambda S, a: S.is_str(a.name),
        raises=[(TypeError, lambda S, a: S.has_key(a.cls.old, a.name))],
        on_raise=lambda S, a: [('the registry is as it was', kept(S, a.cls))],
        ensures=lambda S, a, r: added(S, a.cls, a.name, a.type))


def c_lookup_type():
    return Contract(
        CT + 'Type.lookup_type', objs={'cls': type_class}, when=never,
        requires=lambda S, a: S.is_str(a.name),
        raises=[(KeyError, lambda S, a: S.Not(S.has_key(a.cls.old, a.name)))],
        on_raise=lambda S, a: [('the registry is as it was', kept(S, a.cls))],
        ensures=lambda S, a, r: [('what the name was registered for', S.binds(
            a.cls.old, a.name, r)), ('the registry is as it was', kept(S, a.cls))])


def c_register_typeset():
    return Contract(
        TS + 'TypesetRegistry.register_typeset', objs={'self': typesets}, when=never,
        requires=lambda S, a: S.And(S.is_str(a.name), S.cls_is(a.typeset, T.TypeSet)),
        raises=[(TypeError, lambda S, a: S.has_key(a.self.old, a.name))],
        on_raise=lambda S, a: [('the registry is as it was', kept(S, a.self))],
        ensures=lambda S, a, r: added(S, a.self, a.name, a.typeset) + [
            ('returns the type set', S.same(r, a.typeset))])


def c_typeset_getitem():
    return Contract(
        TS + 'TypesetRegistry.__getitem__', objs={'self': typesets}, when=never,
        requires=lambda S, a: S.is_str(a.key),
        raises=[(KeyError, lambda S, a: S.Not(S.has_key(a.self.old, a.key)))],
        on_raise=lambda S, a: [('the registry is as it was', kept(S, a.self))],
        ensures=lambda S, a, r: [('what the name was registered for', S.binds(
            a.self.old, a.key, r)), ('the registry is as it was', kept(S, a.self))])


PROP = 'C22'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
