"""Contracts of the constructors in the symbol table (C12): what the names and
the brackets of a text stand for."""
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import BAD, laundered_m
from .cons import field_is
from .equality import eq_ds
from .unite import by_contract

ST = 'datashape.type_symbol_table:'


def variable(S, x):
    return S.And(S.is_str(x), S.capital(x), S.identifier(x), S.Not(S.same(x, S.lit('True'))),
                 S.Not(S.same(x, S.lit('False'))))


def variable_is(S, x, name):
    return S.And(S.cls_is(x, ct.TypeVar), S.same(S.fld(x, 'symbol'), name))


def typevar(f):
    return Contract(ST + f, raises=[(BAD, lambda S, a: S.Not(variable(S, a.name)))],
                    ensures=lambda S, a, r: [('the variable of that name', variable_is(S, r, a.name))])


def c_typevar_dim():
    return typevar('_typevar_dim')


def c_typevar_dtype():
    return typevar('_typevar_dtype')


def c_ellipsis_of():
    return Contract(
        ST + '_ellipsis', raises=[(BAD, lambda S, a: S.Not(variable(S, a.name)))],
        ensures=lambda S, a, r: [('the ellipsis of that name', S.And(
            S.cls_is(r, ct.Ellipsis), variable_is(S, S.fld(r, 'typevar'), a.name)))])


def shapes(S, xs):
    return S.forall(0, S.len(xs), lambda i: is_D(S, S.at(xs, i)))


def dup(S, xs):
    return S.exists(0, S.len(xs), lambda i: S.exists(0, S.len(xs), lambda j: S.And(
        i < j, S.same(S.at(xs, i), S.at(xs, j)))))


def c_struct_of():
    """(of names and datashapes, which are all that a text gives)"""
    return Contract(
        ST + '_struct',
        requires=lambda S, a: S.And(
            S.is_list(a.names), S.is_list(a.dshapes), shapes(S, a.dshapes),
            S.forall(0, S.len(a.names), lambda i: S.is_str(S.at(a.names, i)))),
        raises=[(ValueError, lambda S, a: S.len(a.names) != S.len(a.dshapes)),
                (BAD, lambda S, a: dup(S, a.names))],
        ensures=lambda S, a, r: [
            ('a record of as many fields', S.And(
                S.cls_is(r, ct.Record), S.len(S.at(params(S, r), 0)) == S.len(a.names))),
            ('names and types in order', S.forall(
                0, S.len(a.names), lambda i: field_is(
                    S, S.at(S.at(params(S, r), 0), i),
                    lambda n: S.same(n, S.at(a.names, i)),
                    lambda t: laundered_m(S, S.at(a.dshapes, i), t))))])


def c_funcproto_of():
    return Contract(
        ST + '_funcproto',
        requires=lambda S, a: S.And(S.is_seq(a.args), shapes(S, a.args), is_D(S, a.ret)),
        ensures=lambda S, a, r: [
            ('arguments and result', S.And(S.cls_is(r, ct.Function),
                                           np_(S, r) == S.len(a.args) + 1)),
            ('arguments in order', S.forall(0, S.len(a.args), lambda i: S.same(
                S.at(params(S, r), i), S.at(a.args, i)))),
            ('then the result', S.same(S.at(params(S, r), np_(S, r) - 1), a.ret))])


def c_complex_of():
    """(of a datashape, which is all that a text gives)"""
    def real(S, a, t):
        return eq_ds(S, a.tp, S.lit(ct.DataShape(t)))
    return Contract(
        ST + '_complex', opts={'eq_hook': by_contract},
        requires=lambda S, a: is_D(S, a.tp),
        raises=[(TypeError, lambda S, a: S.Not(S.Or(
            real(S, a, ct.float32), real(S, a, ct.float64))))],
        ensures=lambda S, a, r: [
            ('of two float32', S.Implies(real(S, a, ct.float32), S.same(r, S.lit(ct.complex64)))),
            ('of two float64', S.Implies(real(S, a, ct.float64), S.same(r, S.lit(ct.complex128))))])


PROP = 'C12'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
