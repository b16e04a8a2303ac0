"""Contracts of validate and issubschema (C21)."""
import datetime
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import CT
from .preds import parsed
from .numpy_ import conv, conv_ok, in_scope_def

U = 'datashape.user:'
BASIC = (int, bool, float, str, datetime.date, datetime.time, datetime.datetime)
OWN = ((ct.String, (str,)), (ct.Time, (datetime.time,)), (ct.DateTime, (datetime.datetime,)),
       (ct.Date, (datetime.date, datetime.datetime)))


def valid(S, x, v):
    """v is a value of the schema x"""
    return S.fn(('valid', 'Bool'), x, v)


def rest(S, x, v):
    """v is a value of the datashape x without its first dimension"""
    return S.fn(('valid_rest', 'Bool'), x, v)


def basic(S, v):
    return S.cls_in(v, BASIC)


def valid_def(S, x, v):
    p = params(S, x)
    n = S.len(p)
    head = S.at(p, 0)
    f = S.at(p, 0)                              # the fields of a record
    def sequence():
        return S.Or(
            S.And(n == 1, valid(S, head, v)),
            S.And(S.cls_in(head, (ct.Fixed, ct.Var)),
                  S.Or(S.cls_is(head, ct.Var), S.int(S.fld(head, 'val')) == S.len(v)),
                  S.forall(0, S.len(v), lambda i: rest(S, x, S.at(v, i)))))

    def value(i):
        k = S.at(S.at(f, i), 0)
        return S.If(S.dhas(v, k), S.dget(v, k), S.lit(None))
    return S.Iff(valid(S, x, v), S.Or(
        S.And(S.is_str(x), valid(S, parsed(S, x), v)),
        S.And(S.is_tuple(x), S.exists(0, S.len(x), lambda i: valid(S, S.at(x, i), v))),
        S.And(is_D(S, x), S.If(S.is_seq(v), sequence(), S.And(n == 1, valid(S, head, v)))),
        S.And(S.cls_is(x, ct.Record), S.is_dict(v), S.forall(
            0, S.len(f), lambda i: valid(S, S.at(S.at(f, i), 1), value(i)))),
        S.And(S.cls_is(x, ct.Record), S.is_seq(v), S.len(v) == S.len(f), S.forall(
            0, S.len(f), lambda i: valid(S, S.at(S.at(f, i), 1), S.at(v, i)))),
        S.And(S.cls_is(x, ct.CType), basic(S, v), S.fn(
            ('np_issubdtype', 'Bool'), S.clsof(v), conv(S, x))),
        *[S.And(S.cls_is(x, c), S.cls_in(v, own)) for c, own in OWN]))


def rest_def(S, x):
    """(what `rest` means)"""
    import z3
    o, v = z3.Const('rest_o', S.V), z3.Const('rest_v', S.V)
    p, q = params(S, o), params(S, x)
    return z3.ForAll([o, v], z3.Implies(
        z3.And(is_D(S, o), S.len(p) == S.len(q) - 1, S.forall(
            0, S.len(p), lambda i: S.same(S.at(p, i), S.at(q, i + 1)))),
        valid(S, o, v) == rest(S, x, v)), patterns=[valid(S, o, v)])


def plain(S, v):
    """a value made of plain Python values"""
    return S.fn(('plain', 'Bool'), v)


def plain_def(S, v):
    return S.Implies(plain(S, v), S.And(
        S.Or(basic(S, v), S.is_none(v), S.is_seq(v), S.is_dict(v),
             S.cls_in(v, (bytes, complex, datetime.timedelta))),
        S.Implies(S.is_seq(v), S.forall(0, S.len(v), lambda i: plain(S, S.at(v, i)))),
        S.Implies(S.is_dict(v), S.forall_keys(v, lambda k: plain(S, S.dget(v, k))))))


def schema(S, x):
    """a schema that values can be validated against"""
    return S.fn(('schema', 'Bool'), x)


def schema_def(S, x):
    p = params(S, x)
    f = S.at(p, 0)
    return S.Implies(schema(S, x), S.And(
        S.Or(S.is_str(x), S.is_tuple(x), S.cls_in(
            x, (ct.DataShape, ct.Record, ct.CType, ct.String, ct.Time, ct.Date, ct.DateTime))),
        S.Implies(S.is_str(x), schema(S, parsed(S, x))),
        S.Implies(S.is_tuple(x), S.forall(0, S.len(x), lambda i: S.And(
            schema(S, S.at(x, i)), S.Not(S.is_dtype(S.at(x, i)))))),
        S.Implies(is_D(S, x), S.And(
            S.forall(0, S.len(p) - 1, lambda i: S.cls_in(S.at(p, i), (ct.Fixed, ct.Var))),
            schema(S, S.at(p, S.len(p) - 1)))),
        S.Implies(S.cls_is(x, ct.Record), S.forall(
            0, S.len(f), lambda i: schema(S, S.at(S.at(f, i), 1)))),
        S.Implies(S.cls_is(x, ct.CType), conv_ok(S, x))))


def rest_schema(S, x):
    """a datashape made of parts of a schema is one"""
    import z3
    o = z3.Const('rest_s', S.V)
    p, q = params(S, o), params(S, x)
    return z3.ForAll([o], z3.Implies(
        z3.And(is_D(S, x), schema(S, x), is_D(S, o), S.len(p) == S.len(q) - 1, S.forall(
            0, S.len(p), lambda i: S.same(S.at(p, i), S.at(q, i + 1)))),
        schema(S, o)), patterns=[schema(S, o)])


def c_validate_value():
    return Contract(
        U + 'validate', params=('schema', 'value'), slow=3.0,
        opts={'eq': 'basic'},
        requires=lambda S, a: S.And(
            S.Or(S.And(schema(S, a.schema), plain(S, a.value)),
                 S.And(S.is_dtype(a.schema), basic(S, a.value)))),
        facts=lambda S, a: [valid_def(S, a.schema, a.value), rest_def(S, a.schema),
                            plain_def(S, a.value), plain(S, S.lit(None)), schema_def(S, a.schema),
                            rest_schema(S, a.schema), in_scope_def(S, a.schema)],
        may_raise=[(Exception, lambda S, a: S.Or(S.is_str(a.schema), S.is_tuple(a.schema)))],
        ensures=lambda S, a, r: [
            ('succeeds exactly on the values of the schema', S.truth(r, S.If(
                S.is_dtype(a.schema),
                S.fn(('np_issubdtype', 'Bool'), S.clsof(a.value), a.schema),
                valid(S, a.schema, a.value))))])


def c_issubschema():
    return Contract(
        U + 'issubschema', params=('a', 'b'),
        requires=lambda S, a: S.And(is_D(S, a.a), is_D(S, a.b)),
        ensures=lambda S, a, r: [('exactly the equal ones', S.truth(r, S.eq(a.a, a.b)))])


PROP = 'C21'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
