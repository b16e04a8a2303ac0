"""Contracts of the conversions from and to NumPy (C06) and of promotion (C07).

Of NumPy it is assumed: a data type depends only on the text or the fields it
is made of (`np_dtype`), and what is listed at the lemmas."""
import numpy as np
import datashape
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import CT
from .canon import is_unit, unit_of
from .equality import eq_def, theory_of_parts, lemma

PM = 'datashape.promote:'
SCALARS = (ct.CType, ct.String, ct.Date, ct.Time, ct.DateTime, ct.TimeDelta, ct.Decimal,
           ct.Bytes, ct.Null, ct.Units, ct.JSON)
MISSING = (ct.Date, ct.DateTime, ct.TimeDelta)     # what NumPy has a missing value of
INTS = ((2, np.int8), (4, np.int16), (9, np.int32), (18, np.int64))


# -------------------------------------------------------------- to data types
def numpy_name(S, x):
    n = S.fld(x, 'name')
    return S.If(S.same(n, S.lit('complex[float32]')), S.lit('complex64'), S.If(
        S.same(n, S.lit('complex[float64]')), S.lit('complex128'), n))


def conv(S, x):
    """the data type of the measure x"""
    return S.fn(('np_conv', 'V'), x)


def conv_ok(S, x):
    return S.fn(('np_conv_ok', 'Bool'), x)


def understood(S, t):
    return S.fn(('np_dtype_ok', 'Bool'), t)


def dtype(S, t):
    return S.fn(('np_dtype', 'V'), t)


def text(S, template, x):
    return S.V.vs(S.fn(('text:' + template, 'Str'), x))


def by_text(S, x, t):
    return S.And(S.Iff(conv_ok(S, x), understood(S, t)), S.same(conv(S, x), dtype(S, t)))


def conv_def(S, x):
    fixlen, prec, scale = S.fld(x, 'fixlen'), S.fld(x, 'precision'), S.fld(x, 'scale')
    integers, lo = [], None
    for p, t in INTS:
        here = S.int(prec) <= p
        integers.append(S.Implies(
            here if lo is None else S.And(S.Not(S.int(prec) <= lo), here),
            S.same(conv(S, x), S.lit(np.dtype(t)))))
        lo = p
    ty = S.fld(x, 'ty')
    cases = [
        (ct.CType, by_text(S, x, numpy_name(S, x))),
        (ct.Date, by_text(S, x, S.lit('datetime64[D]'))),
        (ct.DateTime, by_text(S, x, S.lit('datetime64[us]'))),
        (ct.TimeDelta, by_text(S, x, text(S, 'timedelta64[{}]', S.fld(x, 'unit')))),
        (ct.String, by_text(S, x, S.If(S.is_none(fixlen), S.lit('O'), S.If(
            S.same(S.fld(x, 'encoding'), S.lit('A')), text(S, 'S{}', fixlen),
            text(S, 'U{}', fixlen))))),
        (ct.Decimal, S.If(
            S.intof(scale) == 0,
            S.And(S.Iff(conv_ok(S, x), S.intof(prec) <= 18), *integers),
            S.And(conv_ok(S, x), S.same(conv(S, x), S.lit(np.dtype(np.float64)))))),
        (ct.Option, S.And(
            S.Iff(conv_ok(S, x), S.And(S.cls_in(ty, MISSING), conv_ok(S, ty))),
            S.same(conv(S, x), conv(S, ty)))),
    ]
    plain = [c for c in SLOTS if c not in [k for k, _ in cases]
             and c not in (ct.Tuple, ct.Map, datashape.typesets.TypeSet)]
    return S.And(*([S.Implies(S.cls_is(x, c), f) for c, f in cases] + [
        S.Implies(S.cls_in(x, plain), S.Not(conv_ok(S, x)))]))


def converter(cls, **kw):
    return Contract(
        CT + cls.__name__ + '.to_numpy_dtype', self_classes=(cls,),
        requires=lambda S, a: S.Implies(S.cls_is(a.self, ct.Decimal), S.And(
            S.is_int(S.fld(a.self, 'precision')), S.is_int(S.fld(a.self, 'scale')))),
        facts=lambda S, a: [conv_def(S, a.self), conv_def(S, S.fld(a.self, 'ty'))],
        raises=[(TypeError, lambda S, a: S.Not(conv_ok(S, a.self)))],
        ensures=lambda S, a, r: [('the data type of the type', S.And(
            S.is_dtype(r), S.same(r, conv(S, a.self))))], **kw)


def c_conv_CType():
    return converter(ct.CType)


def c_conv_Date():
    return converter(ct.Date)


def c_conv_DateTime():
    return converter(ct.DateTime)


def c_conv_TimeDelta():
    return converter(ct.TimeDelta)


def c_conv_String():
    return converter(ct.String)


def c_conv_Decimal():
    return converter(ct.Decimal)


def c_conv_Option():
    return converter(ct.Option)


def scalar(S, x):
    return S.cls_in(x, SCALARS)


def optional(S, x):
    return S.And(S.cls_is(x, ct.Option), scalar(S, S.fld(x, 'ty')))


def bare(S, x):
    return S.If(S.cls_is(x, ct.Option), S.fld(x, 'ty'), x)


def decimals(S, x):
    """precision and scale are not booleans"""
    def ok(x):
        return S.Implies(S.cls_is(x, ct.Decimal), S.And(
            S.is_int(S.fld(x, 'precision')), S.is_int(S.fld(x, 'scale'))))
    return S.And(ok(x), ok(bare(S, x)))


# ------------------------------------------------------ records and dimensions
CONV = SCALARS + (ct.Option, ct.Record)


def entry(S, x):
    """what the elements of x are stored as"""
    m = meas(S, x)
    return S.If(S.cls_is(m, ct.Map), meas(S, S.fld(m, 'key')), m)


def in_scope(S, x):
    """x is made of such types at every depth"""
    return S.fn(('np_in_scope', 'Bool'), x)


def in_scope_def(S, x):
    m = meas(S, x)
    return S.Iff(in_scope(S, x), S.And(
        is_ds(S, x), S.cls_in(m, CONV + (ct.Map,)), decimals(S, m),
        S.Implies(is_D(S, x), in_scope(S, m)),
        S.Implies(S.cls_is(x, ct.Option), scalar(S, S.fld(x, 'ty'))),
        S.Implies(S.cls_is(x, ct.Map), S.And(
            S.cls_in(meas(S, S.fld(x, 'key')), CONV), in_scope(S, meas(S, S.fld(x, 'key'))))),
        S.Implies(S.cls_is(x, ct.Record), S.forall(
            0, S.len(fields(S, x)), lambda i: in_scope(S, ftype(S, x, i))))))


def record_dtype(S, x, d):
    """d is the data type of the record x"""
    return S.fn(('np_record', 'Bool'), x, d)


def stored_as(S, m, d):
    return S.And(S.is_dtype(d), S.If(S.cls_is(m, ct.Record), record_dtype(S, m, d),
                                     S.same(d, conv(S, m))))


def dims_ok(S, x):
    return S.forall(0, ndim(S, x), lambda i: S.cls_in(dim(S, x, i), (ct.Fixed, ct.TypeVar)))


def shape_is(S, x, s):
    """s is the NumPy shape of x"""
    return S.And(S.is_tuple(s), S.len(s) == ndim(S, x), S.forall(
        0, S.len(s), lambda i: S.And(S.is_int(S.at(s, i)), S.If(
            S.cls_is(dim(S, x, i), ct.Fixed),
            S.int(S.at(s, i)) == S.int(S.fld(dim(S, x, i), 'val')),
            S.int(S.at(s, i)) == -1))))


def fields(S, x):
    return S.at(params(S, x), 0)


def fname(S, x, i):
    return S.at(S.at(fields(S, x), i), 0)


def ftype(S, x, i):
    return S.at(S.at(fields(S, x), i), 1)


def dfield(S, d, k):
    """the data type of the field k of the data type d"""
    return S.at(S.dget(datt(S, d, 'fields'), k), 0)


def structured(S, d):
    f, n = datt(S, d, 'fields'), datt(S, d, 'names')
    return S.And(S.is_dict(f), S.is_tuple(n))


def record_def(S, x):
    def body(d):
        return S.And(
            S.is_dtype(d), structured(S, d),
            S.len(datt(S, d, 'names')) == S.len(fields(S, x)),
            S.forall(0, S.len(fields(S, x)), lambda i: S.And(
                S.same(S.at(datt(S, d, 'names'), i), fname(S, x, i)),
                S.dhas(datt(S, d, 'fields'), fname(S, x, i)),
                stored_as(S, entry(S, ftype(S, x, i)),
                          datt(S, dfield(S, d, fname(S, x, i)), 'base')),
                shape_is(S, ftype(S, x, i), datt(S, dfield(S, d, fname(S, x, i)), 'shape')))))
    return S.forall_v(lambda d: (S.Iff(record_dtype(S, x, d), body(d)), record_dtype(S, x, d)))


def c_conv_Record():
    return Contract(
        CT + 'Record.to_numpy_dtype', self_classes=(ct.Record,),
        requires=lambda S, a: in_scope(S, a.self),
        facts=lambda S, a: [record_def(S, a.self), in_scope_def(S, a.self)],
        may_raise=[((TypeError, ValueError), lambda S, a: True)],
        ensures=lambda S, a, r: [('the data type of the fields, in order',
                                  S.And(S.is_dtype(r), record_dtype(S, a.self, r)))])


def c_conv_Tuple():
    """(a tuple of such types, without further tuples in it)"""
    def part(S, x, i):
        return S.at(S.fld(x, 'dshapes'), i)

    def size(S, x):
        return S.len(S.fld(x, 'dshapes'))

    def name(S, i):
        return text(S, 'f{}', S.mkint(i))

    def ens(S, a, r):
        x = a.self
        yield 'a structured data type', S.And(S.is_dtype(r), structured(S, r))
        yield 'as many fields', S.len(datt(S, r, 'names')) == size(S, x)
        yield 'named by their positions', S.forall(0, size(S, x), lambda i: S.And(
            S.same(S.at(datt(S, r, 'names'), i), name(S, i)),
            S.dhas(datt(S, r, 'fields'), name(S, i))))
        yield 'the data types and shapes of the parts, in order', S.forall(
            0, size(S, x), lambda i: S.And(
                stored_as(S, entry(S, part(S, x, i)),
                          datt(S, dfield(S, r, S.at(datt(S, r, 'names'), i)), 'base')),
                shape_is(S, part(S, x, i), datt(
                    S, dfield(S, r, S.at(datt(S, r, 'names'), i)), 'shape'))))
    return Contract(
        CT + 'Tuple.to_numpy_dtype', self_classes=(ct.Tuple,),
        requires=lambda S, a: S.forall(0, size(S, a.self), lambda i: in_scope(
            S, part(S, a.self, i))),
        may_raise=[((TypeError, ValueError), lambda S, a: True)], ensures=ens)


def c_to_numpy():
    return Contract(
        CT + 'to_numpy',
        requires=lambda S, a: in_scope(S, a.ds),
        facts=lambda S, a: [in_scope_def(S, a.ds), in_scope_def(S, meas(S, a.ds)), in_scope_def(S, entry(S, a.ds)),
                            conv_def(S, meas(S, a.ds))],
        raises=[(TypeError, lambda S, a: S.Not(dims_ok(S, a.ds))),
                (TypeError, lambda S, a: S.And(
                    S.Not(S.cls_is(entry(S, a.ds), ct.Record)),
                    S.Not(conv_ok(S, entry(S, a.ds)))))],
        may_raise=[((TypeError, ValueError), lambda S, a: S.cls_is(entry(S, a.ds), ct.Record))],
        ensures=lambda S, a, r: [
            ('shape and data type', S.And(S.is_tuple(r), S.len(r) == 2)),
            ('every fixed dimension, in order', shape_is(S, a.ds, S.at(r, 0))),
            ('the data type of the measure', stored_as(S, entry(S, a.ds), S.at(r, 1)))])


def c_to_numpy_dtype():
    return Contract(
        CT + 'to_numpy_dtype',
        requires=lambda S, a: in_scope(S, a.ds),
        facts=lambda S, a: [in_scope_def(S, a.ds), in_scope_def(S, meas(S, a.ds)),
                            in_scope_def(S, entry(S, a.ds))],
        raises=[(TypeError, lambda S, a: S.And(
            S.Not(S.cls_is(entry(S, a.ds), ct.Record)), S.Not(conv_ok(S, entry(S, a.ds)))))],
        may_raise=[((TypeError, ValueError), lambda S, a: S.cls_is(entry(S, a.ds), ct.Record))],
        ensures=lambda S, a, r: [('the data type of the type',
                                  stored_as(S, entry(S, a.ds), r))])


NUMBERS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16',
           'float32', 'float64', 'complex[float32]', 'complex[float64]')


def c_isnumeric():
    """(that the data types of these names are numbers or not is asked of NumPy)"""
    from .preds import measure_of, ds_or_str

    def m(S, a):
        return measure_of(S, a.ds)

    def asked(S):
        for n in NUMBERS + ('bool',):
            d = {'complex[float32]': 'complex64', 'complex[float64]': 'complex128'}.get(n, n)
            t = dtype(S, S.lit(d))
            yield sub(S, t, np.number) if np.issubdtype(np.dtype(d), np.number) else S.Not(
                sub(S, t, np.number))
            yield understood(S, S.lit(d))
        for d in [np.dtype(t) for _, t in INTS] + [np.dtype(np.float64)]:
            yield sub(S, S.lit(d), np.number)

    def ens(S, a, r):
        x = m(S, a)
        yield 'a type whose data type is a number', S.Iff(S.bool(r), S.And(
            S.isinst(x, ct.Unit), conv_ok(S, x), sub(S, conv(S, x), np.number)))
        yield 'the number types', S.And(*[S.Implies(S.And(
            S.cls_is(x, ct.CType), S.same(S.fld(x, 'name'), S.lit(n))), S.bool(r) == (n in NUMBERS))
            for n in NUMBERS + ('bool',)])
        yield 'every decimal that NumPy has', S.Implies(
            S.And(S.cls_is(x, ct.Decimal), conv_ok(S, x)), S.bool(r))
    return Contract(
        'datashape.predicates:isnumeric', returns='bool',
        requires=lambda S, a: S.And(ds_or_str(S, a.ds), in_scope(S, m(S, a))),
        may_raise=[(Exception, lambda S, a: S.is_str(a.ds))],
        facts=lambda S, a: [in_scope_def(S, m(S, a)), conv_def(S, m(S, a))] + list(asked(S)),
        ensures=ens)


# ------------------------------------------------------------ from data types
def has_ctype(S, n):
    return S.fn(('ctype_has', 'Bool'), n)


def ctype(S, n):
    return S.fn(('ctype_named', 'V'), n)


def datt(S, d, name):
    return S.fld(d, 'dtype_' + name)


def sub(S, d, kind):
    return S.fn(('np_issubdtype', 'Bool'), d, S.lit(kind))


def unit(S, d):
    return S.V.vs(S.fn(('np_unit', 'Str'), d))


def from_ok(S, d):
    """NumPy data types that have a datashape"""
    u = S.strip(unit(S, d))
    return S.Or(has_ctype(S, datt(S, d, 'name')), S.If(
        sub(S, d, np.datetime64), True, S.If(
            sub(S, d, np.timedelta64), is_unit(S, u), S.Or(
                sub(S, d, np.str_), sub(S, d, np.bytes_)))))


def from_is(S, d, r):
    """r is the type of the (unstructured) data type d"""
    n = S.int(datt(S, d, 'itemsize'))

    def string(k, enc):
        return S.And(S.cls_is(r, ct.String), S.is_int(S.fld(r, 'fixlen')),
                     S.int(S.fld(r, 'fixlen')) == k,
                     S.same(S.fld(r, 'encoding'), S.lit(enc)))
    return S.If(
        has_ctype(S, datt(S, d, 'name')), S.same(r, ctype(S, datt(S, d, 'name'))), S.If(
            sub(S, d, np.datetime64), S.same(r, S.If(
                S.oneof(unit(S, d), ('Y', 'M', 'W', 'D')), S.lit(ct.date_),
                S.lit(ct.datetime_))), S.If(
                sub(S, d, np.timedelta64), S.And(
                    S.cls_is(r, ct.TimeDelta),
                    unit_of(S, S.strip(unit(S, d)), S.fld(r, 'unit'))), S.If(
                    sub(S, d, np.str_), string(n / 4, 'U32'), string(n, 'A')))))


def c_lookup_ctype():
    return Contract(
        CT + 'Type.lookup_type', assumed=True,
        note='the names of NumPy data types are registered for C types only',
        when=lambda I, a: a and a[0] is ct.Type,
        requires=lambda S, a: S.is_str(a.name),
        raises=[(KeyError, lambda S, a: S.Not(has_ctype(S, a.name)))],
        ensures=lambda S, a, r: [('a C type', S.And(
            S.cls_is(r, ct.CType), S.same(r, ctype(S, a.name))))])


def c_from_numpy_dtype():
    return Contract(
        CT + 'CType.from_numpy_dtype', const={'self': ct.CType},
        requires=lambda S, a: S.is_dtype(a.dt),
        raises=[((NotImplementedError, ValueError), lambda S, a: S.Not(from_ok(S, a.dt)))],
        ensures=lambda S, a, r: [
            ('the type of the data type', from_is(S, a.dt, r)),
            ('not optional', scalar(S, r))])


def wf_dtype(S, d):
    """a data type as NumPy makes them (without titles)"""
    return S.fn(('np_wf', 'Bool'), d)


def sizes(S, s):
    return S.And(S.is_tuple(s), S.forall(0, S.len(s), lambda i: S.And(
        S.is_int(S.at(s, i)), S.int(S.at(s, i)) >= 0)))


def wf_dtype_def(S, d):
    f, names = datt(S, d, 'fields'), datt(S, d, 'names')

    def field(i):
        k = S.at(names, i)
        t = dfield(S, d, k)
        return S.And(
            S.is_str(k), S.dhas(f, k), S.is_tuple(S.dget(f, k)), S.len(S.dget(f, k)) == 2,
            S.is_dtype(t), S.is_dtype(datt(S, t, 'base')), wf_dtype(S, datt(S, t, 'base')),
            sizes(S, datt(S, t, 'shape')))
    return S.Implies(wf_dtype(S, d), S.And(
        S.is_dtype(d), S.Or(S.is_dict(f), S.is_none(f)), S.Implies(has_fields(S, d), S.And(
            S.is_tuple(names), S.forall(0, S.len(names), field),
            S.forall(0, S.len(names), lambda i: S.forall(0, S.len(names), lambda j: S.Or(
                i == j, S.Not(S.same(S.at(names, i), S.at(names, j))))))))))


def has_fields(S, d):
    f = datt(S, d, 'fields')
    return S.And(S.is_dict(f), S.len(f) > 0)


def type_is(S, d, m):
    """m is the type of the elements of the data type d"""
    return S.fn(('np_type_is', 'Bool'), d, m)


def array_is(S, s, d, x):
    """x is the datashape of an array of shape s and data type d"""
    n = S.len(s)
    return S.If(n == 0, type_is(S, d, x), S.And(
        is_D(S, x), np_(S, x) == n + 1, S.forall(0, n, lambda i: S.And(
            S.cls_is(dim(S, x, i), ct.Fixed), S.same(S.fld(dim(S, x, i), 'val'), S.at(s, i)))),
        type_is(S, d, S.at(params(S, x), n))))


def type_is_def(S, d, m):
    names = datt(S, d, 'names')
    size = S.int(datt(S, d, 'itemsize'))

    def string(k, enc):
        return S.And(S.cls_is(m, ct.String), S.is_int(S.fld(m, 'fixlen')),
                     S.int(S.fld(m, 'fixlen')) == k, S.same(S.fld(m, 'encoding'), S.lit(enc)))

    def record():
        def field(i):
            t = dfield(S, d, S.at(names, i))
            return S.And(S.same(fname(S, m, i), S.at(names, i)), array_is(
                S, datt(S, t, 'shape'), datt(S, t, 'base'), ftype(S, m, i)))
        return S.And(S.cls_is(m, ct.Record), S.len(fields(S, m)) == S.len(names),
                     S.forall(0, S.len(names), field))
    return S.Iff(type_is(S, d, m), S.If(
        S.same(datt(S, d, 'kind'), S.lit('S')), string(size, 'A'), S.If(
            S.same(datt(S, d, 'kind'), S.lit('U')), string(size / 4, 'U32'), S.If(
                has_fields(S, d), record(), from_is(S, d, m)))))


def supported(S, d):
    """there is a datashape of the data type d"""
    return S.fn(('np_supported', 'Bool'), d)


def supported_def(S, d):
    names = datt(S, d, 'names')
    return S.Iff(supported(S, d), S.Or(
        S.oneof(datt(S, d, 'kind'), ('S', 'U')), S.If(
            has_fields(S, d), S.forall(0, S.len(names), lambda i: supported(
                S, datt(S, dfield(S, d, S.at(names, i)), 'base'))), from_ok(S, d))))


def c_from_numpy():
    return Contract(
        CT + 'from_numpy',
        requires=lambda S, a: S.And(sizes(S, a.shape), S.is_dtype(a.dt), wf_dtype(S, a.dt)),
        facts=lambda S, a: [
            wf_dtype_def(S, a.dt), supported_def(S, a.dt),
            S.forall_v(lambda m: (type_is_def(S, a.dt, m), type_is(S, a.dt, m)))],
        raises=[((NotImplementedError, ValueError), lambda S, a: S.Not(supported(S, a.dt)))],
        ensures=lambda S, a, r: [
            ('the dimensions and the type', array_is(S, a.shape, a.dt, r)),
            ('a type', is_measure_component(S, r))])


def same_dtype(S, d, e):
    """equal data types"""
    return S.fn(('np_equal', 'Bool'), d, e)


def faithful(S, d):
    """a data type of a boolean, a number, a text of fixed length, or a packed
    record of these"""
    return S.fn(('np_faithful', 'Bool'), d)


def same_sizes(S, s, t):
    return S.And(S.len(s) == S.len(t), S.forall(0, S.len(s), lambda i: S.same(
        S.at(s, i), S.at(t, i))))


def about_numpy(S, d, e, m):
    """What is assumed of NumPy."""
    names, other = datt(S, d, 'names'), datt(S, e, 'names')

    def field(i):
        t, u = dfield(S, d, S.at(names, i)), dfield(S, e, S.at(names, i))
        return S.And(same_dtype(S, datt(S, t, 'base'), datt(S, u, 'base')),
                     same_sizes(S, datt(S, t, 'shape'), datt(S, u, 'shape')))
    kind, size = datt(S, d, 'kind'), S.int(datt(S, d, 'itemsize'))
    k = S.fld(m, 'fixlen')
    text_of = lambda k_, n, t: S.Implies(
        S.And(S.same(kind, S.lit(k_)), S.is_int(k), n == S.int(k)),
        same_dtype(S, d, dtype(S, text(S, t, k))))
    return [
        # the bytes and texts of one length are one type
        text_of('S', size, 'S{}'),
        S.Implies(S.same(kind, S.lit('U')), S.intof(datt(S, d, 'itemsize')) % 4 == 0),
        text_of('U', size / 4, 'U{}'),
        # records with equal fields, in order and without gaps, are equal
        S.Implies(S.And(has_fields(S, d), structured(S, e), S.len(names) == S.len(other),
                        S.forall(0, S.len(names), lambda i: S.And(
                            S.same(S.at(names, i), S.at(other, i)), field(i)))),
                  same_dtype(S, d, e)),
        # a plain type is what its name means
        S.Implies(S.And(faithful(S, d), S.Not(has_fields(S, d)), S.Not(
            S.oneof(kind, ('S', 'U')))), S.And(
                has_ctype(S, datt(S, d, 'name')), S.cls_is(ctype(S, datt(S, d, 'name')), ct.CType),
                same_dtype(S, d, dtype(S, numpy_name(S, ctype(S, datt(S, d, 'name'))))))),
        # parts of such a type are such types
        S.Implies(S.And(faithful(S, d), has_fields(S, d)), S.forall(
            0, S.len(names), lambda i: faithful(S, datt(
                S, dfield(S, d, S.at(names, i)), 'base')))),
    ]


def c_lemma_roundtrip():
    """data type -> datashape -> data type gives an equal data type"""
    def body(S):
        import z3
        d, e, m = [S.const(n) for n in 'dem']
        w = S.w
        size = w.fn('dtype_size', 'V', 'Int')
        D, E, M = [z3.Const('rt_' + n, S.V) for n in 'DEM']

        def claim(d, e, m):
            return S.Implies(S.And(faithful(S, d), wf_dtype(S, d), type_is(S, d, m),
                                   stored_as(S, entry(S, m), e)), same_dtype(S, d, e))
        # a type is not an array: what array_is says of a field without dimensions
        S.assume(type_is_def(S, d, m))
        S.assume(type_is(S, d, m))
        for f in about_numpy(S, d, e, m):
            S.assume(f)
        S.assume(faithful(S, d))
        yield 'not an array or a map', S.And(S.Not(is_D(S, m)), S.Not(S.cls_is(m, ct.Map)))
        S.assume(z3.ForAll([D, M], z3.Implies(S.And(faithful(S, D), type_is(S, D, M)), S.And(
            S.Not(is_D(S, M)), S.Not(S.cls_is(M, ct.Map)))), patterns=[type_is(S, D, M)]))
        # by induction on the nesting
        S.assume(z3.ForAll([D], size(D) >= 0, patterns=[size(D)]))
        S.assume(z3.ForAll([D, E, M], z3.Implies(size(D) < size(d), claim(D, E, M)), patterns=[
            z3.MultiPattern(same_dtype(S, D, E), type_is(S, D, M))]))
        names = datt(S, d, 'names')
        S.assume(S.forall(0, S.len(names), lambda i: size(datt(
            S, dfield(S, d, S.at(names, i)), 'base')) < size(d)))
        for f in [wf_dtype_def(S, d), type_is_def(S, d, m), conv_def(S, m), record_def(S, m)] + \
                about_numpy(S, d, e, m):
            S.assume(f)
        S.assume(faithful(S, d))
        S.assume(wf_dtype(S, d))
        S.assume(type_is(S, d, m))
        S.assume(stored_as(S, entry(S, m), e))
        for k in ('S', 'U'):
            yield 'equal: kind ' + k, S.Implies(
                S.same(datt(S, d, 'kind'), S.lit(k)), same_dtype(S, d, e))
        S.assume(S.Not(S.oneof(datt(S, d, 'kind'), ('S', 'U'))))
        yield 'equal: no fields', S.Implies(S.Not(has_fields(S, d)), same_dtype(S, d, e))
        S.assume(has_fields(S, d))
        i = S.const('i', 'Int')
        S.assume(z3.And(0 <= i, i < S.len(names)))
        t, u = dfield(S, d, S.at(names, i)), dfield(S, e, S.at(names, i))
        x = ftype(S, m, i)
        yield 'a field: same shape', same_sizes(S, datt(S, t, 'shape'), datt(S, u, 'shape'))
        yield 'a field: same type', same_dtype(S, datt(S, t, 'base'), datt(S, u, 'base'))
    return lemma(body, inv=True, eq='basic')


# ------------------------------------------------------------------ promotion
def result_type(S, x, y):
    return S.fn(('np_result_type', 'V'), conv(S, x), conv(S, y))


def c_optionify():
    return Contract(
        PM + 'optionify',
        requires=lambda S, a: S.And(*[S.Or(scalar(S, x), optional(S, x))
                                      for x in (a.lhs, a.rhs, a.dshape)]),
        ensures=lambda S, a, r: [
            ('optional exactly if one of them is', optionified(S, a.lhs, a.rhs, a.dshape, r))])


def optionified(S, x, y, t, r):
    some = S.Or(*[S.cls_is(v, ct.Option) for v in (x, y)])
    return S.If(S.And(some, scalar(S, t)), S.And(
        S.cls_is(r, ct.Option), S.same(S.fld(r, 'ty'), t)), S.same(r, t))


def is_string(S, x):
    return S.eq(x, S.lit(datashape.string))


def both_strings(S, x, y):
    return S.And(is_string(S, bare(S, x)), is_string(S, bare(S, y)))


def promotable(S, x, y):
    p, q = bare(S, x), bare(S, y)
    d = result_type(S, p, q)
    return S.Or(S.eq(x, y), both_strings(S, x, y), S.And(
        conv_ok(S, p), conv_ok(S, q),
        S.fn(('np_promotable', 'Bool'), conv(S, p), conv(S, q)), from_ok(S, d)))


def promoted(S, x, y, opt, r):
    """r is what x and y promote to"""
    p, q = bare(S, x), bare(S, y)
    some = S.And(opt, S.Or(S.cls_is(x, ct.Option), S.cls_is(y, ct.Option)))
    t = S.If(some, S.fld(r, 'ty'), r)
    return S.If(S.eq(x, y), S.same(r, x), S.And(
        S.Implies(some, S.cls_is(r, ct.Option)), scalar(S, t), S.If(
            both_strings(S, x, y), S.same(t, S.lit(datashape.string)),
            from_is(S, result_type(S, p, q), t))))


def transitive(S, x, y, z):
    """(== is an equivalence: C01)"""
    import itertools
    return [S.Implies(S.And(S.eq(p, q), S.eq(q, r)), S.eq(p, r))
            for p, q, r in itertools.permutations((x, y, z))]


def c_promote():
    return Contract(
        PM + 'promote',
        facts=lambda S, a: transitive(S, bare(S, a.lhs), bare(S, a.rhs),
                                      S.lit(datashape.string)) + [
            in_scope_def(S, bare(S, x)) for x in (a.lhs, a.rhs)],
        requires=lambda S, a: S.And(S.is_bool(a.promote_option), *[S.And(
            S.Or(scalar(S, x), optional(S, x)), decimals(S, x)) for x in (a.lhs, a.rhs)]),
        raises=[((TypeError, NotImplementedError, ValueError),
                 lambda S, a: S.Not(promotable(S, a.lhs, a.rhs)))],
        ensures=lambda S, a, r: [
            ('what NumPy promotes them to, optional as they are',
             promoted(S, a.lhs, a.rhs, S.bool(a.promote_option), r))])


def promotion(S):
    """x and y promote to r, y and x to q; NumPy's promotion is symmetric"""
    x, y, r, q = [S.const(n) for n in 'xyrq']
    for v in (x, y):
        S.assume(S.Or(scalar(S, v), optional(S, v)))
    on = S.bool(S.const('promote_option'))
    a, b = conv(S, bare(S, x)), conv(S, bare(S, y))
    for f, sort in (('np_result_type', 'V'), ('np_promotable', 'Bool')):
        S.assume(S.fn((f, sort), a, b) == S.fn((f, sort), b, a))
    return x, y, r, q, on


def c_lemma_commutes():
    """Promotion gives equal types in either order, or fails in both."""
    def body(S):
        x, y, r, q, on = promotion(S)
        for f in transitive(S, bare(S, x), bare(S, y), S.lit(datashape.string)):
            S.assume(f)
        yield 'possible in both orders or in none', S.Iff(
            promotable(S, x, y), promotable(S, y, x))
        S.assume(promotable(S, x, y))
        S.assume(promoted(S, x, y, on, r))
        S.assume(promoted(S, y, x, on, q))
        for v, w in ((r, q), (bare(S, r), bare(S, q))):
            S.assume(S.Implies(S.And(is_ds(S, v), is_ds(S, w)), S.eq(v, w) == eq_def(S, v, w)))
        yield 'equal results', S.eq(r, q)
    return lemma(body, inv=True, eq='basic')


def c_lemma_optional():
    """What promotion does with options, and with one type."""
    def body(S):
        x, y, r, q, on = promotion(S)
        S.assume(promoted(S, x, y, on, r))
        some = S.Or(S.cls_is(x, ct.Option), S.cls_is(y, ct.Option))
        yield 'a type promotes to itself', S.Implies(S.eq(x, y), S.same(r, x))
        S.assume(S.Not(S.eq(x, y)))
        yield 'optional exactly if one of them is', S.Implies(
            on, S.Iff(S.cls_is(r, ct.Option), some))
        yield 'never optional with option promotion off', S.Implies(
            S.Not(on), S.Not(S.cls_is(r, ct.Option)))
        yield 'never doubly optional', S.Not(S.And(
            S.cls_is(r, ct.Option), S.cls_is(S.fld(r, 'ty'), ct.Option)))
    return lemma(body, inv=True, eq='basic')


PROP = 'C06'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
