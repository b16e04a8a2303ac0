"""Contracts of time units and string encodings."""
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import CT

SPELLINGS = {'Y': ('year', 'years'), 'W': ('week', 'weeks'),
             'D': ('day', 'days', 'date', 'dates'), 'h': ('hour', 'hours'),
             's': ('second', 'seconds'), 'ms': ('millisecond', 'milliseconds'),
             'us': ('microsecond', 'microseconds'), 'ns': ('nanosecond', 'nanoseconds'),
             'm': (), 'M': ()}
ENC = {'A': ('A', 'ascii'), 'U8': ('U8', 'utf-8', 'utf_8', 'utf8'),
       'U16': ('U16', 'utf-16', 'utf_16', 'utf16'),
       'U32': ('U32', 'utf-32', 'utf_32', 'utf32')}


def stripped_units(S, a):
    return [S.same(S.strip(S.lit(u)), S.lit(u)) for u in UNITS]


def is_unit(S, t):
    return S.oneof(t, [s for u, ss in SPELLINGS.items() for s in (u,) + ss])


def unit_of(S, t, r):
    return S.And(*[S.Implies(S.oneof(t, (u,) + ss), S.same(r, S.lit(u)))
                   for u, ss in SPELLINGS.items()])


def c_normalize_time_unit():
    return Contract(
        CT + 'normalize_time_unit', opts={'strings': 'seq'},
        requires=lambda S, a: S.is_str(a.s), facts=stripped_units,
        raises=[(ValueError, lambda S, a: S.Not(is_unit(S, S.strip(a.s))))],
        ensures=lambda S, a, r: [
            ('the canonical abbreviation', S.And(unit_of(S, S.strip(a.s), r),
                                                 S.oneof(r, UNITS))),
            ('canonical units are unchanged', S.Implies(S.oneof(a.s, UNITS), S.same(r, a.s)))])


def c_TimeDelta_init():
    return Contract(
        CT + 'TimeDelta.__init__', new=True, self_classes=(ct.TimeDelta,), defaults={'unit': 'us'}, facts=stripped_units,
        raises=[(ValueError, lambda S, a: S.Not(is_unit(S, S.strip(S.strof(a.unit)))))],
        ensures=lambda S, a, r: [
            ('the canonical abbreviation is stored',
             unit_of(S, S.strip(S.strof(a.unit)), S.fld(a.self, 'unit'))),
            ('class invariant', inv_TimeDelta(S, a.self))])


def c_String_init():
    def n(S, a):
        return S.len(a.args)

    def arg(S, a, i):
        return S.at(a.args, i)

    def enc_given(S, a):
        """(no encoding given, the encoding)"""
        one = S.And(n(S, a) == 1, S.is_str(arg(S, a, 0)))
        e = S.If(n(S, a) == 2, arg(S, a, 1), arg(S, a, 0))
        none = S.Or(n(S, a) == 0, S.And(n(S, a) == 1, S.Not(S.is_str(arg(S, a, 0)))),
                    S.And(n(S, a) == 2, S.Or(S.is_none(arg(S, a, 1)),
                                             S.same(arg(S, a, 1), S.lit('')))),
                    S.And(one, S.same(arg(S, a, 0), S.lit(''))))
        return none, e

    def good_encoding(S, a):
        none, e = enc_given(S, a)
        return S.Or(none, S.oneof(e, [s for ss in ENC.values() for s in ss]))

    def good_length(S, a):
        return S.If(n(S, a) == 1, S.Or(S.is_str(arg(S, a, 0)), S.is_intlike(arg(S, a, 0))),
                    S.If(n(S, a) == 2, S.Or(S.is_none(arg(S, a, 0)), S.has_index(arg(S, a, 0))),
                         True))
    return Contract(
        CT + 'String.__init__', new=True, self_classes=(ct.String,),
        requires=lambda S, a: S.Implies(n(S, a) == 2, S.Or(
            S.is_str(arg(S, a, 1)), S.is_none(arg(S, a, 1)))),
        raises=[(TypeError, lambda S, a: S.Or(n(S, a) > 2, S.Not(good_length(S, a)))),
                (ValueError, lambda S, a: S.Not(good_encoding(S, a)))],
        ensures=lambda S, a, r: [
            ('the canonical encoding is stored', S.And(
                S.Implies(enc_given(S, a)[0], S.same(S.fld(a.self, 'encoding'), S.lit('U8'))),
                S.Or(enc_given(S, a)[0], S.And(*[
                    S.Implies(S.oneof(enc_given(S, a)[1], ss),
                              S.same(S.fld(a.self, 'encoding'), S.lit(c)))
                    for c, ss in ENC.items()])))),
            ('the length is stored', S.If(
                n(S, a) == 0, S.is_none(S.fld(a.self, 'fixlen')),
                S.If(S.Or(S.And(n(S, a) == 1, S.is_str(arg(S, a, 0))),
                          S.And(n(S, a) == 2, S.is_none(arg(S, a, 0)))),
                     S.is_none(S.fld(a.self, 'fixlen')),
                     S.And(S.is_intlike(S.fld(a.self, 'fixlen')),
                           S.intof(S.fld(a.self, 'fixlen')) == S.index(arg(S, a, 0)))))),
            ('an integer stays what it is', S.And(*[S.Implies(
                S.And(n(S, a) == k, S.is_int(arg(S, a, 0))),
                S.same(S.fld(a.self, 'fixlen'), arg(S, a, 0))) for k in (1, 2)])),
            ('class invariant', inv_String(S, a.self))])


CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
