"""Contracts of datashape.error: where syntax errors point (C19)."""
import string
from datashape import error
from datashape.error import DataShapeSyntaxError
from dv.contract import Contract
from dv.spec import an_object

E = 'datashape.error:DataShapeSyntaxError.'
NL = '\n'


def line_of(S, text, pos, line, col, num):
    """line is the line of text around pos, num its number, col the column"""
    n = S.textlen(text)
    start = pos - col
    end = start + S.textlen(line)
    free = lambda lo, hi: S.forall(lo, hi, lambda i: S.Not(S.same(S.char(text, i), S.lit(NL))))
    return [
        ('the number of the line', num == S.count(text, NL, 0, pos) + 1),
        ('starts at the start or after a line break', S.And(0 <= start, start <= pos, S.Or(
            start == 0, S.same(S.char(text, start - 1), S.lit(NL))))),
        ('ends at the end or before a line break', S.And(pos <= end, end <= n, S.Or(
            end == n, S.same(S.char(text, end), S.lit(NL))))),
        ('no line break before the offset', free(start, pos)),
        ('no line break after the offset', free(pos, end)),
        ('the text of the line', S.forall(0, S.textlen(line), lambda i: S.same(
            S.char(line, i), S.char(text, start + i))))]


def c_error_init():
    def ens(S, a, r):
        e = a.self
        out = [('kept: ' + k, S.same(e.get(k), getattr(a, k))) for k in ('filename', 'text')]
        out.append(('kept: offset', S.same(e.get('lexpos'), a.lexpos)))
        out.append(('a message', S.Or(S.is_none(a.msg), S.same(a.msg, S.lit('')),
                                      S.same(e.get('msg'), a.msg))))
        out.append(('the line is a text', S.And(S.is_str(e.get('line')), S.is_int(
            e.get('col_offset')), S.is_int(e.get('lineno')))))
        return out + line_of(S, a.text, S.int(a.lexpos), e.get('line'),
                             S.int(e.get('col_offset')), S.int(e.get('lineno')))
    return Contract(
        E + '__init__', objs={'self': an_object(DataShapeSyntaxError)},
        requires=lambda S, a: S.And(
            S.is_str(a.text), S.is_int(a.lexpos), 0 <= S.int(a.lexpos),
            S.int(a.lexpos) <= S.textlen(a.text), S.Or(S.is_str(a.msg), S.is_none(a.msg))),
        ensures=ens)


def text_of(S, e):
    caret = S.format('{}^', S.repeat(' ', S.int(e.get('col_offset'))))
    given = {'filename': e.get('filename'), 'lineno': e.get('lineno'), 'line': e.get('line'),
             'pointer': caret, 'msg': e.get('msg')}
    text, vals = '', []
    for part, name, _, _ in string.Formatter().parse(error.syntax_error):
        text += part
        if name == 'error':
            text += 'DataShapeSyntaxError'
        elif name is not None:
            text += '{}'
            vals.append(given[name])
    return S.format(text, *vals)


def c_error_str():
    """Printing it never fails."""
    return Contract(
        E + '__str__', objs={'self': an_object(
            DataShapeSyntaxError, lexpos=None, filename=None, text=None, msg=None, lineno=None,
            line=None, col_offset=None)},
        requires=lambda S, a: S.And(
            S.is_str(a.self.get('line')), S.is_int(a.self.get('col_offset')),
            S.is_int(a.self.get('lineno')), S.is_str(a.self.get('msg'))),
        ensures=lambda S, a, r: [
            ('a text', S.is_str(r)),
            ('with a caret in the column', S.same(r, text_of(S, a.self)))])


PROP = 'C19'
CONTRACTS = [c_error_init, c_error_str]
