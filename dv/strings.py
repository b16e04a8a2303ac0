"""Regular expressions of the library, read off the live pattern, as z3
regular languages (sequence theory of strings)."""
import re
import z3
from .values import Unsupported
try:
    from re import _parser as sp, _constants as sc
except ImportError:                                     # Python < 3.11
    import sre_parse as sp
    import sre_constants as sc

REC = None


def S(text):
    """A z3 string constant (any character)."""
    out = []
    for c in text:
        if 32 <= ord(c) < 127 and c != '\\':
            out.append(c)
        else:
            out.append('\\u{%x}' % ord(c))
    return z3.StringVal(''.join(out))


def sort():
    return z3.ReSort(z3.StringSort())


def any_char():
    return z3.AllChar(sort())


def everything():
    return z3.Full(sort())


def union(rs):
    rs = list(rs)
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def concat(rs):
    rs = list(rs)
    if not rs:
        return z3.Re('')
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def chars(a, b):
    return z3.Range(S(chr(a)), S(chr(b)))


def char_class(items, flags):
    neg = False
    out = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            out.append(z3.Re(S(chr(av))))
        elif op is sc.RANGE:
            out.append(chars(*av))
        elif op is sc.CATEGORY:
            out.append(category(av, flags))
        else:
            raise Unsupported('regular expression: %s' % op)
    r = union(out)
    if neg:
        r = z3.Intersect(any_char(), z3.Complement(r))
    return r


def category(av, flags):
    ascii_ = flags & re.ASCII
    name = {sc.CATEGORY_DIGIT: '[0-9]', sc.CATEGORY_SPACE: '[ \t\n\r\f\v]'}.get(av)
    if ascii_ and name:
        return lang(name, 0)
    raise Unsupported('regular expression: category %s' % av)


def items_of(seq, flags):
    out = []
    for op, av in seq:
        if op is sc.LITERAL:
            out.append(z3.Re(S(chr(av))))
        elif op is sc.NOT_LITERAL:
            out.append(z3.Intersect(any_char(), z3.Complement(z3.Re(S(chr(av))))))
        elif op is sc.ANY:
            out.append(any_char() if flags & re.DOTALL else
                       z3.Intersect(any_char(), z3.Complement(z3.Re(S('\n')))))
        elif op is sc.IN:
            out.append(char_class(av, flags))
        elif op is sc.BRANCH:
            out.append(union([concat(items_of(b, flags)) for b in av[1]]))
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported('regular expression: flags')
            out.append(concat(items_of(av[3], flags)))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            r = concat(items_of(sub, flags))
            if hi is sc.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else
                           z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            elif (lo, hi) == (0, 1):
                out.append(z3.Option(r))
            else:
                out.append(z3.Loop(r, lo, hi))
        else:
            raise Unsupported('regular expression: %s' % op)
    return out


def lang(pattern, flags=0):
    """(language of what follows the start, whether it must end at the end)"""
    return match_lang(pattern, flags)[0]


def match_lang(pattern, flags=0):
    p = sp.parse(pattern, flags)
    flags = p.state.flags
    if flags & (re.IGNORECASE | re.MULTILINE | re.VERBOSE):
        raise Unsupported('regular expression: flags')
    seq = list(p)
    end = False
    while seq and seq[0] == (sc.AT, sc.AT_BEGINNING):
        seq.pop(0)
    if seq and seq[-1] == (sc.AT, sc.AT_END_STRING):
        seq.pop()
        end = True
    elif seq and seq[-1] == (sc.AT, sc.AT_END):
        seq.pop()
        # $ also matches before a line break at the end
        return concat(items_of(seq, flags) + [z3.Option(z3.Re(S('\n')))]), True
    return concat(items_of(seq, flags)), end


def canonical(pattern, flags=0):
    """The syntax tree of a regular expression, as a text."""
    p = sp.parse(pattern, flags)
    return '%r/%d' % (p.data, p.state.flags & ~re.UNICODE), p.getwidth()[0]


def alternatives(p):
    """[(syntax tree, shortest match)] of a compiled pattern that is a choice of
    groups (g1)|(g2)|..., else None."""
    t = sp.parse(p.pattern, p.flags)
    fl = t.state.flags & ~re.UNICODE
    if len(t) != 1 or t[0][0] is not sc.BRANCH:
        return None
    out = []
    for b in t[0][1][1]:
        if len(b) != 1 or b[0][0] is not sc.SUBPATTERN:
            return None
        group, add, rem, sub = b[0][1]
        if group != len(out) + 1 or add or rem:
            return None
        out.append(('%r/%d' % (sub.data, fl), sub.getwidth()[0]))
    if t.state.groups != len(out) + 1:
        return None
    return out


def rx_name(tree):
    import hashlib
    return 'rx_' + hashlib.sha1(tree.encode()).hexdigest()[:12]


def always(p):
    """It matches everywhere: a repetition, zero or more times."""
    t = sp.parse(p.pattern, p.flags)
    while len(t) == 1 and t[0][0] is sc.SUBPATTERN:
        t = t[0][1][3]
    return len(t) == 1 and t[0][0] in (sc.MAX_REPEAT, sc.MIN_REPEAT) and t[0][1][0] == 0
