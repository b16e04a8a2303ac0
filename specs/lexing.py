"""Contracts of the lexer (C11)."""
import ast
import re
from datashape import lexer
from datashape.error import DataShapeSyntaxError
from dv import strings
from dv.contract import Contract

# the documented patterns of the tokens, in the order of their numbers
STRING = (r'''(?:"(?:[^"\n\r\\\x00\ud800-\udfff]|(?:\\u[0-9a-fA-F]{4})|(?:\\["bfnrt]))*")|'''
          r"""(?:'(?:[^'\n\r\\\x00\ud800-\udfff]|(?:\\u[0-9a-fA-F]{4})|(?:\\['bfnrt]))*')""")
UNESCAPE = getattr(lexer, '_str_val', None)
TOKENS = [
    ('BOOLEAN', r'(?:True|False)(?![a-zA-Z0-9_])', ast.literal_eval),
    ('NAME_LOWER', r'[a-z][a-zA-Z0-9_]*', str),
    ('NAME_UPPER', r'[A-Z][a-zA-Z0-9_]*', str),
    ('NAME_OTHER', r'_[a-zA-Z0-9_]*', str),
    ('ASTERISK', r'\*'), ('COMMA', r','), ('EQUAL', r'='), ('COLON', r':'), ('LBRACKET', r'\['),
    ('RBRACKET', r'\]'), ('LBRACE', r'\{'), ('RBRACE', r'\}'), ('LPAREN', r'\('),
    ('RPAREN', r'\)'), ('ELLIPSIS', r'\.\.\.'), ('RARROW', r'->'), ('QUESTIONMARK', r'\?'),
    ('INTEGER', r'0(?![0-9])|-?[1-9][0-9]*', int), ('STRING', STRING, UNESCAPE)]
SPACE = r'(?:\s|(?:#.*$))*'


def rx(S, pattern, text, pos):
    """Where the match of a pattern at a position ends, or -1."""
    tree = strings.canonical(pattern, re.MULTILINE)[0]
    return S.w.fn(strings.rx_name(tree), 'Str', 'Int', 'Int')(S.V.s(text), pos)


def first(S, text, pos):
    """(number of the first pattern that matches or 0, where it ends or -1)"""
    return tuple(S.w.fn('first_' + n, 'Str', 'Int', 'Int')(S.V.s(text), pos) for n in ('num', 'end'))


def definition(S, text):
    """... which is the first of the documented ones"""
    def f(pos):
        num, end = S.num(0), S.num(-1)
        for k in reversed(range(len(TOKENS))):
            e = rx(S, TOKENS[k][1], text, pos)
            num, end = S.If(e != -1, k + 1, num), S.If(e != -1, e, end)
        a, b = first(S, text, pos)
        return S.And(a == num, b == end)
    return [S.forall_i(lambda p, x=x: (f(p), first(S, text, p)[x])) for x in (0, 1)]


def starts(S, text, k):
    """Where the k-th token starts: after the whitespace and comments that
    follow the token before it."""
    return S.fn(('token_start', 'Int'), text, S.mkint(k))


def step(S, s, k):
    return S.Implies(k >= 0, starts(S, s, k + 1) == rx(S, SPACE, s, first(
        S, s, starts(S, s, k))[1]))


def facts(S, a):
    s = a.ds_str
    return [starts(S, s, S.num(0)) == rx(S, SPACE, s, S.num(0)),
            S.forall_i(lambda k: (step(S, s, k), S.fn(('token_no', 'Bool'), S.mkint(k))))] + definition(S, s)


def here(S, a, k, env):
    pos = S.int([o for o in env.others if o.decl().name() == 'vi'][0])
    return S.And(0 <= pos, pos <= S.textlen(a.ds_str), pos == starts(S, a.ds_str, k)), [
        step(S, a.ds_str, k)]


def c_lex():
    def ens(S, a, r):
        s = a.ds_str
        at = lambda i: starts(S, s, i)

        def token(i):
            t = S.at(r, i)
            span = S.at(t, 2)
            num, end = first(S, s, at(i))
            text = S.text(s, at(i), end)
            out = [S.len(t) == 4, S.same(S.at(t, 0), S.mkint(num)), S.len(span) == 2,
                   S.same(S.at(span, 0), S.mkint(at(i))), S.same(S.at(span, 1), S.mkint(end))]
            for k, tok in enumerate(TOKENS):
                v = S.lit(None) if len(tok) < 3 else text if tok[2] is str else \
                    S.fn(('apply', 'V'), S.lit(tok[2]), text)
                out.append(S.Implies(num == k + 1, S.And(
                    S.same(S.at(t, 1), S.lit(tok[0])), S.same(S.at(t, 3), v))))
            return out
        n = S.len(r)
        return [('each token is the first that starts there: %d' % j, S.forall(
            0, n, lambda i, j=j: token(i)[j])) for j in range(5 + len(TOKENS))] + [
            ('the whole text', at(n) >= S.textlen(s))]
    def raised(S, a):
        x = S.raised.vals
        pos = S.int(S.box(x[0]))
        return [('an error where no token starts', S.And(
            S.is_int(S.box(x[0])), 0 <= pos, pos < S.textlen(a.ds_str),
            first(S, a.ds_str, pos)[1] == -1)),
            ('an error about this text', S.same(S.box(x[2]), a.ds_str))]
    return Contract(
        'datashape.lexer:lex', when=lambda I, a: not I.opt.get('stream'), on_raise=raised, requires=lambda S, a: S.is_str(a.ds_str), facts=facts,
        may_raise=[(DataShapeSyntaxError, lambda S, a: True)], ensures=ens, invariants=[here],
        opts={'seeds': 12, 'apply': (int, ast.literal_eval) + ((UNESCAPE,) if UNESCAPE else ())})


PROP = 'C11'
CONTRACTS = [c_lex]
