"""Contracts of the parser (C12): each method reads the production of the
grammar that its name says, from the token it stands at, and gives the meaning
of exactly the tokens that it passes."""
import z3
from datashape import lexer, parser, coretypes as ct
from datashape.typesets import TypeSet
from datashape.error import DataShapeSyntaxError
from dv.contract import Contract
from dv.values import Obj, SV, SI, Val, Tup, ListV, Seq, Part, Prim, BMeth, PyRaise, Unsupported
from dv.loops import Poison
from .model import *
from .core import laundered, BAD
from .arith import prefixed, product_ok
from .preds import parsed

PP = 'datashape.parser:DataShapeParser.'
KINDS = ['ds', 'dsn', 'dim', 'dt', 'args', 'arg', 'int', 'str', 'bool', 'kw', 'field', 'struct',
         'fun']
NO = {k: i for i, k in enumerate(KINDS)}
METHODS = {'parse_datashape': 'ds', 'parse_datashape_nooption': 'dsn', 'parse_dim': 'dim',
           'parse_dtype': 'dt', 'parse_type_arg_list': 'args', 'parse_type_arg': 'arg',
           'parse_integer': 'int', 'parse_string': 'str', 'parse_boolean': 'bool',
           'parse_type_kwarg': 'kw', 'parse_struct_field': 'field', 'parse_struct_type': 'struct',
           'parse_funcproto_or_tuple_type': 'fun'}
PAIRS = ('kw', 'field')
SHAPES = ('ds', 'dsn', 'dim', 'dt', 'struct', 'fun')
# of two methods that stand at the same token, one may call the other if its rank is less
RANK = {'args': 5, 'arg': 4, 'ds': 3, 'dsn': 2, 'dim': 1, 'dt': 1, 'kw': 0, 'field': 0, 'struct': 0,
        'fun': 0, 'int': 0, 'str': 0, 'bool': 0}
T = {n: getattr(lexer, n) for n in (
    'NAME_LOWER NAME_UPPER NAME_OTHER ASTERISK COMMA EQUAL COLON LBRACKET RBRACKET LBRACE RBRACE '
    'LPAREN RPAREN ELLIPSIS RARROW QUESTIONMARK INTEGER STRING BOOLEAN').split()}


class Symbols:
    pass


class Table:
    pass


# ------------------------------------------------------------- what is read
def f_(w, name, *sorts):
    return w.fn(name, *sorts)


class View:
    """What the specification sees of a parser."""

    def __init__(self, I, obj):
        self.I, self.obj, self.w = I, obj, I.w
        self.t = I.box(obj.attrs['ds_str'])
        self.n = f_(I.w, 'ntokens', 'V', 'Int')(self.t)
        self.pos = self.now()

    def now(self):
        return self.I.int_term(self.I.norm(self.I.force(self.obj.attrs['pos'])))

    def move(self, j):
        ctx = self.I.ctx
        ctx.write(self.obj.attrs, 'pos', SI(j))
        if not isinstance(self.obj.attrs['end_pos'], Poison):
            ctx.write(self.obj.attrs, 'end_pos', some_end(self.I, self.n, j))
            for n in ('tokens', 'lex'):
                ctx.write(self.obj.attrs, n, Poison('the tokens that are read'))

    def id(self, i):
        return f_(self.w, 'token_id', 'V', 'Int', 'V')(self.t, i)

    def val(self, i):
        return f_(self.w, 'token_val', 'V', 'Int', 'V')(self.t, i)

    def span(self, i):
        return f_(self.w, 'token_span', 'V', 'Int', 'V')(self.t, i)

    def is_(self, S, i, *names):
        return S.And(i < self.n, S.Or(*[S.same(self.id(i), S.mkint(T[n])) for n in names]))

    # what a method gives at a position, and where it stops
    def res(self, k, i):
        return f_(self.w, 'parse_result', 'Int', 'V', 'Int', 'V')(no(k), self.t, i)

    def end(self, k, i):
        return f_(self.w, 'parse_end', 'Int', 'V', 'Int', 'Int')(no(k), self.t, i)

    def fails(self, k, i):
        return f_(self.w, 'parse_fails', 'Int', 'V', 'Int', 'Bool')(no(k), self.t, i)

    def bad(self):
        """The lexer fails after the last token."""
        return f_(self.w, 'not_lexed', 'V', 'Bool')(self.t)

    def args_fail(self, i):
        return f_(self.w, 'args_fail', 'V', 'Int', 'Bool')(self.t, i)

    def list_fails(self, k, s, trailing, i):
        return f_(self.w, 'list_fails', 'Int', 'V', 'Bool', 'V', 'Int', 'Bool')(
            no(k), s, trailing, self.t, i)

    # the items of a list
    def at(self, k, i, j):
        return f_(self.w, 'item_pos', 'Int', 'V', 'Int', 'Int', 'Int')(no(k), self.t, i, j)

    def count(self, k, s, trailing, i):
        return f_(self.w, 'list_count', 'Int', 'V', 'Bool', 'V', 'Int', 'Int')(
            no(k), s, trailing, self.t, i)

    def list(self, k, s, trailing, i):
        return f_(self.w, 'list_result', 'Int', 'V', 'Bool', 'V', 'Int', 'V')(
            no(k), s, trailing, self.t, i)

    def list_end(self, k, s, trailing, i):
        return f_(self.w, 'list_end', 'Int', 'V', 'Bool', 'V', 'Int', 'Int')(
            no(k), s, trailing, self.t, i)

    def args(self, i):
        return [f_(self.w, 'parse_%sargs' % x, 'V', 'Int', 'V')(self.t, i) for x in ('', 'kw')]

    def first_item(self, k, i):
        return self.at(k, i, z3.IntVal(0)) == i

    def next_item(self, k, i, j):
        return self.at(k, i, j + 1) == self.end(k, self.at(k, i, j)) + 1

    def rank(self, k):
        r = f_(self.w, 'parse_rank', 'Int', 'Int')
        return r(no(k))


def is_failure(c):
    return c in (Failure, DataShapeSyntaxError, NotImplementedError)


class Failures(type):
    def __subclasscheck__(cls, sub):
        return is_failure(sub)


class Failure(Exception, metaclass=Failures):
    """What a text that is not a sentence, or a constructor of the symbol
    table, raises (and no error of the program)."""


def no(k):
    return z3.IntVal(NO[k]) if isinstance(k, str) else k


def some_end(I, n, pos):
    """Where no token is left, if that is known yet."""
    known = I.ctx.fresh('end_known', z3.BoolSort())
    I.ctx.assume(z3.Implies(pos == n, known))
    return SV(z3.If(known, I.w.V.vi(n), I.w.V.vn))


def item_ok(v, S, k, x):
    """Of lists of fields: they are pairs."""
    if isinstance(k, str) and k in PAIRS:
        return S.And(S.is_tuple(x), S.len(x) == 2)
    if isinstance(k, str) and k in ('ds', 'dsn'):
        return is_D(S, x)
    if isinstance(k, str):
        return z3.BoolVal(True)
    return f_(S.w, 'item_ok', 'Int', 'V', 'Bool')(k, x)


def outcome(v, S, k, i, r, j):
    """None, or some tokens are read"""
    more = []
    if isinstance(k, str) and k in SHAPES:
        more = [a_shape(S.I, r)]
    return S.If(S.is_none(r), j == i, S.And(
        i < j, j <= v.n, item_ok(v, S, k, r), *(more if isinstance(k, str) else [])))


# ------------------------------------------------------------- the state
def table(name):
    def make(I):
        o = Obj(Table)

        def get(I, args, kwargs):
            if kwargs or not 0 < len(args) < 3:
                raise Unsupported('get')
            t = entry(I, name, I.box(args[0]))
            if len(args) == 2:
                raise Unsupported('get with a default')
            if name in ('dim', 'dtype'):
                I.ctx.assume(z3.Or(I.w.V.is_vn(t), a_shape(I, t)))
            return I.norm(SV(t))
        o.attrs['get'] = Prim('get', get)
        return o
    return make


def entry(I, name, key):
    """The entry of the symbol table"""
    return I.w.fn('sym_' + name, 'V', 'V')(key)


def symbols(I):
    o = Obj(Symbols)
    for n in ('dim', 'dtype', 'dim_constr', 'dtype_constr'):
        o.attrs[n] = table(n)(I)
    return o


def about_tokens(I, v):
    S = Sym_(I)
    i = z3.Int('i_tok')
    ctx = I.ctx
    w = I.w
    ctx.assume(v.n >= 0)
    ctx.assume(S.is_none(v.id(v.n)))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), S.is_int(v.id(i))),
                         patterns=[v.id(i)]))
    # (of the values that the lexer gives)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, v.is_(S, i, 'INTEGER', 'STRING', 'BOOLEAN')),
                                         z3.Not(S.is_none(v.val(i)))), patterns=[v.val(i)]))
    ctx.assume(z3.ForAll([i], z3.And(S.is_tuple(v.span(i)), S.len(v.span(i)) == 2),
                         patterns=[v.span(i)]))
    for k in KINDS:
        ctx.assume(v.rank(k) == RANK[k])


def Sym_(I):
    from dv.spec import Sym
    return Sym(I)


def abstract(I):
    """A parser at some token."""
    o = Obj(parser.DataShapeParser)
    w = I.w
    t = z3.Const('text', w.V)
    p = z3.Int('pos')
    o.attrs['ds_str'] = SV(t)
    o.attrs['pos'] = SI(p)
    o.attrs['sym'] = symbols(I)
    v = View(I, o)
    about_tokens(I, v)
    I.ctx.assume(z3.And(0 <= p, p <= v.n, w.V.is_vs(t)))
    for n in ('tokens', 'lex', 'end_pos'):
        o.attrs[n] = Poison('the tokens that are read')
    return o, v


def view(I, name, x):
    x = I.norm(I.force(x))
    if isinstance(x, Obj) and x.cls is parser.DataShapeParser:
        return View(I, x)
    if isinstance(x, BMeth) and isinstance(x.self, Obj) and x.self.cls is parser.DataShapeParser:
        for n, k in METHODS.items():
            if getattr(parser.DataShapeParser, n, None) is x.fn:
                return k
    if name == 'sym':
        return None
    raise Unsupported('a %s of the parser' % name)


def representation(S, a):
    """(of the tokens that are read already: the methods below keep it)"""
    v = a.self
    more = [] if isinstance(v.obj.attrs['lex'], Poison) else [f for n, f in kept(S, v)]
    return S.And(0 <= v.pos, v.pos <= v.n, *more)


def err(f):
    """It raises only when f, or when there are no tokens to read."""
    return [(Failure, lambda S, a: S.Or(a.self.bad(), *f(S, a)))]


def bad_next(S, a):
    return S.And(a.self.bad(), a.self.pos + 1 == a.self.n)


def missing(S, table, name):
    return S.is_none(entry(S.I, table, S.lit(name)))


def unmade(S, table, name, *args):
    """There is no such constructor, or it raises"""
    f = entry(S.I, table, name if not isinstance(name, str) else S.lit(name))
    return S.Or(S.is_none(f), call_fails(S, f, *args))


def call_fails(S, f, *args):
    return S.w.fn('call_fails_' + 'p' * len(args), *['V'] * (len(args) + 1) + ['Bool'])(f, *args)


# ------------------------------------------------------------- single tokens
def token_at(v, i):
    t = lexer.Token
    vals = {'id': SV(v.id(i)), 'val': SV(v.val(i)), 'span': SV(v.span(i)),
            'name': SV(f_(v.w, 'token_name', 'V', 'Int', 'V')(v.t, i))}
    return Tup([vals[n] for n in t._fields], named=t)


def concrete(I):
    """A parser that has read some tokens."""
    o, v = abstract(I)
    w = I.w
    m = z3.Int('read')
    I.ctx.assume(z3.And(v.pos < m, m <= v.n + 1, z3.Implies(m == v.n + 1, z3.Not(v.bad()))))
    o.attrs['tokens'] = ListV(seq=Seq.sym(m, lambda i: token_at(v, i)))
    o.attrs['end_pos'] = SV(z3.If(m == v.n + 1, w.V.vi(v.n), w.V.vn))
    o.attrs['lex'] = stream(I, v, z3.If(m == v.n + 1, v.n, m))
    return o, v


def stream(I, v, m):
    """What the lexer gives from its m-th token on."""
    from dv.values import Store
    st = Store({'read': m})

    def get(I):
        k = st['read']
        pick = I.ctx.choose([('ok', k < v.n), (StopIteration, z3.And(k >= v.n, z3.Not(v.bad()))),
                             (DataShapeSyntaxError, z3.And(k >= v.n, v.bad()))])
        if pick != 'ok':
            raise PyRaise(pick, ())
        I.ctx.write(st, 'read', k + 1)
        return token_at(v, k)
    p = Prim('tokens', None)
    o = Obj(Table)
    o.attrs['next'] = Prim('next', lambda I, args, kwargs: get(I))
    o.attrs['read'] = Prim('read', lambda I, args, kwargs: st['read'])
    return o


def kept(S, v):
    """The tokens read are those of the text, and the end is where it is."""
    I = v.I
    ts = I.box(v.obj.attrs['tokens'])
    e = I.box(v.obj.attrs['end_pos'])
    read = v.obj.attrs['lex'].attrs['read'].fn(I, (), {})
    p = v.now()
    return [
        ('the tokens of the text', S.forall(0, S.len(ts), lambda i: S.And(
            S.len(S.at(ts, i)) == 4, S.same(S.at(S.at(ts, i), 0), v.id(i)), S.Implies(
                i < v.n, S.same(S.at(S.at(ts, i), 3), v.val(i)))))),
        ('one token is read', S.And(0 <= p, p < S.len(ts), S.len(ts) <= v.n + 1)),
        ('none is lost', S.If(S.len(ts) == v.n + 1, read == v.n, read == S.len(ts))),
        ('the end is where no token is left', S.If(
            S.len(ts) == v.n + 1, S.And(S.same(e, S.box(SI(v.n))), S.Not(v.bad())), S.is_none(e)))]


def c_advance():
    def effect(I, S, A):
        v = A.self
        v.move(z3.If(v.pos < v.n, v.pos + 1, v.pos))
        return None_(I)
    return Contract(
        PP + 'advance_tok', objs={'self': concrete}, view=view, effect=effect,
        requires=representation, raises=[(DataShapeSyntaxError, bad_next)],
        ensures=lambda S, a, r: [('goes to the next token', a.self.now() == S.If(
            a.self.pos < a.self.n, a.self.pos + 1, a.self.pos))] + kept(S, a.self))


def None_(I):
    return I.norm(SV(I.w.V.vn))


def c_tok():
    return Contract(
        PP + 'tok', objs={'self': concrete}, view=view, requires=representation,
        effect=lambda I, S, A: token_at(A.self, A.self.pos),
        ensures=lambda S, a, r: [
            ('the token here', S.And(S.len(r) == 4, S.same(S.at(r, 0), a.self.id(a.self.pos)),
                                     S.same(S.at(r, 3), a.self.val(a.self.pos)),
                                     S.same(S.at(r, 2), a.self.span(a.self.pos)),
                                     a.self.now() == a.self.pos))])


# ------------------------------------------------------------- productions
def rule(method, productions, none=None, fail=None, bad=None, **kw):
    """The contract of a method: what it gives when it gives something."""
    k = METHODS[method]

    def ens(S, a, r):
        v = a.self
        i, j = v.pos, v.now()
        yield 'nothing, or some tokens', outcome(v, S, k, i, r, j)
        yield 'a production of the grammar', S.Or(S.is_none(r), *productions(S, v, i, r, j))
        if none is not None:
            yield 'nothing only where no production starts', S.Implies(
                S.is_none(r), none(S, v, i))

    def effect(I, S, A):
        v = A.self
        r, j = v.res(k, v.pos), v.end(k, v.pos)
        I.ctx.assume(outcome(v, S, k, v.pos, r, j))
        if k in ('struct', 'fun'):
            I.ctx.assume(S.Implies(S.is_none(r), none(S, v, v.pos)))
        v.move(j)
        return I.norm(SV(r))
    kw.setdefault('opts', {})
    kw['opts'] = dict({'callables': shapes, 'unknown_raises': Failure}, **kw['opts'])
    return Contract(
        PP + method, objs={'self': abstract}, view=view, effect=effect, requires=representation,
        fails=(Failure, lambda S, a: a.self.fails(k, a.self.pos)),
        may_raise=err(lambda S, a: fail(S, a.self, a.self.pos) if fail else ()) + [
            (BAD, lambda S, a: bad(S, a.self, a.self.pos) if bad else False)],
        measure=lambda S, a: (a.self.n - a.self.pos, 2 * RANK[k]),
        ensures=lambda S, a, r: list(ens(S, a, r)), **kw)


def shapes(I, r):
    """(what the constructors of the symbol table give)"""
    I.ctx.assume(a_shape(I, r))


def a_shape(I, r):
    return I.w.is_any(r, [I.u.tok[c] for c in I.u.ds_classes if c is not TypeSet])


def made(S, v, r, table, name, *args):
    """r is what that constructor of the symbol table gives"""
    f = entry(S.I, table, name if not isinstance(name, str) else S.lit(name))
    return S.same(r, S.w.fn('call_' + 'p' * len(args), *['V'] * (len(args) + 2))(f, *args))


def wraps(S, x, r):
    """r is the datashape of x alone"""
    return S.And(is_D(S, r), np_(S, r) == 1, laundered(S, x, S.at(params(S, r), 0)))


def c_ds():
    def bad(S, v, i):
        opt = entry(S.I, 'dtype_constr', S.lit('option'))
        return S.And(v.is_(S, i, 'QUESTIONMARK'), S.Not(is_measlike(
            S, S.w.fn('call_p', 'V', 'V', 'V')(opt, v.res('dsn', i + 1)))))

    def fail(S, v, i):
        q = v.is_(S, i, 'QUESTIONMARK')
        x = v.res('dsn', i + 1)
        return [S.And(q, S.Or(v.fails('dsn', i + 1), S.is_none(x),
                              unmade(S, 'dtype_constr', 'option', x))),
                S.And(S.Not(q), v.fails('dsn', i))]

    def prods(S, v, i, r, j):
        opt = entry(S.I, 'dtype_constr', S.lit('option'))
        x = S.w.fn('call_p', 'V', 'V', 'V')(opt, v.res('dsn', i + 1))
        q = v.is_(S, i, 'QUESTIONMARK')
        return [S.And(q, S.Not(S.is_none(v.res('dsn', i + 1))), wraps(S, x, r),
                      j == v.end('dsn', i + 1)),
                S.And(S.Not(q), S.same(r, v.res('dsn', i)), j == v.end('dsn', i))]
    return rule('parse_datashape', prods, lambda S, v, i: S.And(
        S.Not(v.is_(S, i, 'QUESTIONMARK')), S.is_none(v.res('dsn', i))), fail, bad)


def c_dsn():
    def bad(S, v, i):
        # (only of a symbol table with dimensions among its types, or the reverse)
        e = v.end('dim', i) + 1
        return S.If(starts(S, v, i), S.Not(product_ok(S, v.res('dim', i), v.res('ds', e))),
                    S.Not(S.Or(S.is_none(v.res('dt', i)), is_measlike(S, v.res('dt', i)))))

    def starts(S, v, i):
        return S.And(S.Not(S.is_none(v.res('dim', i))), v.is_(S, v.end('dim', i), 'ASTERISK'))

    def fail(S, v, i):
        e = v.end('dim', i) + 1
        return [v.fails('dim', i), S.And(S.Not(v.fails('dim', i)), S.If(
            starts(S, v, i), S.Or(v.fails('ds', e), S.is_none(v.res('ds', e))),
            v.fails('dt', i)))]

    def prods(S, v, i, r, j):
        e = v.end('dim', i) + 1
        y = v.res('ds', e)
        return [S.And(starts(S, v, i), S.Not(S.is_none(y)), prefixed(S, v.res('dim', i), y, r),
                      j == v.end('ds', e)),
                S.And(S.Not(starts(S, v, i)), S.Not(S.is_none(v.res('dt', i))),
                      wraps(S, v.res('dt', i), r), j == v.end('dt', i))]
    return rule('parse_datashape_nooption', prods, lambda S, v, i: S.And(
        S.Not(starts(S, v, i)), S.is_none(v.res('dt', i))), fail, bad)


def c_dim():
    def prods(S, v, i, r, j):
        x = v.val(i)
        return [
            S.And(v.is_(S, i, 'NAME_UPPER'), v.is_(S, i + 1, 'ELLIPSIS'), j == i + 2,
                  made(S, v, r, 'dim_constr', 'ellipsis', x)),
            S.And(v.is_(S, i, 'NAME_UPPER'), v.is_(S, i + 1, 'ASTERISK'), j == i + 1,
                  made(S, v, r, 'dim_constr', 'typevar', x)),
            S.And(v.is_(S, i, 'NAME_LOWER'), S.Not(v.is_(S, i + 1, 'LBRACKET')), j == i + 1,
                  S.same(r, entry(S.I, 'dim', x))),
            S.And(v.is_(S, i, 'INTEGER'), v.is_(S, i + 1, 'ASTERISK'), j == i + 1,
                  made(S, v, r, 'dim_constr', 'fixed', x)),
            S.And(v.is_(S, i, 'ELLIPSIS'), j == i + 1,
                  S.same(r, entry(S.I, 'dim', S.lit('ellipsis'))))]

    def none(S, v, i):
        return S.And(S.Not(v.is_(S, i, 'ELLIPSIS')), *[
            S.Not(S.And(v.is_(S, i, a), v.is_(S, i + 1, b))) for a, b in (
                ('NAME_UPPER', 'ELLIPSIS'), ('NAME_UPPER', 'ASTERISK'), ('INTEGER', 'ASTERISK'))],
            S.Implies(v.is_(S, i, 'NAME_LOWER'), S.If(
                v.is_(S, i + 1, 'LBRACKET'), S.is_none(entry(S.I, 'dim_constr', v.val(i))),
                S.is_none(entry(S.I, 'dim', v.val(i))))))

    def fail(S, v, i):
        x = v.val(i)
        return [
            S.And(v.is_(S, i, 'NAME_UPPER'), v.is_(S, i + 1, 'ELLIPSIS'),
                  unmade(S, 'dim_constr', 'ellipsis', x)),
            S.And(v.is_(S, i, 'NAME_UPPER'), v.is_(S, i + 1, 'ASTERISK'),
                  unmade(S, 'dim_constr', 'typevar', x)),
            # (of no use: constructors of dimensions are not supported)
            S.And(v.is_(S, i, 'NAME_LOWER'), v.is_(S, i + 1, 'LBRACKET'),
                  S.Not(S.is_none(entry(S.I, 'dim_constr', x)))),
            S.And(v.is_(S, i, 'INTEGER'), v.is_(S, i + 1, 'ASTERISK'),
                  unmade(S, 'dim_constr', 'fixed', x)),
            S.And(v.is_(S, i, 'ELLIPSIS'), missing(S, 'dim', 'ellipsis'))]
    return rule('parse_dim', prods, none, fail)


def c_dt():
    def prods(S, v, i, r, j):
        x = v.val(i)
        args, kw = v.args(i + 2)
        e = v.end('args', i + 2)
        f = entry(S.I, 'dtype_constr', x)
        return [
            S.And(v.is_(S, i, 'NAME_UPPER'), j == i + 1, made(S, v, r, 'dtype_constr', 'typevar', x)),
            S.And(v.is_(S, i, 'NAME_LOWER'), S.Not(v.is_(S, i + 1, 'LBRACKET')), j == i + 1,
                  S.same(r, entry(S.I, 'dtype', x))),
            S.And(v.is_(S, i, 'NAME_LOWER'), v.is_(S, i + 1, 'LBRACKET'), v.is_(S, e, 'RBRACKET'),
                  j == e + 1, S.same(r, S.w.fn('call_sk', 'V', 'V', 'V', 'V')(f, args, kw)),
                  S.Or(S.len(args) > 0, S.len(kw) > 0)),
            S.And(v.is_(S, i, 'LBRACE'), S.same(r, v.res('struct', i)), j == v.end('struct', i)),
            S.And(v.is_(S, i, 'LPAREN'), S.same(r, v.res('fun', i)), j == v.end('fun', i))]

    def none(S, v, i):
        x = v.val(i)
        return S.And(S.Not(v.is_(S, i, 'NAME_UPPER', 'LBRACE', 'LPAREN')), S.Implies(
            v.is_(S, i, 'NAME_LOWER'), S.If(
                v.is_(S, i + 1, 'LBRACKET'), S.is_none(entry(S.I, 'dtype_constr', x)),
                S.is_none(entry(S.I, 'dtype', x)))))

    def fail(S, v, i):
        x = v.val(i)
        args, kw = v.args(i + 2)
        f = entry(S.I, 'dtype_constr', x)
        return [
            S.And(v.is_(S, i, 'NAME_UPPER'), unmade(S, 'dtype_constr', 'typevar', x)),
            S.And(v.is_(S, i, 'NAME_LOWER'), v.is_(S, i + 1, 'LBRACKET'), S.Not(S.is_none(f)), S.Or(
                v.args_fail(i + 2), S.Not(v.is_(S, v.end('args', i + 2), 'RBRACKET')),
                S.And(S.len(args) == 0, S.len(kw) == 0),
                S.w.fn('call_fails_sk', 'V', 'V', 'V', 'Bool')(f, args, kw))),
            S.And(v.is_(S, i, 'LBRACE'), v.fails('struct', i)),
            S.And(v.is_(S, i, 'LPAREN'), v.fails('fun', i))]
    return rule('parse_dtype', prods, none, fail)


def scalar(method, token):
    def prods(S, v, i, r, j):
        return [S.And(v.is_(S, i, token), S.same(r, v.val(i)), j == i + 1)]
    return rule(method, prods, lambda S, v, i: S.Not(v.is_(S, i, token)))


def c_int():
    return scalar('parse_integer', 'INTEGER')


def c_str():
    return scalar('parse_string', 'STRING')


def c_bool():
    return scalar('parse_boolean', 'BOOLEAN')


def c_kw():
    def prods(S, v, i, r, j):
        x = v.res('arg', i + 2)
        return [S.And(v.is_(S, i, 'NAME_LOWER'), v.is_(S, i + 1, 'EQUAL'), S.Not(S.is_none(x)),
                      S.is_tuple(r), S.len(r) == 2, S.same(S.at(r, 0), v.val(i)),
                      S.same(S.at(r, 1), x), j == v.end('arg', i + 2))]
    both = lambda S, v, i: S.And(v.is_(S, i, 'NAME_LOWER'), v.is_(S, i + 1, 'EQUAL'))
    return rule('parse_type_kwarg', prods, lambda S, v, i: S.Not(both(S, v, i)), lambda S, v, i: [
        S.And(both(S, v, i), S.Or(v.fails('arg', i + 2), S.is_none(v.res('arg', i + 2))))])


def c_field():
    names = 'NAME_LOWER', 'NAME_UPPER', 'NAME_OTHER', 'STRING'

    def prods(S, v, i, r, j):
        x = v.res('ds', i + 2)
        return [S.And(v.is_(S, i, *names), v.is_(S, i + 1, 'COLON'), S.Not(S.is_none(x)),
                      S.is_tuple(r), S.len(r) == 2, S.same(S.at(r, 0), v.val(i)),
                      S.same(S.at(r, 1), x), j == v.end('ds', i + 2))]
    return rule('parse_struct_field', prods, lambda S, v, i: S.Not(v.is_(S, i, *names)),
                lambda S, v, i: [S.And(v.is_(S, i, *names), S.Or(
                    S.Not(v.is_(S, i + 1, 'COLON')), v.fails('ds', i + 2),
                    S.is_none(v.res('ds', i + 2))))])


# ------------------------------------------------------------- lists
def list_outcome(v, S, k, sep, trailing, i, r, n, j):
    return S.If(S.is_none(r), S.And(j == i, S.is_none(v.res(k, i))), S.And(
        S.is_list(r), S.len(r) == n, n > 0, i < j, j <= v.n, S.forall(
            0, n, lambda x: item_ok(v, S, k, S.at(r, x)))))


def an_item(I):
    """A method that reads one item: any of those above."""
    k = z3.Int('kind')

    def call(I, args, kwargs):
        S = Sym_(I)
        o = I.opt['parser']
        v = View(I, o)
        r, j = v.res(k, v.pos), v.end(k, v.pos)
        x, y = I.opt['measure'], (v.n - v.pos, 2 * v.rank(k))
        I.oblige('the item is read from less', z3.And(y[0] >= 0, z3.Or(
            y[0] < x[0], z3.And(y[0] == x[0], y[1] < x[1]))))
        bad = v.fails(k, v.pos)
        pick = I.ctx.choose([('ok', z3.Not(bad)), (Failure, bad)])
        if pick != 'ok':
            raise PyRaise(pick, ())
        I.ctx.assume(outcome(v, S, k, v.pos, r, j))
        v.move(j)
        return I.norm(SV(r))
    return Prim('parse_item', call), k


def parser_of_list(I):
    o, v = abstract(I)
    I.opt['parser'] = o
    return o, v


def some(S, v, k, i, f):
    """There is an item of that list with f"""
    j = z3.Int(S.I.ctx.fresh_name('j'))
    return z3.Exists([j], f(j), patterns=[v.at(k, i, j)])


def c_list():
    def ens(S, a, r):
        v, k = a.self, a.parse_item
        i, j = v.pos, v.now()
        n = S.len(r)
        last = v.at(k, i, n - 1)
        tr = S.bool(a.trailing_sep)
        S.I.ctx.assume(v.first_item(k, i))
        S.I.ctx.assume(S.Implies(n > 0, v.next_item(k, i, n - 1)))
        some = S.Not(S.is_none(r))
        yield 'nothing, or items', list_outcome(v, S, k, a.sep_tok_id, tr, i, r, n, j)
        yield 'the items in order', S.Implies(some, S.forall(0, n, lambda x: S.And(
            S.same(S.at(r, x), v.res(k, v.at(k, i, x))), S.Not(S.is_none(v.res(k, v.at(k, i, x)))))))
        yield 'a separator between two', S.Implies(some, S.forall(0, n - 1, lambda x: S.same(
            v.id(v.end(k, v.at(k, i, x))), a.sep_tok_id)))
        yield 'up to the last item, or a separator after it', S.Implies(some, S.Or(
            S.And(j == v.end(k, last), S.Not(S.same(v.id(j), a.sep_tok_id))),
            S.And(tr, j == v.end(k, last) + 1, S.is_none(v.res(k, j)), S.same(
                v.id(v.end(k, last)), a.sep_tok_id))))

    def here(S, a, k, env):
        v, kind = a.self, a.parse_item
        p = S.int([o for o in env.others if o.decl().name() == 'vi'][0])
        item = [o for o in env.others if o.decl().name() != 'vi'][0]
        return S.And(p == v.at(kind, v.pos, k), p >= v.pos + k, p <= v.n, S.Not(S.is_none(item))), [
            v.first_item(kind, v.pos), S.Implies(k >= 0, v.next_item(kind, v.pos, k))]

    def effect(I, S, A):
        v, k = A.self, A.parse_item
        tr = S.bool(A.trailing_sep)
        args = k, A.sep_tok_id, tr, v.pos
        r, n, j = v.list(*args), v.count(*args), v.list_end(*args)
        I.ctx.assume(list_outcome(v, S, k, A.sep_tok_id, tr, v.pos, r, n, j))
        v.move(j)
        return I.norm(SV(r))
    def fail(S, a):
        v, k = a.self, a.parse_item
        i, tr = v.pos, S.bool(a.trailing_sep)
        S.I.ctx.assume(v.first_item(k, i))
        at = lambda x: v.at(k, i, x)
        return [some(S, v, k, i, lambda j: S.And(j >= 0, each(S, j, lambda x: S.And(
            S.Not(S.is_none(v.res(k, at(x)))), S.same(v.id(v.end(k, at(x))), a.sep_tok_id))),
            S.Or(v.fails(k, at(j)), S.And(j > 0, S.Not(tr), S.is_none(v.res(k, at(j)))))))]
    return Contract(
        PP + 'parse_homogeneous_list', objs={'self': parser_of_list, 'parse_item': an_item},
        view=view, effect=effect,
        requires=lambda S, a: S.And(representation(S, a), S.is_int(a.sep_tok_id),
                                    S.is_bool(a.trailing_sep), S.is_str(a.errmsg)),
        may_raise=err(fail), invariants=[here], opts={'seeds': 4},
        fails=(Failure, lambda S, a: a.self.list_fails(
            a.parse_item, a.sep_tok_id, S.bool(a.trailing_sep), a.self.pos)),
        measure=lambda S, a: (a.self.n - a.self.pos, 2 * (
            a.self.rank(a.parse_item)) + 1),
        ensures=lambda S, a, r: list(ens(S, a, r)))


# ------------------------------------------------------------- arguments
COMMA = lambda S: S.mkint(T['COMMA'])
NOT, YES = z3.BoolVal(False), z3.BoolVal(True)


def c_arg():
    def prods(S, v, i, r, j):
        ds = v.res('ds', i)
        no_ds = S.is_none(ds)
        out = [S.And(S.Not(no_ds), S.same(r, ds), j == v.end('ds', i)),
               S.And(no_ds, v.is_(S, i, 'INTEGER', 'STRING', 'BOOLEAN'), S.same(r, v.val(i)), j == i + 1)]
        before = [no_ds, v.is_(S, i, 'LBRACKET')]
        for k in ('ds', 'int', 'str', 'bool'):
            args = k, COMMA(S), NOT, i + 1
            x, e = v.list(*args), v.list_end(*args)
            out.append(S.And(*before, S.Not(S.is_none(x)), S.same(r, x), v.is_(S, e, 'RBRACKET'), j == e + 1))
            before.append(S.is_none(x))
        out.append(S.And(*before, S.is_list(r), S.len(r) == 0, v.is_(S, i + 1, 'RBRACKET'), j == i + 2))
        return out

    def fail(S, v, i):
        inner, before = [], []
        for k in ('ds', 'int', 'str', 'bool'):
            args = k, COMMA(S), NOT, i + 1
            inner.append(S.And(*before, v.list_fails(*args)))
            before.append(S.Not(v.list_fails(*args)))
            inner.append(S.And(*before, S.Not(S.is_none(v.list(*args))),
                               S.Not(v.is_(S, v.list_end(*args), 'RBRACKET'))))
            before.append(S.is_none(v.list(*args)))
        inner.append(S.And(*before, S.Not(v.is_(S, i + 1, 'RBRACKET'))))
        return [v.fails('ds', i), S.And(S.Not(v.fails('ds', i)), S.is_none(v.res('ds', i)),
                                        v.is_(S, i, 'LBRACKET'), S.Or(*inner))]
    return rule('parse_type_arg', prods, lambda S, v, i: S.And(S.is_none(v.res('ds', i)), S.Not(
        v.is_(S, i, 'INTEGER', 'STRING', 'BOOLEAN', 'LBRACKET'))), fail)


def c_args():
    def ens(S, a, r):
        v = a.self
        i, j = v.pos, v.now()
        xs, kw = S.at(r, 0), S.at(r, 1)
        n = S.len(xs)
        at = lambda x: v.at('arg', i, x)
        S.I.ctx.assume(v.first_item('arg', i))
        S.I.ctx.assume(S.Implies(n > 0, v.next_item('arg', i, n - 1)))
        args = 'kw', COMMA(S), NOT, at(n)
        ks = v.list(*args)
        yield 'arguments and keywords', S.And(S.is_tuple(r), S.len(r) == 2, S.is_list(xs), S.is_dict(kw))
        yield 'some tokens', S.And(i <= j, j <= v.n)
        yield 'the arguments in order', S.forall(0, n, lambda x: S.And(
            S.same(S.at(xs, x), v.res('arg', at(x))), S.Not(S.is_none(v.res('arg', at(x))))))
        yield 'a comma between two', S.forall(0, n - 1, lambda x: S.same(
            v.id(v.end('arg', at(x))), COMMA(S)))
        last = v.end('arg', at(n - 1))
        comma = S.Or(n == 0, S.same(v.id(last), COMMA(S)))
        yield 'up to the last argument, or the keywords after it', S.Or(
            S.And(n > 0, j == last, S.len(kw) == 0, S.Not(v.is_(S, last, 'COMMA'))),
            S.And(comma, S.is_none(ks), j == at(n), S.len(kw) == 0),
            S.And(comma, S.Not(S.is_none(ks)), j == v.list_end(*args), S.forall(
                0, S.len(ks), lambda x: S.dhas(kw, S.key(S.at(S.at(ks, x), 0))))))

    def effect(I, S, A):
        v = A.self
        xs, kw = v.args(v.pos)
        j = v.end('args', v.pos)
        I.ctx.assume(S.And(S.is_list(xs), S.is_dict(kw), v.pos <= j, j <= v.n, S.len(xs) >= 0))
        v.move(j)
        return Tup([SV(xs), SV(kw)])

    def here(S, a, k, env):
        v = a.self
        p = S.int([o for o in env.others if o.decl().name() == 'vi'][0])
        item = [o for o in env.others if o.decl().name() != 'vi'][0]
        return S.And(p == v.at('arg', v.pos, k), p >= v.pos + k, p <= v.n, S.Not(S.is_none(item))), [
            v.first_item('arg', v.pos), S.Implies(k >= 0, v.next_item('arg', v.pos, k))]
    def fail(S, a):
        v = a.self
        i = v.pos
        S.I.ctx.assume(v.first_item('arg', i))
        at = lambda x: v.at('arg', i, x)
        return [some(S, v, 'arg', i, lambda j: S.And(j >= 0, each(S, j, lambda x: S.And(
            S.Not(S.is_none(v.res('arg', at(x)))), S.same(v.id(v.end('arg', at(x))), COMMA(S)))),
            S.Or(v.fails('arg', at(j)), S.And(
                S.Not(v.fails('arg', at(j))), S.is_none(v.res('arg', at(j))),
                v.list_fails('kw', COMMA(S), NOT, at(j))))))]
    return Contract(
        PP + 'parse_type_arg_list', objs={'self': abstract}, view=view, effect=effect,
        requires=representation, may_raise=err(fail), invariants=[here],
        fails=(Failure, lambda S, a: a.self.args_fail(a.self.pos)),
        measure=lambda S, a: (a.self.n - a.self.pos, 2 * RANK['args']),
        ensures=lambda S, a, r: list(ens(S, a, r)), opts={'dicts': True})


# ------------------------------------------------------------- brackets
def exists_lists(S, n, f, trigger):
    """There are n values with f."""
    us = [z3.Const(S.I.ctx.fresh_name('u'), S.V) for _ in range(n)]
    return z3.Exists(us, f(*us), patterns=[trigger(*us)])


def each(S, n, f):
    k = z3.Int(S.I.ctx.fresh_name('each'))
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f(k)))


def columns(S, xs, n, u, w):
    """the names and the types of n fields"""
    return S.And(S.is_list(u), S.is_list(w), S.len(u) == n, S.len(w) == n, each(
        S, n, lambda k: S.And(S.same(S.at(u, k), S.at(S.at(xs, k), 0)),
                              S.same(S.at(w, k), S.at(S.at(xs, k), 1)))))


def c_struct():
    def prods(S, v, i, r, j):
        args = 'field', COMMA(S), YES, i + 1
        xs, e = v.list(*args), v.list_end(*args)
        n = S.If(S.is_none(xs), 0, S.len(xs))
        fn = entry(S.I, 'dtype_constr', S.lit('struct'))
        call = lambda u, w: S.w.fn('call_pp', 'V', 'V', 'V', 'V')(fn, u, w)
        return [S.And(v.is_(S, i, 'LBRACE'), v.is_(S, e, 'RBRACE'), j == e + 1, exists_lists(
            S, 2, lambda u, w: S.And(S.same(r, call(u, w)), columns(S, xs, n, u, w)), call))]

    def fail(S, v, i):
        args = 'field', COMMA(S), YES, i + 1
        xs, e = v.list(*args), v.list_end(*args)
        n = S.If(S.is_none(xs), 0, S.len(xs))
        fn = entry(S.I, 'dtype_constr', S.lit('struct'))
        call = lambda u, w: call_fails(S, fn, u, w)
        return [S.And(v.is_(S, i, 'LBRACE'), S.Or(
            v.list_fails(*args), S.And(S.Not(v.list_fails(*args)), S.Or(
                S.Not(v.is_(S, e, 'RBRACE')), S.is_none(fn), exists_lists(
                    S, 2, lambda u, w: S.And(call(u, w), columns(S, xs, n, u, w)), call)))))]
    return rule('parse_struct_type', prods, lambda S, v, i: S.Not(v.is_(S, i, 'LBRACE')), fail)


def c_fun():
    def prods(S, v, i, r, j):
        args = 'ds', COMMA(S), YES, i + 1
        xs, e = v.list(*args), v.list_end(*args)
        tup = entry(S.I, 'dtype_constr', S.lit('tuple'))
        fun = entry(S.I, 'dtype_constr', S.lit('funcproto'))
        one = lambda u: S.w.fn('call_p', 'V', 'V', 'V')(tup, u)
        ret = v.res('ds', e + 2)
        two = lambda u: S.w.fn('call_pp', 'V', 'V', 'V', 'V')(fun, u, ret)
        same = lambda u: S.If(S.is_none(xs), S.And(S.is_seq(u), S.len(u) == 0), S.same(u, xs))
        both = S.And(v.is_(S, i, 'LPAREN'), v.is_(S, e, 'RPAREN'))
        arrow = v.is_(S, e + 1, 'RARROW')
        return [S.And(both, S.Not(arrow), j == e + 1, exists_lists(
                    S, 1, lambda u: S.And(same(u), S.same(r, one(u))), one)),
                S.And(both, arrow, S.Not(S.is_none(ret)), j == v.end('ds', e + 2), exists_lists(
                    S, 1, lambda u: S.And(same(u), S.same(r, two(u))), two))]

    def fail(S, v, i):
        args = 'ds', COMMA(S), YES, i + 1
        xs, e = v.list(*args), v.list_end(*args)
        tup = entry(S.I, 'dtype_constr', S.lit('tuple'))
        fun = entry(S.I, 'dtype_constr', S.lit('funcproto'))
        ret = v.res('ds', e + 2)
        one = lambda u: call_fails(S, tup, u)
        two = lambda u: call_fails(S, fun, u, ret)
        same = lambda u: S.If(S.is_none(xs), S.And(S.is_seq(u), S.len(u) == 0), S.same(u, xs))
        arrow = v.is_(S, e + 1, 'RARROW')
        return [S.And(v.is_(S, i, 'LPAREN'), S.Or(v.list_fails(*args), S.And(
            S.Not(v.list_fails(*args)), S.Or(
                S.Not(v.is_(S, e, 'RPAREN')),
                S.And(S.Not(arrow), S.Or(S.is_none(tup), exists_lists(
                    S, 1, lambda u: S.And(same(u), one(u)), one))),
                S.And(arrow, S.Or(v.fails('ds', e + 2), S.is_none(ret), S.is_none(fun), exists_lists(
                    S, 1, lambda u: S.And(same(u), two(u)), two)))))))]
    return rule('parse_funcproto_or_tuple_type', prods,
                lambda S, v, i: S.Not(v.is_(S, i, 'LPAREN')), fail)


# ------------------------------------------------------------- the whole text
def c_lex_stream():
    """(what the lexer gives; that it is what the grammar of tokens says: C11)"""
    return Contract(
        'datashape.lexer:lex', assumed=True, when=lambda I, a: I.opt.get('stream'),
        effect=lambda I, S, A: stream(I, text_view(I, A.ds_str), z3.IntVal(0)))


def text_view(I, t):
    o = Obj(parser.DataShapeParser)
    o.attrs['ds_str'] = SV(t)
    o.attrs['pos'] = SI(z3.IntVal(0))
    return View(I, o)


def of_text(S, a):
    """what the tokens of the text are; the meaning of a text"""
    v = text_view(S.I, a.ds_str)
    about_tokens(S.I, v)
    return [S.same(parsed(S, a.ds_str), v.res('ds', z3.IntVal(0)))]


def the_symbols(I):
    return symbols(I), None


def new_parser(I):
    o = Obj(parser.DataShapeParser)
    return o, o


def c_start():
    def ens(S, a, r):
        v = View(S.I, a.self)
        return [('at the first token', v.now() == 0),
                ('of the text', S.same(v.t, a.ds_str))] + kept(S, v)
    return Contract(
        PP + '__init__', objs={'self': new_parser, 'sym': the_symbols}, when=lambda I, a: False,
        requires=lambda S, a: S.is_str(a.ds_str), facts=of_text,
        may_raise=[(DataShapeSyntaxError, lambda S, a: S.And(
            text_view(S.I, a.ds_str).bad(), text_view(S.I, a.ds_str).n == 0))],
        ensures=ens, opts={'stream': True, 'inline': ('DataShapeParser.advance_tok',)})


def not_a_sentence(S, a):
    v = text_view(S.I, a.ds_str)
    o = z3.IntVal(0)
    return S.Or(v.bad(), v.fails('ds', o), S.is_none(v.res('ds', o)), v.end('ds', o) != v.n)


def c_parse():
    def ens(S, a, r):
        yield 'a datashape', S.And(is_D(S, r), S.same(r, parsed(S, a.ds_str)))
        v = text_view(S.I, a.ds_str)
        yield 'of the whole text', v.end('ds', z3.IntVal(0)) == v.n
    return Contract(
        'datashape.parser:parse', objs={'sym': the_symbols}, view=view,
        requires=lambda S, a: S.is_str(a.ds_str), facts=of_text,
        fails=(DataShapeSyntaxError, lambda S, a: z3.BoolVal(True)), may_raise=[(Failure, not_a_sentence)],
        ensures=lambda S, a, r: list(ens(S, a, r)),
        opts={'stream': True, 'hidden': ('of the whole text',),
              'inline': ('DataShapeParser.advance_tok', 'DataShapeParser.__init__')})


PROP = 'C12'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
