"""The specification language.

A specification is a Python function over the API below, which gives it as a
formula.  Terms denote Python values; `int`/`len` give integers, for which the
usual operators are written.  Every operation is total: what makes no sense
(the field of an object that has none) is some unknown value.
"""
import z3
from . import smt
from .smt import IntVal, BoolVal, simp
from .loops import quantify


class Spec:
    pass


def _b(x):
    return BoolVal(x) if isinstance(x, bool) else x


class DictHandle:
    """A dictionary in a specification: its items before and now."""

    def __init__(self, cell):
        self.cell, self.old = cell, cell.st['items']

    @property
    def now(self):
        return self.cell.st['items']


def symbolic_dict(I, name, cell=None):
    """An arbitrary dictionary; or: an existing one with arbitrary items."""
    from .values import DictV, Seq, Tup, SV
    V = I.w.V
    n = z3.Int('n_' + name)
    I.ctx.assume(n >= 0)
    key, val = [I.w.fn(k + '_' + name, 'Int', 'V') for k in ('key', 'val')]
    items = Seq.sym(n, lambda i: Tup([SV(key(i)), SV(val(i))]))
    if cell is None:
        d = DictV(items=items)
    else:
        d = cell
        I.ctx.write(d.st, 'items', items)
    h = DictHandle(d)
    h.len, h.key, h.value = n, key, val
    return d, h


class ObjHandle:
    """An object of a class that is not a datashape class."""

    def __init__(self, I, obj):
        self.I, self.obj = I, obj

    def get(self, name):
        return self.I.box(self.obj.attrs[name])

    def has(self, name):
        return name in self.obj.attrs


def a_function(name, raises=()):
    """(a parameter that is) a function of one argument without side effects,
    that raises nothing"""
    def f(I):
        from .values import Prim, SV
        t = z3.Const('arg_' + name, I.w.V)

        def call(I, args, kwargs):
            if kwargs:
                from .values import Unsupported
                raise Unsupported('keyword arguments')
            sorts = ['V'] * (len(args) + 2)
            return I.norm(SV(I.w.fn('apply', *sorts)(t, *[
                I.box(I.norm(I.force(x))) for x in args])))
        return Prim(name, call, t), t
    return f


def an_object(cls, **attrs):
    """(a parameter that is) a new object with these attributes: each given
    as a term or by the name of an unknown value"""
    def f(I):
        from .values import Obj, SV
        o = Obj(cls)
        for k in attrs:
            v = attrs[k]
            o.attrs[k] = SV(z3.Const('attr_' + k, I.w.V)) if v is None else v(I)
        return o, ObjHandle(I, o)
    return f


def _part(I, items, k, j):
    from .builtins_ import dict_parts
    return I.seq_at_term(dict_parts(I, items, j), k)


def _key(I, items, k):
    return _part(I, items, k, 0)


def _value(I, items, k):
    return _part(I, items, k, 1)


class Sym(Spec):
    symbolic = True

    def __init__(self, I):
        self.I = I
        self.w = I.w
        self.u = I.u
        self.V = I.w.V

    # -- logic
    def And(self, *xs):
        xs = [x for x in xs if x is not True]
        if any(x is False for x in xs):
            return False
        if not xs:
            return True
        return z3.And(*[_b(x) for x in xs]) if len(xs) > 1 else xs[0]

    def Or(self, *xs):
        xs = [x for x in xs if x is not False]
        if any(x is True for x in xs):
            return True
        if not xs:
            return False
        return z3.Or(*[_b(x) for x in xs]) if len(xs) > 1 else xs[0]

    def Not(self, x):
        return (not x) if isinstance(x, bool) else z3.Not(x)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return _b(a) == _b(b)

    def If(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = (_b(a), _b(b)) if isinstance(a, bool) else (IntVal(a), IntVal(b))
        return z3.If(c, a, b)

    def forall(self, lo, hi, f):
        i = z3.Int(self.I.ctx.fresh_name('q'))
        lo = IntVal(lo) if isinstance(lo, int) else lo
        body = f(i)
        if body is True:
            return True
        return quantify(self.I, i, lo, hi, _b(body))

    def exists(self, lo, hi, f):
        return self.Not(self.forall(lo, hi, lambda i: self.Not(f(i))))

    # -- values
    def r(self, x):
        return x.arg(0) if z3.is_app(x) and x.decl().name() == 'vr' else self.V.r(x)

    def fld(self, x, name):
        return self.w.attr(name)(self.r(x))

    def isinst(self, x, *classes):
        return self.I.isinst_term(x, classes)

    def cls_is(self, x, c):
        return self.w.is_tok(x, self.u.tok[c])

    def same_class(self, x, y):
        return self.I.clsof_term(x) == self.I.clsof_term(y)

    def cls_in(self, x, classes):
        """The exact class is one of these."""
        return self.w.is_any(x, [self.u.tok[c] for c in classes if c in self.u.tok])

    def is_int(self, x):
        """int, but not bool"""
        return self.V.is_vi(x)

    def is_intlike(self, x):
        return z3.Or(self.V.is_vi(x), self.V.is_vb(x))

    def intof(self, x):
        """The integer that an int or bool is."""
        return z3.If(self.V.is_vb(x), z3.If(self.V.b(x), IntVal(1), IntVal(0)), self.V.i(x))

    def is_bool(self, x):
        return self.V.is_vb(x)

    def is_str(self, x):
        return self.V.is_vs(x)

    def is_none(self, x):
        return self.V.is_vn(x)

    def is_tuple(self, x):
        return self.w.is_tok(x, 'tuple')

    def is_list(self, x):
        return self.w.is_tok(x, 'list')

    def is_seq(self, x):
        return self.w.is_any(x, ['tuple', 'list'])

    def int(self, x):
        return self.V.i(x)

    def bool(self, x):
        return self.V.b(x)

    def mkint(self, n):
        return self.V.vi(IntVal(n) if isinstance(n, int) else n)

    def mkbool(self, b):
        return self.V.vb(_b(b))

    def len(self, x):
        return self.w.tlen(self.r(x))

    def at(self, x, i):
        return self.w.at(self.r(x), IntVal(i) if isinstance(i, int) else i)

    def same(self, x, y):
        """The same object (equal, for numbers and strings)."""
        return x == y

    def eq(self, x, y):
        hook = self.I.opt.get('eq_hook')
        if hook:
            hook(self.I, x, y)
        return self.w.E(x, y)

    def hash(self, x):
        return self.w.H(x)

    def lit(self, c):
        """A constant: None, bool, int, str, or a live object."""
        return self.I.box(self.I.wrap(c))

    def fn(self, name, *args):
        """An uninterpreted function of values; the last name is its sort."""
        name, sort = name
        return self.w.fn(name, *(['V'] * len(args) + [sort]))(*args)

    def has_index(self, x):
        """operator.index accepts it"""
        ct = self.u.ct
        return z3.Or(self.is_intlike(x), self.cls_is(x, ct.Fixed),
                     z3.And(self.w.is_tok(x, 'OTHER'), self.w.fn('has_index', 'V', 'Bool')(x)))

    def index(self, x):
        ct = self.u.ct
        return z3.If(self.is_intlike(x), self.intof(x),
                     z3.If(self.cls_is(x, ct.Fixed), self.intof(self.fld(x, 'val')),
                           self.w.fn('index_of', 'V', 'Int')(x)))

    # -- texts
    def strof(self, x):
        """str(x)"""
        return z3.If(self.V.is_vs(x), x, self.V.vs(self.w.fn('str_of', 'V', 'Str')(x)))

    def strip(self, x):
        return self.V.vs(self.w.fn('str_strip', 'Str', 'Str')(self.V.s(x)))

    def box(self, x):
        return self.I.box(x)

    def num(self, n):
        return IntVal(n)

    def text(self, x, lo, hi):
        """x[lo:hi] for positions within the text"""
        return self.V.vs(self.w.fn('str_sub', 'Str', 'Int', 'Int', 'Str')(self.V.s(x), lo, hi))

    def textlen(self, x):
        return self.w.slen(self.V.s(x))

    def char(self, x, i):
        """The character at position i of a text, as a text."""
        return self.V.vs(self.w.fn('char', 'Str', 'Int', 'Str')(
            self.V.s(x), IntVal(i) if isinstance(i, int) else i))

    def count(self, x, c, lo, hi):
        """How many characters of x at the positions lo to hi - 1 are c."""
        num = lambda i: IntVal(i) if isinstance(i, int) else i
        return self.w.fn('str_count', 'Str', 'Str', 'Int', 'Int', 'Int')(
            self.V.s(x), self.w.str_lit(c), num(lo), num(hi))

    def format(self, template, *args):
        """template.format(*args)"""
        return self.V.vs(self.w.fn('text:' + template, *(['V'] * len(args) + ['Str']))(*args))

    def repeat(self, c, n):
        return self.V.vs(self.w.fn('str_repeat', 'Str', 'Int', 'Str')(self.w.str_lit(c), n))

    def capital(self, x):
        """The first character is a capital letter."""
        s = self.V.s(x)
        if self.w.string_mode == 'seq':
            first = z3.SubString(s, 0, 1)
        else:
            first = self.w.fn('str_slice_None_1_None', 'Str', 'Str')(s)
        return self.w.fn('str_isupper', 'Str', 'Bool')(first)

    def identifier(self, x):
        """A letter or underscore, then letters, digits and underscores (a
        keyword is one as well)."""
        s = self.V.s(x)
        if self.w.string_mode == 'seq':
            az = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_'))
            return z3.InRe(s, z3.Concat(az, z3.Star(z3.Union(az, z3.Range('0', '9')))))
        return self.w.fn('str_identifier', 'Str', 'Bool')(s)

    def oneof(self, x, texts):
        """x is one of these texts"""
        return self.Or(*[self.same(x, self.lit(t)) for t in texts])

    # -- slices
    def is_slice(self, x):
        """A slice of integers and None."""
        return z3.And(self.w.is_tok(x, 'slice'), *[
            z3.Or(self.is_none(self.fld(x, n)), self.is_int(self.fld(x, n)))
            for n in ('start', 'stop', 'step')])

    def slice_step_zero(self, x):
        return z3.And(self.is_int(self.fld(x, 'step')), self.int(self.fld(x, 'step')) == 0)

    def slicelen(self, n, x):
        """How many items of n the slice x selects (a built-in)."""
        return self.w.fn('slicelen', 'Int', 'V', 'V', 'V', 'Int')(
            n, *[self.fld(x, k) for k in ('start', 'stop', 'step')])

    def slicepos(self, n, x, i):
        return self.w.fn('slicepos', 'Int', 'V', 'V', 'V', 'Int', 'Int')(
            n, *([self.fld(x, k) for k in ('start', 'stop', 'step')] + [i]))

    def rangelen(self, lo, hi, step):
        return self.w.fn('rangelen', 'Int', 'Int', 'Int', 'Int')(lo, hi, step)

    # -- dictionaries (of the library's own objects)
    def has_key(self, items, q):
        k = z3.Int(self.I.ctx.fresh_name('k'))
        n = self.I.seq_len_term(items)
        return z3.Exists([k], z3.And(0 <= k, k < n, self.w.E(_key(self.I, items, k), q)))

    def binds(self, items, q, v):
        """The dictionary of these items (later ones win) maps q to v."""
        I = self.I
        k, j = z3.Int(I.ctx.fresh_name('k')), z3.Int(I.ctx.fresh_name('j'))
        n = I.seq_len_term(items)
        return z3.Exists([k], z3.And(
            0 <= k, k < n, self.w.E(_key(I, items, k), q), _value(I, items, k) == v,
            z3.ForAll([j], z3.Implies(z3.And(k < j, j < n), z3.Not(
                self.w.E(_key(I, items, j), q))))))

    # -- dictionaries that are inputs
    def is_dict(self, x):
        return self.w.is_tok(x, 'dict')

    def key(self, k):
        """k as the key of a dictionary: the same for equal keys"""
        return self.w.fn('key_of', 'V', 'V')(k)

    def dhas(self, x, k):
        return self.w.fn('dhas', 'Ref', 'V', 'Bool')(self.V.r(x), k)

    def is_set(self, x):
        return z3.And(self.V.is_vr(x), self.w.fn('is_set', 'Ref', 'Bool')(self.V.r(x)))

    def holds(self, x, k):
        """an item of the tuple, list or set x has the key k"""
        return self.w.fn('holds', 'Ref', 'V', 'Bool')(self.V.r(x), k)

    def hpos(self, x, k):
        return self.w.fn('hpos', 'Ref', 'V', 'Int')(self.V.r(x), k)

    def dpos(self, x, k):
        return self.w.fn('dpos', 'Ref', 'V', 'Int')(self.V.r(x), k)

    def dget(self, x, k):
        return self.w.fn('dget', 'Ref', 'V', 'V')(self.V.r(x), k)

    def dkey(self, x, i):
        return self.w.fn('dkey', 'Ref', 'Int', 'V')(self.V.r(x), i)

    def dval(self, x, i):
        return self.w.fn('dval', 'Ref', 'Int', 'V')(self.V.r(x), i)

    def forall_keys(self, x, f):
        """of every text that is a key of x"""
        k = z3.Const(self.I.ctx.fresh_name('key'), self.V)
        has = self.dhas(x, k)
        return z3.ForAll([k], z3.Implies(z3.And(self.V.is_vs(k), has), f(k)), patterns=[has])

    def forall_v(self, f):
        """of all values; f gives the formula and its trigger"""
        v = z3.Const(self.I.ctx.fresh_name('v'), self.V)
        body, trigger = f(v)
        return z3.ForAll([v], body, patterns=[trigger])

    def forall_i(self, f):
        """For all integers; f gives the statement and its trigger."""
        i = z3.Int(self.I.ctx.fresh_name('i'))
        body, pat = f(i)
        return z3.ForAll([i], body, patterns=[pat])

    def forall_vs(self, n, f):
        """of all n-tuples of values; f gives the formula and its triggers"""
        vs = [z3.Const(self.I.ctx.fresh_name('v'), self.V) for _ in range(n)]
        body, triggers = f(*vs)
        if not isinstance(triggers, list):
            triggers = [triggers]
        return z3.ForAll(vs, _b(body), patterns=[
            z3.MultiPattern(*t) if isinstance(t, tuple) else t for t in triggers])

    def is_dtype(self, x):
        return self.w.is_tok(x, 'dtype')

    def truth(self, x, c):
        """x is a boolean or None, and true exactly if c"""
        return z3.And(z3.Or(self.V.is_vb(x), self.V.is_vn(x)),
                      z3.And(self.V.is_vb(x), self.V.b(x)) == c)

    def ghost(self, name):
        """An arbitrary value."""
        return z3.Const('ghost_' + name, self.V)

    def classconst(self, c):
        return self.V.vc(self.w.ctok[self.u.tok[c]])

    def clsof(self, x):
        return self.V.vc(self.I.clsof_term(x))
