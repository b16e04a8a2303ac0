"""Semantics of the Python built-ins that the library uses.

These are trusted: each handler states what CPython does.  They are compared
with CPython itself by the cross-check (tools/crosscheck.py)."""
import ast
import builtins as _b
import functools
import itertools
import keyword
import re
import string
import operator
import types
import datetime
import collections
import numpy
import z3
from .smt import And, Or, Not, Implies, If, IntVal, BoolVal, is_true, is_false, simp
from . import maps
from .maps import MDict, MSet
from .values import *
from .universe import static_lookup

_NOARG = object()


def flat(I, args, kwargs):
    """Positional arguments with a trailing symbolic *args made concrete."""
    vs = kwargs.pop('__varseq', None)
    if vs is None:
        return list(args)
    c = vs.concrete()
    if c is None:
        raise Unsupported('symbolic *args of a built-in')
    return list(args) + c


def only(args, lo, hi=None):
    hi = lo if hi is None else hi
    if not lo <= len(args) <= hi:
        raise PyRaise(TypeError, ('wrong number of arguments',))


# ------------------------------------------------------------------ type tests
def class_tuple(I, v):
    return I.class_list(v)


def isinstance_(I, v, classes):
    v = I.norm(I.force(v))
    c = I.class_of(v)
    classes = tuple(classes)
    if c is not None:
        if isinstance(v, (Closure, BMeth, Prim)):
            if any(k in (object, types.FunctionType) for k in classes):
                raise Unsupported('isinstance of a function')
            return False
        if c is type and isinstance(v, SCls):
            c2 = [k for k in classes if k in (type, object)]
            if c2:
                return True
            return False
        if not isinstance(v, Val):
            return isinstance(v, classes)
        return issubclass(c, classes)
    if object in classes:
        return True
    t = simp(I.isinst_term(v.t, classes))
    if is_true(t):
        return True
    if is_false(t):
        return False
    toks = frozenset(k for c in classes for k in I.toks_of(c))
    have = I.ctx.may_be(v.t)
    if have is not None:
        if have <= toks:
            return True
        if not have & toks:
            return False
    I.ctx.tests[t.get_id()] = (t, v.t, toks)
    return SB(t)


def b_isinstance(I, args, kwargs):
    only(args, 2)
    return isinstance_(I, args[0], class_tuple(I, args[1]))


def b_issubclass(I, args, kwargs):
    only(args, 2)
    c = I.norm(I.force(args[0]))
    classes = tuple(class_tuple(I, args[1]))
    if isinstance(c, type):
        return issubclass(c, classes)
    if isinstance(c, SCls):
        toks = [t for t in I.u.all_toks if I.u.cls_of_tok[t] is not None
                and issubclass(I.u.cls_of_tok[t], classes)]
        return SB(simp(Or(*[c.t == I.w.ctok[t] for t in toks])))
    raise Unsupported('issubclass')


def b_type(I, args, kwargs):
    only(args, 1)
    v = I.norm(I.force(args[0]))
    if isinstance(v, SV):
        return SCls(simp(I.clsof_term(v.t)))
    c = I.class_of(v)
    if isinstance(v, SCls):
        # the class of a class: only known to be a metaclass
        return SCls(I.w.ctok['type'])
    return c


def b_callable(I, args, kwargs):
    v = I.norm(I.force(args[0]))
    if isinstance(v, (Closure, BMeth, Prim, SCls)):
        return True
    if isinstance(v, Val):
        if isinstance(v, SV):
            return SB(I.w.V.is_vc(v.t))
        return False
    return callable(v)


# ------------------------------------------------------------------- len, bool
def b_len(I, args, kwargs):
    only(args, 1)
    v = I.norm(I.force(args[0]))
    return py_len(I, v)


def py_len(I, v):
    if isinstance(v, Tup):
        return I.seq_len(v.seq)
    if isinstance(v, ListV):
        return I.seq_len(v.st['seq'])
    if isinstance(v, SetV):
        return set_len(I, v)
    if isinstance(v, DictV):
        return dict_len(I, v)
    if isinstance(v, MapV):
        return SI(I.map_len(v))
    if isinstance(v, MSet):
        I.ctx.assume(I.w.tlen(v.ref) >= 0)
        return SI(I.w.tlen(v.ref))
    if isinstance(v, SS):
        n = I.w.slen(v.t)
        I.ctx.assume(n >= 0)
        return SI(n)
    if isinstance(v, SV):
        def key(c, tok):
            if tok in ('tuple', 'list', 'str', 'dict'):
                return ('n', tok)
            if c is not None and c in I.u.ds_classes:
                k, f = static_lookup(c, '__len__')
                return ('f', f) if k else ('no',)
            if c is None or hasattr(c, '__len__'):
                return ('unsup', tok)
            return ('no',)
        k = I.fork_class(v, key)
        if k[0] == 'n':
            return py_len(I, I.native_view(v, k[1]))
        if k[0] == 'f':
            return len_result(I, I.call_function(k[1], [v], {}))
        if k[0] == 'no':
            raise PyRaise(TypeError, ('object has no len()',))
        if k[1] in ('dict', 'set', 'frozenset', 'OrderedDict'):
            r = I.w.V.r(v.t)
            I.ctx.assume(I.w.tlen(r) >= 0)
            return SI(I.w.tlen(r))
        raise Unsupported('len of a %s' % k[1])
    c = I.class_of(v)
    if c in I.u.ds_classes or isinstance(v, Obj):
        k, f = static_lookup(c, '__len__')
        if not k:
            raise PyRaise(TypeError, ('object has no len()',))
        return len_result(I, I.call_function(f, [v], {}))
    if isinstance(v, IterV) and v.seqf is not None:
        return I.seq_len(v.seqf())
    if isinstance(v, (SI, SB, SCls)):
        raise PyRaise(TypeError, ('object has no len()',))
    if isinstance(v, Val):
        raise Unsupported('len of %s' % type(v).__name__)
    try:
        return len(v)
    except TypeError as e:
        raise PyRaise(TypeError, e.args)


def len_result(I, v):
    return SI(I.int_term(v)) if isinstance(v, Val) else v


def distinct_items(I, seq):
    """Condition: no two items are equal."""
    items = seq.concrete()
    if items is not None:
        out = []
        for a, b in itertools.combinations(items, 2):
            e = I.eq(a, b)
            if e is True:
                return False
            if e is not False:
                out.append(Not(e))
        return And(*out) if out else True
    n = I.seq_len_term(seq)
    i, j = z3.Int(I.ctx.fresh_name('i')), z3.Int(I.ctx.fresh_name('j'))
    return z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < n), Not(I.w.E(
        I.seq_at_term(seq, i), I.seq_at_term(seq, j)))))


def set_len(I, v):
    """len(set): n when the items added are distinct, less otherwise."""
    seq = v.st['seq']
    n = I.seq_len_term(seq)
    items = seq.concrete()
    if items is not None and len(items) <= 1:
        return len(items)
    if items is not None:
        # the number of items not equal to an earlier one
        out = IntVal(0)
        for j, y in enumerate(items):
            es = [I.eq(items[i], y) for i in range(j)]
            if any(e is True for e in es):
                continue
            es = [e for e in es if e is not False]
            out = out + (If(Or(*es), IntVal(0), IntVal(1)) if es else IntVal(1))
        s = simp(out)
        return s.as_long() if z3.is_int_value(s) else SI(s)
    m = I.ctx.fresh('setlen', z3.IntSort())
    d = distinct_items(I, seq)
    if d is True:
        return SI(n)
    I.ctx.assume(And(m >= 0, m <= n, Implies(n > 0, m >= 1)))
    allsame = all_same(I, seq)
    if I.ctx.branch(d if not isinstance(d, bool) else BoolVal(d)):
        I.ctx.assume(m == n)
    else:
        i, j = I.ctx.fresh('i', z3.IntSort()), I.ctx.fresh('j', z3.IntSort())
        I.ctx.assume(And(m < n, 0 <= i, i < j, j < n,
                         I.w.E(I.seq_at_term(seq, i), I.seq_at_term(seq, j))))
    I.ctx.assume(Implies(n > 0, (m == 1) == allsame))
    return SI(m)


def set_seq(I, v):
    """The items of a set, in an arbitrary order."""
    seq = v.st['seq']
    m = I.int_term(set_len(I, v))
    n = I.seq_len_term(seq)
    ctx, w = I.ctx, I.w
    src = ctx.fresh_fn('set_src', z3.IntSort(), z3.IntSort())
    dst = ctx.fresh_fn('set_dst', z3.IntSort(), z3.IntSort())
    q = ctx.fresh_fn('set_item', z3.IntSort(), w.V)
    i, j = z3.Int(ctx.fresh_name('i')), z3.Int(ctx.fresh_name('j'))
    ctx.assume(z3.ForAll([i], Implies(And(0 <= i, i < m), And(
        0 <= src(i), src(i) < n, q(i) == I.seq_at_term(seq, src(i)))), patterns=[q(i)]))
    ctx.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < m), Not(w.E(q(i), q(j)))),
                         patterns=[z3.MultiPattern(q(i), q(j))]))
    t = I.seq_at_term(seq, i)
    body = Implies(And(0 <= i, i < n), And(0 <= dst(i), dst(i) < m, w.E(q(dst(i)), t)))
    ctx.assume(z3.ForAll([i], body, patterns=[dst(i)]))
    if seq.concrete() is None and z3.is_app(t) and t.num_args():
        try:
            ctx.assume(z3.ForAll([i], body, patterns=[t]))
        except z3.Z3Exception:
            pass
    return Seq.sym(m, lambda i: I.norm(SV(q(i))))


def all_same(I, seq):
    n = I.seq_len_term(seq)
    i = z3.Int(I.ctx.fresh_name('i'))
    return z3.ForAll([i], Implies(And(0 <= i, i < n), I.w.E(
        I.seq_at_term(seq, IntVal(0)), I.seq_at_term(seq, i))))


def dict_len(I, v):
    seq = v.st['items']
    items = seq.concrete()
    if items is None:
        return set_len(I, SetV(seq=dict_keys(I, v)))
    return set_len(I, SetV(seq=Seq.of([kv.seq.concrete()[0] for kv in items])))


def pair_part(I, x, j):
    x = I.norm(I.force(x))
    s = I.as_seq(x)
    if s is None:
        raise Unsupported('pair expected')
    return I.seq_item(s, IntVal(j))


def dict_keys(I, v):
    return dict_parts(I, v.st['items'], 0)


def dict_parts(I, items, j):
    """The j-th components of pairs."""
    return Seq([Part(items=[pair_part(I, x, j) for x in p.items]) if p.items is not None
                else Part(n=p.n, at=(lambda p: lambda i: pair_part(I, p.at(i), j))(p))
                for p in items.parts])


def b_bool(I, args, kwargs):
    if not args:
        return False
    t = I.truth(args[0])
    return t if isinstance(t, bool) else SB(t)


def b_int(I, args, kwargs):
    if not args:
        return 0
    v = I.norm(I.force(args[0]))
    if len(args) > 1 or not isinstance(v, Val) and type(v) not in I.u.ds_classes:
        return I.call_native(int, args, kwargs, None)
    return to_int(I, v, ('__int__', '__index__'))


def b_index(I, args, kwargs):
    only(args, 1)
    v = I.norm(I.force(args[0]))
    return to_int(I, v, ('__index__',))


def to_int(I, v, names):
    if isinstance(v, (SI, SB)):
        return SI(I.int_term(v)) if isinstance(v, SB) else v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int) and type(v) is int:
        return v
    c = I.class_of(v)
    if c is None:
        def key(c, tok):
            if tok in ('int', 'bool'):
                return ('n', tok)
            if c is not None and c in I.u.ds_classes:
                for m in names:
                    k, f = static_lookup(c, m)
                    if k:
                        return ('f', f)
                return ('no',)
            if tok in ('str', 'float', 'OTHER', 'bytes') and '__int__' in names:
                return ('unsup', tok)
            if tok == 'OTHER':
                return ('other',)
            return ('no',)
        k = I.fork_class(v, key)
        if k[0] == 'n':
            return to_int(I, I.native_view(v, k[1]), names)
        if k[0] == 'f':
            r = I.norm(I.call_function(k[1], [v], {}))
            if I.class_of(r) is None:
                ok = I.w.is_any(r.t, ['int', 'bool'])
                if not I.ctx.branch(ok):
                    raise PyRaise(TypeError, ('__index__ returned non-int',))
                if I.ctx.branch(I.w.V.is_vi(r.t)):
                    return SI(I.w.V.i(r.t))
                return SI(I.int_term(SB(I.w.V.b(r.t))))
            return r
        if k[0] == 'no':
            raise PyRaise(TypeError, ('cannot be interpreted as an integer',))
        if k[0] == 'other':
            # an object of a class outside of the closed world: it may have
            # __index__ (then its value is an unknown function of it) or not
            has = I.w.fn('has_index', 'V', 'Bool')(v.t)
            if I.ctx.branch(has):
                return SI(I.w.fn('index_of', 'V', 'Int')(v.t))
            raise PyRaise(TypeError, ('cannot be interpreted as an integer',))
        raise Unsupported('int of a %s' % k[1])
    if c in I.u.ds_classes:
        for m in names:
            k, f = static_lookup(c, m)
            if k:
                return I.call_function(f, [v], {})
        raise PyRaise(TypeError, ('cannot be interpreted as an integer',))
    if isinstance(v, Val):
        if c in (tuple, list, dict, set, type(None), types.FunctionType, type, slice) \
                or '__int__' not in names:
            raise PyRaise(TypeError, ('cannot be interpreted as an integer',))
        raise Unsupported('int of %s' % type(v).__name__)
    f = int if '__int__' in names else operator.index
    return I.call_native(f, [v], {}, None)


# -------------------------------------------------------------- constructors
def b_tuple(I, args, kwargs):
    args = flat(I, args, kwargs)
    if not args:
        return Tup([])
    v = I.norm(I.force(args[0]))
    if isinstance(v, Tup):
        return v
    if isinstance(v, SV) and I.ctx.entails(I.w.is_tok(v.t, 'tuple')):
        return v
    return Tup(I.to_seq(v))


def b_list(I, args, kwargs):
    args = flat(I, args, kwargs)
    if not args:
        return ListV(seq=Seq())
    return ListV(seq=I.to_seq(args[0]))


def b_set(I, args, kwargs):
    args = flat(I, args, kwargs)
    if I.opt.get('sets'):
        return maps.set_of(I, args[0]) if args else maps.empty(I, 'set')
    if not args:
        return SetV(seq=Seq())
    v = I.norm(I.force(args[0]))
    if isinstance(v, SetV):
        return SetV(seq=v.st['seq'])
    return SetV(seq=I.to_seq(v))


def b_dict(I, args, kwargs):
    if I.opt.get('dicts'):
        v = I.norm(I.force(args[0])) if args else None
        seq = v
        if isinstance(v, Val) and not isinstance(v, (MapV, MSet)):
            seq = I.to_seq(v)
        if isinstance(v, MapV):
            d = MDict(I, I.box(v))
        elif isinstance(seq, Seq) and seq.concrete() is None and (
                made := maps.dict_of(I, seq)) is not None:
            d = made
        else:
            d = maps.empty(I, 'dict')
            if args:
                def put(kv):
                    kv = I.to_seq(kv)
                    maps.setitem(I, d, I.seq_item(kv, IntVal(0)), I.seq_item(kv, IntVal(1)))
                I.iterate(v, put)
        for k, x in kwargs.items():
            maps.setitem(I, d, k, x)
        return d
    d = DictV(items=Seq())
    if args:
        v = I.norm(I.force(args[0]))
        if isinstance(v, DictV):
            d.st['items'] = v.st['items']
        elif type(v) is dict:
            d.st['items'] = Seq.of([Tup([I.wrap(k), I.wrap(x)]) for k, x in v.items()])
        else:
            d.st['items'] = I.to_seq(v)
    for k, v in kwargs.items():
        d.st['items'] = d.st['items'] + Seq.of([Tup([k, v])])
    return d


def b_str(I, args, kwargs):
    if not args:
        return ''
    v = I.norm(I.force(args[0]))
    return py_str(I, v)


def py_str(I, v):
    if isinstance(v, (SS, Opaque)) or type(v) is str:
        return v
    if isinstance(v, SV):
        if I.ctx.entails(I.w.V.is_vs(v.t)):
            return SS(I.w.V.s(v.t))
        # str() of an arbitrary object: an unknown text that depends on the
        # object only
        w = I.w
        if I.ctx.branch(w.V.is_vs(v.t)):
            return SS(w.V.s(v.t))
        return SS(w.fn('str_of', 'V', 'Str')(v.t))
    if isinstance(v, Val) or type(v) in I.u.ds_classes:
        return Opaque(('str', v))
    return I.call_native(str, [v], {}, None)


def b_repr(I, args, kwargs):
    v = I.norm(I.force(args[0]))
    if isinstance(v, (Val,)) or type(v) in I.u.ds_classes:
        return Opaque(('repr', v))
    return I.call_native(repr, [v], {}, None)


def b_hash(I, args, kwargs):
    only(args, 1)
    v = args[0]
    return SI(hash_term(I, v))


def hash_term(I, v):
    return I.w.H(I.box(v))


# ------------------------------------------------------------------ iteration
def b_iter(I, args, kwargs):
    v = I.norm(I.force(args[0]))
    if isinstance(v, IterV):
        return v
    s = I.as_seq(v)
    if s is not None:
        return IterV(lambda body: I.sym_for(s, body), lambda: s)
    return IterV(lambda body: I.iterate(v, body))


def lazy_seq(I, v):
    """A Seq view of an iterable when that takes no evaluation order."""
    v = I.norm(I.force(v))
    s = I.as_seq(v)
    if s is not None:
        return s
    return I.to_seq(v)


def b_map(I, args, kwargs):
    args = flat(I, args, kwargs)
    f = args[0]
    if len(args) == 2:
        return IterV(lambda body: I.iterate(args[1], lambda x: body(I.call(f, [x], {}))))
    z = b_zip(I, args[1:], {})

    def drive(body):
        def one(t):
            body(I.call(f, t.seq.concrete(), {}))
        z.drive(one)
    return IterV(drive)


def b_filter(I, args, kwargs):
    f, v = args

    def drive(body):
        def one(x):
            if I.test(I.call(f, [x], {}) if f is not None else x):
                body(x)
        I.iterate(v, one)
    return IterV(drive)


def b_zip(I, args, kwargs):
    args = flat(I, args, kwargs)
    if not args:
        return IterV(lambda body: None, lambda: Seq())
    cache = []

    def seqf():
        if cache:
            return cache[0]
        seqs = [lazy_seq(I, a) for a in args]
        cs = [s.concrete() for s in seqs]
        if all(c is not None for c in cs):
            r = Seq.of([Tup(list(t)) for t in zip(*cs)])
        else:
            n = I.seq_len_term(seqs[0])
            for s in seqs[1:]:
                m = I.seq_len_term(s)
                if not I.ctx.entails(n == m):
                    if I.ctx.entails(m < n):
                        n = m
                    elif not I.ctx.entails(n <= m):
                        if I.ctx.branch(m < n):
                            n = m
            ns = simp(n)
            if z3.is_int_value(ns) and ns.as_long() <= 8:
                r = Seq.of([Tup([I.seq_item(s, IntVal(i)) for s in seqs])
                            for i in range(max(ns.as_long(), 0))])
            else:
                r = Seq.sym(ns, lambda i: Tup([I.seq_item(s, i) for s in seqs]))
        cache.append(r)
        return r
    return IterV(lambda body: I.sym_for(seqf(), body), seqf)


def b_enumerate(I, args, kwargs):
    v = args[0]
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    st = I.int_term(start)

    def seqf():
        s = lazy_seq(I, v)
        c = s.concrete()
        if c is not None:
            return Seq.of([Tup([I.norm(SI(simp(st + i))), x]) for i, x in enumerate(c)])
        n = I.seq_len_term(s)
        return Seq.sym(n, lambda i: Tup([SI(simp(st + i)), I.seq_item(s, i)]))
    return IterV(lambda body: I.sym_for(seqf(), body), seqf)


class RangeV(Val):
    __slots__ = 'start', 'stop', 'step'

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def b_range(I, args, kwargs):
    args = flat(I, args, kwargs)
    vals = []
    for a in args:
        a = I.norm(I.force(a))
        c = I.class_of(a)
        if c is None:
            a = to_int(I, a, ('__index__',))
        elif c not in (int, bool):
            if c in I.u.ds_classes:
                a = to_int(I, a, ('__index__',))
            else:
                raise PyRaise(TypeError, ('cannot be interpreted as an integer',))
        vals.append(a)
    if not 1 <= len(vals) <= 3:
        raise PyRaise(TypeError, ('range',))
    if all(not isinstance(v, Val) for v in vals):
        try:
            r = range(*vals)
        except ValueError as e:
            raise PyRaise(ValueError, e.args)
        if len(r) <= 64:
            s = Seq.of(list(r))
            return IterV(lambda body: I.sym_for(s, body), lambda: s)
    lo = IntVal(0) if len(vals) == 1 else I.int_term(vals[0])
    hi = I.int_term(vals[0] if len(vals) == 1 else vals[1])
    step = 1 if len(vals) < 3 else vals[2]
    if not isinstance(step, Val) and step == 1:
        n = simp(If(hi - lo > 0, hi - lo, IntVal(0)))
        if I.ctx.entails(hi >= lo):
            n = simp(hi - lo)

        def seqf():
            return Seq.sym(n, lambda i: I.norm(SI(simp(lo + i))))
    else:
        st = I.int_term(step)
        if I.ctx.branch(st == 0):
            raise PyRaise(ValueError, ('range() arg 3 must not be zero',))
        n = I.w.fn('rangelen', 'Int', 'Int', 'Int', 'Int')(lo, hi, st)
        I.ctx.assume(And(n >= 0, Implies(st == 1, n == If(hi > lo, hi - lo, IntVal(0))),
                         (n == 0) == Or(And(st > 0, hi <= lo), And(st < 0, hi >= lo))))

        def seqf():
            return Seq.sym(n, lambda i: I.norm(SI(simp(lo + i * st))))
    return IterV(lambda body: I.sym_for(seqf(), body), seqf)


class _Exit(Exception):
    """Leaves a loop driven by a built-in (all, any, next)."""

    def __init__(self, value):
        self.value = value


def b_all(I, args, kwargs):
    def body(x):
        if not I.test(x):
            raise FlowReturn(False)
    try:
        I.iterate(args[0], body)
    except FlowReturn as e:
        return e.value
    return True


def b_any(I, args, kwargs):
    def body(x):
        if I.test(x):
            raise FlowReturn(True)
    try:
        I.iterate(args[0], body)
    except FlowReturn as e:
        return e.value
    return False


def b_sum(I, args, kwargs):
    acc = Store(v=args[1] if len(args) > 1 else 0)

    def body(x):
        I.ctx.write(acc, 'v', I.binop(ast.Add(), acc['v'], x))
    I.iterate(args[0], body)
    return acc['v']


def b_minmax(which):
    def f(I, args, kwargs):
        key = kwargs.pop('key', None)
        default = kwargs.pop('default', _NOARG)
        args = flat(I, args, kwargs)
        vs = args if len(args) > 1 else lazy_seq(I, args[0]).concrete()
        if vs is None:
            return symbolic_minmax(I, which, lazy_seq(I, args[0]), key, default)
        if not vs:
            if default is not _NOARG:
                return default
            raise PyRaise(ValueError, ('empty',))
        best, bk = vs[0], I.call(key, [vs[0]], {}) if key is not None else vs[0]
        for x in vs[1:]:
            k = I.call(key, [x], {}) if key is not None else x
            c = I.compare(ast.Gt() if which == 'max' else ast.Lt(), k, bk)
            if I.test(c):
                best, bk = x, k
        return best
    return f


def symbolic_minmax(I, which, seq, key, default):
    """The first of the items whose (integer) key no other exceeds."""
    n = I.seq_len_term(seq)
    if I.ctx.branch(n == 0):
        if default is not _NOARG:
            return default
        raise PyRaise(ValueError, ('empty',))
    keys = seq
    if key is not None:
        keys = lazy_seq(I, b_map(I, [key, IterV(lambda body: I.sym_for(seq, body), lambda: seq)],
                                 {}))
    V = I.w.V

    def kt(i):
        return I.seq_at_term(keys, i)
    i = z3.Int(I.ctx.fresh_name('i'))
    if not I.ctx.entails(z3.ForAll([i], Implies(And(0 <= i, i < n), Or(
            V.is_vi(kt(i)), V.is_vb(kt(i)))))):
        raise Unsupported('%s of a symbolic sequence' % which)

    def val(i):
        return If(V.is_vi(kt(i)), V.i(kt(i)), If(V.b(kt(i)), IntVal(1), IntVal(0)))
    k = I.ctx.fresh('best', z3.IntSort())
    better = (lambda x, y: x > y) if which == 'max' else (lambda x, y: x < y)
    I.ctx.assume(And(0 <= k, k < n))
    from .loops import quantify
    I.ctx.assume(quantify(I, i, IntVal(0), n, Not(better(val(i), val(k)))))
    I.ctx.assume(quantify(I, i, IntVal(0), k, better(val(k), val(i))))
    return I.seq_item(seq, k)


def b_reversed(I, args, kwargs):
    s = lazy_seq(I, args[0])
    c = s.concrete()
    if c is not None:
        r = Seq.of(c[::-1])
    else:
        n = I.seq_len_term(s)
        r = Seq.sym(n, lambda i: I.seq_item(s, simp(n - 1 - i)))
    return IterV(lambda body: I.sym_for(r, body), lambda: r)


def b_sorted(I, args, kwargs):
    s = lazy_seq(I, args[0])
    c = s.concrete()
    if c is not None and len(c) <= 1:
        return ListV(seq=s)
    if c is not None and all(I.is_conc(x) for x in c) and \
            (kwargs.get('key') is None):
        return I.call_native(sorted, [ListV(seq=s)], kwargs, None)
    # a permutation of the items (that it is sorted is not used)
    n = I.seq_len_term(s)
    p = I.ctx.fresh_fn('perm', z3.IntSort(), z3.IntSort())
    q = I.ctx.fresh_fn('permi', z3.IntSort(), z3.IntSort())
    i = z3.Int(I.ctx.fresh_name('i'))
    I.ctx.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), And(
        0 <= p(i), p(i) < n, q(p(i)) == i)), patterns=[p(i)]))
    I.ctx.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), And(
        0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    r = Seq.sym(n, lambda i: I.seq_item(s, p(i)))
    if not kwargs:
        # (their order is that of the values)
        j = z3.Int(I.ctx.fresh_name('j'))
        at = lambda k: I.box(I.seq_item(r, k))
        le = I.w.fn('in_order', 'V', 'V', 'Bool')
        I.ctx.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < n), le(at(i), at(j))),
                               patterns=[le(at(i), at(j))]))
    return ListV(seq=r)


def b_chain(I, args, kwargs):
    args = flat(I, args, kwargs)

    def drive(body):
        for a in args:
            I.iterate(a, body)
    return IterV(drive)


def b_chain_from(I, args, kwargs):
    v = args[0]
    if I.opt.get('flatten'):
        return flattened(I, lazy_seq(I, v))
    return IterV(lambda body: I.iterate(v, lambda x: I.iterate(x, body)))


def flattened(I, s):
    """The items of the items of the sequence, as a function of them all (the
    iterator stands for what it gives)."""
    w = I.w
    l = I.box(Tup(s))
    flat_ = w.fn('flatten', 'V', 'V')
    t = flat_(l)
    n = I.seq_len_term(s)
    m = z3.Const(I.ctx.fresh_name('m'), w.V)
    i, j = z3.Int(I.ctx.fresh_name('i')), z3.Int(I.ctx.fresh_name('j'))

    def at(x, k):
        return w.at(w.V.r(x), k)

    def size(x):
        return w.tlen(w.V.r(x))
    a, b = at(m, i), at(l, i)
    same = And(size(m) == n, z3.ForAll([i], Implies(And(0 <= i, i < n), And(
        size(a) == size(b), z3.ForAll([j], Implies(
            And(0 <= j, j < size(b)), at(a, j) == at(b, j)), patterns=[at(a, j)]))), patterns=[a]))
    I.ctx.assume(z3.ForAll([m], Implies(same, flat_(m) == t), patterns=[flat_(m)]))
    I.ctx.assume(w.is_tok(t, 'tuple'))
    return I.norm(SV(t))


def b_getattr(I, args, kwargs):
    only(args, 2, 3)
    name = I.norm(args[1])
    if not isinstance(name, str):
        raise Unsupported('getattr with a symbolic name')
    if len(args) == 3:
        return I.getattr(args[0], name, args[2])
    return I.getattr(args[0], name)


def b_hasattr(I, args, kwargs):
    only(args, 2)
    name = I.norm(args[1])
    if not isinstance(name, str):
        raise Unsupported('hasattr with a symbolic name')
    v = I.norm(I.force(args[0]))
    if isinstance(v, SV):
        def key(c, tok):
            if c is not None and c in I.u.ds_classes:
                if name in I.u.inst_attrs(c):
                    return True
                k, x = static_lookup(c, name)
                if k == 'property':
                    return ('p',)
                if k is None and I.u.set_later(name):
                    return ('l',)
                return k is not None and k != 'slot'
            if c is None:
                return ('u',)
            return hasattr(c, name)
        k = I.fork_class(v, key)
        if k is True or k is False:
            return k
        if k == ('l',):
            raise Unsupported('attribute %s, which is not set by constructors' % name)
        if k == ('u',):
            return SB(I.w.fn('hasattr_' + name, 'V', 'Bool')(v.t))
    try:
        I.getattr(v, name)
        return True
    except PyRaise as e:
        if e.cls is AttributeError:
            return False
        raise


def b_setattr(I, args, kwargs):
    name = I.norm(args[1])
    if not isinstance(name, str):
        raise Unsupported('setattr with a symbolic name')
    I.setattr(args[0], name, args[2])


def b_print(I, args, kwargs):
    return None


def b_callmap(I, args, kwargs):
    raise Unsupported('built-in')


def b_abs(I, args, kwargs):
    v = I.norm(I.force(args[0]))
    if isinstance(v, SI):
        return SI(simp(If(v.t >= 0, v.t, -v.t)))
    return I.call_native(abs, args, kwargs, None)


def b_slice(I, args, kwargs):
    if len(args) == 1:
        return SliceV(None, args[0], None)
    return SliceV(args[0], args[1], args[2] if len(args) > 2 else None)


def b_object(I, args, kwargs):
    return Obj(object)


# -------------------------------------------------------------------- methods
def l_append(v, I, args, kwargs):
    I.ctx.write(v.st, 'seq', v.st['seq'] + Seq.of([args[0]]))


def l_extend(v, I, args, kwargs):
    c = None
    I.ctx.write(v.st, 'seq', v.st['seq'] + I.to_seq(args[0]))


def l_index(v, I, args, kwargs):
    seq = v.seq if isinstance(v, Tup) else v.st['seq']
    x = args[0]
    c = seq.concrete()
    if c is not None:
        for i, y in enumerate(c):
            e = I.eq(y, x)
            if I.ctx.branch(e):
                return i
        raise PyRaise(ValueError, ('not in list',))
    n = I.seq_len_term(seq)
    k = first_index(I, seq, n, x)
    if k is None:
        raise PyRaise(ValueError, ('not in list',))
    return SI(k)


def first_index(I, seq, n, x):
    """The first position of x in a symbolic sequence, or None (forks)."""
    i = z3.Int(I.ctx.fresh_name('i'))
    xb = I.box(x)
    k = I.ctx.fresh('pos', z3.IntSort())
    here = And(0 <= k, k < n, I.w.E(I.seq_at_term(seq, k), xb), z3.ForAll(
        [i], Implies(And(0 <= i, i < k), Not(I.w.E(I.seq_at_term(seq, i), xb)))))
    none = z3.ForAll([i], Implies(And(0 <= i, i < n),
                                  Not(I.w.E(I.seq_at_term(seq, i), xb))))
    c = I.ctx.choose([('in', here), ('out', none)])
    return k if c == 'in' else None


def l_remove(v, I, args, kwargs):
    seq = v.st['seq']
    c = seq.concrete()
    if c is not None:
        for i, y in enumerate(c):
            if I.ctx.branch(I.eq(y, args[0])):
                I.ctx.write(v.st, 'seq', Seq.of(c[:i] + c[i + 1:]))
                return None
        raise PyRaise(ValueError, ('not in list',))
    # over-approximated: the item is found or not, and the list is then unknown
    if I.ctx.choose([('in', BoolVal(True)), ('out', BoolVal(True))]) == 'out':
        raise PyRaise(ValueError, ('not in list',))
    I.ctx.write(v.st, 'seq', unknown_seq(I))


def unknown_seq(I):
    n = I.ctx.fresh('n', z3.IntSort())
    I.ctx.assume(n >= 0)
    f = I.ctx.fresh_fn('item', z3.IntSort(), I.w.V)
    return Seq.sym(n, lambda i: I.norm(SV(f(i))))


def l_pop(v, I, args, kwargs):
    seq = v.st['seq']
    c = seq.concrete()
    if c is None or not I.is_conc(args[0] if args else -1):
        raise Unsupported('pop of a symbolic list')
    c = list(c)
    try:
        x = c.pop(*[I.conc(a) for a in args])
    except IndexError as e:
        raise PyRaise(IndexError, e.args)
    I.ctx.write(v.st, 'seq', Seq.of(c))
    return x


def l_insert(v, I, args, kwargs):
    c = v.st['seq'].concrete()
    i = I.norm(args[0])
    if c is not None and isinstance(i, int):
        c = list(c)
        c.insert(i, args[1])
        I.ctx.write(v.st, 'seq', Seq.of(c))
        return
    if i == 0 and type(i) is int:
        I.ctx.write(v.st, 'seq', Seq.of([args[1]]) + v.st['seq'])
        return
    raise Unsupported('insert')


def l_reverse(v, I, args, kwargs):
    s = b_reversed(I, [v], {}).seqf()
    I.ctx.write(v.st, 'seq', s)


def l_count(v, I, args, kwargs):
    seq = v.seq if isinstance(v, Tup) else v.st['seq']
    c = seq.concrete()
    if c is None:
        raise Unsupported('count')
    out = IntVal(0)
    for y in c:
        e = I.eq(y, args[0])
        e = BoolVal(e) if isinstance(e, bool) else e
        out = out + If(e, IntVal(1), IntVal(0))
    return I.norm(SI(simp(out)))


def l_copy(v, I, args, kwargs):
    return ListV(seq=v.st['seq'])


def s_add(v, I, args, kwargs):
    I.ctx.write(v.st, 'seq', v.st['seq'] + Seq.of([args[0]]))


def s_update(v, I, args, kwargs):
    for a in args:
        a = I.norm(I.force(a))
        s = a.st['seq'] if isinstance(a, SetV) else I.to_seq(a)
        I.ctx.write(v.st, 'seq', v.st['seq'] + s)


def s_union(v, I, args, kwargs):
    out = SetV(seq=v.st['seq'])
    s_update(out, I, args, kwargs)
    return out


def s_issubset(v, I, args, kwargs):
    c = v.st['seq'].concrete()
    if c is None:
        raise Unsupported('issubset')
    for x in c:
        if not I.test(contains(I, args[0], x)):
            return False
    return True


def d_lookup(I, items, key):
    """The value of the last item whose key equals, or None (forks)."""
    c = items.concrete()
    if c is not None:
        for kv in reversed(c):
            k, x = kv.seq.concrete() if isinstance(kv, Tup) else \
                (pair_part(I, kv, 0), pair_part(I, kv, 1))
            if I.ctx.branch(I.eq(k, key)):
                return (x,)
        return None
    n = I.seq_len_term(items)
    i = z3.Int(I.ctx.fresh_name('i'))
    kb = I.box(key)

    keys = dict_keys(I, DictV(items=items))

    def k_at(t):
        return I.seq_at_term(keys, t)
    k = I.ctx.fresh('pos', z3.IntSort())
    here = And(0 <= k, k < n, I.w.E(k_at(k), kb), z3.ForAll(
        [i], Implies(And(k < i, i < n), Not(I.w.E(k_at(i), kb)))))
    none = z3.ForAll([i], Implies(And(0 <= i, i < n), Not(I.w.E(k_at(i), kb))))
    if I.ctx.choose([('in', here), ('out', none)]) == 'in':
        return (pair_part(I, I.seq_item(items, k), 1),)
    return None


def d_get(v, I, args, kwargs):
    r = d_lookup(I, v.st['items'], args[0])
    if r is not None:
        return r[0]
    return args[1] if len(args) > 1 else None


def m_get(v, I, args, kwargs):
    if I.ctx.branch(I.map_has(v, args[0])):
        return I.map_get(v, args[0])
    return args[1] if len(args) > 1 else None


def m_setdefault(v, I, args, kwargs):
    if not I.ctx.branch(I.map_has(v, args[0])):
        maps.setitem(I, v, args[0], args[1] if len(args) > 1 else None)
    return I.map_get(v, args[0])


def m_iter(part):
    def f(v, I, args, kwargs):
        s = I.map_items(v, part)
        return IterV(lambda body: I.sym_for(s, body), lambda: s)
    return f


def d_items(v, I, args, kwargs):
    s = dedupe(I, v)
    return IterV(lambda body: I.sym_for(s, body), lambda: s)


def dedupe(I, v):
    items = v.st['items'].concrete()
    if items is None:
        d = distinct_items(I, dict_keys(I, v))
        if I.ctx.entails(d if not isinstance(d, bool) else BoolVal(d)):
            return v.st['items']
        raise Unsupported('items of a symbolic dict')
    out = []
    for kv in items:
        k, x = kv.seq.concrete()
        for j, o in enumerate(out):
            if I.ctx.branch(I.eq(o.seq.concrete()[0], k)):
                out[j] = Tup([o.seq.concrete()[0], x])
                break
        else:
            out.append(Tup([k, x]))
    return Seq.of(out)


def d_keys(v, I, args, kwargs):
    s = dedupe(I, v)
    c = s.concrete()
    k = Seq.of([x.seq.concrete()[0] for x in c]) if c is not None else dict_keys(I, v)
    return IterV(lambda body: I.sym_for(k, body), lambda: k)


def d_values(v, I, args, kwargs):
    s = dedupe(I, v)
    c = s.concrete()
    if c is not None:
        k = Seq.of([x.seq.concrete()[1] for x in c])
    else:
        k = Seq.sym(I.seq_len_term(s), lambda i: pair_part(I, I.seq_item(s, i), 1))
    return IterV(lambda body: I.sym_for(k, body), lambda: k)


def d_update(v, I, args, kwargs):
    for a in args:
        o = b_dict(I, [a], {})
        I.ctx.write(v.st, 'items', v.st['items'] + o.st['items'])
    for k, x in kwargs.items():
        I.ctx.write(v.st, 'items', v.st['items'] + Seq.of([Tup([k, x])]))


def d_setdefault(v, I, args, kwargs):
    r = d_lookup(I, v.st['items'], args[0])
    if r is not None:
        return r[0]
    x = args[1] if len(args) > 1 else None
    I.ctx.write(v.st, 'items', v.st['items'] + Seq.of([Tup([args[0], x])]))
    return x


def live_dict_get(I, d, key):
    """Lookup in a constant dictionary of the library, by a symbolic key."""
    key = I.norm(I.force(key))
    if I.is_conc(key):
        try:
            k = I.conc(key)
            return (I.wrap(d[k]),)
        except KeyError:
            return None
        except TypeError as e:
            raise PyRaise(TypeError, e.args)
    opts = {}
    for k, x in d.items():
        e = I.eq(I.wrap(k), key)
        e = BoolVal(e) if isinstance(e, bool) else e
        opts.setdefault(id(x), (x, []))[1].append(e)
    allc = [c for _, cs in opts.values() for c in cs]
    cond = {i: Or(*cs) if len(cs) > 1 else cs[0] for i, (x, cs) in opts.items()}
    options = [(i, cond[i]) for i in opts] + [('none', And(*[Not(c) for c in allc])
                                               if allc else BoolVal(True))]
    r = I.ctx.choose(options)
    if r == 'none':
        return None
    return (I.wrap(opts[r][0]),)


def live_d_get(v, I, args, kwargs):
    r = live_dict_get(I, v, args[0])
    if r is not None:
        return r[0]
    return args[1] if len(args) > 1 else None


def live_d_items(v, I, args, kwargs):
    s = Seq.of([Tup([I.wrap(k), I.wrap(x)]) for k, x in v.items()])
    return IterV(lambda body: I.sym_for(s, body), lambda: s)


def str_join(v, I, args, kwargs):
    if I.is_conc(v):
        s = lazy_seq(I, args[0])
        c = s.concrete()
        if c is not None and all(type(x) is str for x in c):
            return v.join(c)
    return Opaque('join')


def str_format(v, I, args, kwargs):
    try:
        return v.format(*[I.conc(a) for a in args], **{k: I.conc(x) for k, x in kwargs.items()})
    except KeyError:
        fields = list(string.Formatter().parse(v)) if type(v) is str else []
        if fields and not any(spec or conv for _, _, spec, conv in fields):
            pieces, vals = [], []
            for lit, name, _, _ in fields:
                pieces.append(lit)
                if name is not None:
                    x = args[len(vals)] if name == '' else args[int(name)] if name.isdigit() \
                        else kwargs.get(name)
                    if x is None:
                        return Opaque('format')
                    vals.append(x)
            return fmt_text(I, pieces + [''] * (len(vals) + 1 - len(pieces)), vals)
        return Opaque('format')


def str_opaque(v, I, args, kwargs):
    return Opaque('text')


def ss_isupper(v, I, args, kwargs):
    return SB(I.w.fn('str_isupper', 'Str', 'Bool')(v.t if isinstance(v, SS) else
                                                   I.w.str_lit(v)))


def ss_strip(v, I, args, kwargs):
    w = I.w
    if args:
        return Opaque('strip')
    return SS(w.fn('str_strip', 'Str', 'Str')(v.t))


def ss_endswith(v, I, args, kwargs):
    w = I.w
    suf = I.norm(args[0])
    if w.string_mode == 'seq' and isinstance(suf, str):
        return SB(z3.SuffixOf(z3.StringVal(suf), v.t))
    if isinstance(suf, str):
        return SB(w.fn('str_endswith', 'Str', 'Str', 'Bool')(v.t, w.str_lit(suf)))
    raise Unsupported('endswith')


def ss_startswith(v, I, args, kwargs):
    w = I.w
    p = I.norm(args[0])
    if w.string_mode == 'seq' and isinstance(p, str):
        return SB(z3.PrefixOf(z3.StringVal(p), v.t))
    if isinstance(p, str):
        return SB(w.fn('str_startswith', 'Str', 'Str', 'Bool')(v.t, w.str_lit(p)))
    raise Unsupported('startswith')


# Texts as sequences of characters (a character is a text).
def char_at(I, s, i):
    return I.w.fn('char', 'Str', 'Int', 'Str')(s, i)


def str_term(I, v):
    return v.t if isinstance(v, SS) else I.w.str_lit(v)


def an_int(I, x):
    x = I.norm(I.force(x))
    if isinstance(x, SV) and I.class_of(x) is None and I.ctx.entails(I.w.V.is_vi(x.t)):
        return simp(I.w.V.i(x.t))
    return I.int_term(x) if I.class_of(x) in (int, bool) else None


def clip(I, n, x, default):
    """A bound of a slice, as a position 0..n."""
    if x is None:
        return default
    x = an_int(I, x)
    if x is None:
        raise Unsupported('bound of a text')
    x = simp(If(x < 0, If(x + n < 0, IntVal(0), x + n), If(x > n, n, x)))
    if z3.is_int_value(x):
        return x
    c = I.ctx.fresh('clip', z3.IntSort())
    I.ctx.assume(c == x)
    return c


def char_args(I, v, args, kwargs):
    """(text, character, from, to) of find and the like"""
    sub = I.norm(I.force(args[0])) if args else None
    if kwargs or I.w.string_mode != 'uf' or type(sub) is not str or len(sub) != 1:
        raise Unsupported('search in a text')
    t = str_term(I, v)
    n = I.w.slen(t)
    I.ctx.assume(n >= 0)
    a = clip(I, n, args[1] if len(args) > 1 else None, IntVal(0))
    b = clip(I, n, args[2] if len(args) > 2 else None, n)
    return t, I.w.str_lit(sub), a, b


def ss_find(last, must):
    def f(v, I, args, kwargs):
        t, c, a, b = char_args(I, v, args, kwargs)
        r = I.ctx.fresh('found', z3.IntSort())
        i = z3.Int(I.ctx.fresh_name('i'))

        def free(lo, hi):
            return z3.ForAll([i], Implies(And(lo <= i, i < hi), char_at(I, t, i) != c),
                             patterns=[char_at(I, t, i)])
        here = And(a <= r, r < b, char_at(I, t, r) == c, free(r + 1, b) if last else free(a, r))
        if I.ctx.choose([('in', here), ('out', And(r == -1, free(a, b)))]) == 'in':
            return SI(r)
        if must:
            raise PyRaise(ValueError, ('substring not found',))
        return -1
    return f


def ss_count(v, I, args, kwargs):
    t, c, a, b = char_args(I, v, args, kwargs)
    r = I.w.fn('str_count', 'Str', 'Str', 'Int', 'Int', 'Int')(t, c, a, b)
    I.ctx.assume(r >= 0)
    return SI(r)


def str_chars(I, v):
    t = str_term(I, v)
    n = I.w.slen(t)
    I.ctx.assume(n >= 0)
    return Seq.sym(n, lambda i: SS(char_at(I, t, i if z3.is_expr(i) else IntVal(i))))


def text(I, v):
    v = I.norm(I.force(v))
    if isinstance(v, SV) and I.ctx.entails(I.w.V.is_vs(v.t)):
        return SS(simp(I.w.V.s(v.t)))
    return v


def kw_iskeyword(I, args, kwargs):
    v = text(I, args[0])
    if type(v) is str:
        return keyword.iskeyword(v)
    if I.w.string_mode == 'seq' and isinstance(v, SS):
        return SB(Or(*[v.t == I.w.str_lit(k) for k in keyword.kwlist]))
    raise Unsupported('iskeyword')


def re_match(I, args, kwargs):
    """re.match of a constant pattern, as a test."""
    from . import strings
    p, v = I.norm(args[0]), text(I, args[1])
    if type(p) is not str or len(args) > 2 or kwargs:
        raise Unsupported('re.match')
    if type(v) is str:
        m = re.match(p, v)
        return Opaque('match') if m is not None else None
    if I.w.string_mode != 'seq' or not isinstance(v, SS):
        raise Unsupported('re.match')
    r, end = strings.match_lang(p)
    if not end:
        r = z3.Concat(r, strings.everything())
    if I.ctx.branch(z3.InRe(v.t, r)):
        return Opaque('match')
    return None


def rx_end(I, tree, text, pos):
    """Where the match of an expression at a position ends, -1 if there is none."""
    from . import strings
    return I.w.fn(strings.rx_name(tree), 'Str', 'Int', 'Int')(text, pos)


def pattern_match(p, I, args, kwargs):
    """match of a compiled pattern at a position of a text: an uninterpreted
    function of the pattern, the text and the position; the first of the
    alternatives that matches is taken."""
    from . import strings
    if kwargs or not 1 <= len(args) <= 2:
        raise Unsupported('pattern.match')
    v = text(I, args[0])
    if type(v) is str and (len(args) < 2 or type(args[1]) is int):
        m = p.match(v, *args[1:])
        return MatchV(v, IntVal(m.start()), IntVal(m.end()), m.lastindex) if m else None
    if I.w.string_mode != 'uf' or not isinstance(v, (SS, str)):
        raise Unsupported('pattern.match')
    t = str_term(I, v)
    n = I.w.slen(t)
    I.ctx.assume(n >= 0)
    pos = clip(I, n, args[1] if len(args) > 1 else None, IntVal(0))
    alts = strings.alternatives(p)
    if alts is None:
        if p.groups:
            raise Unsupported('groups of a pattern')
        alts, numbered = [strings.canonical(p.pattern, p.flags)], False
    else:
        numbered = True
    full = strings.rx_name(strings.canonical(p.pattern, p.flags)[0])
    group, last = [I.w.fn(full + x, 'Str', 'Int', 'Int') for x in ('_group', '')]
    if full not in I.w.globals:
        x, q = z3.Const(full + '_text', I.w.Str), z3.Int(full + '_pos')
        which, at = IntVal(0), IntVal(-1)
        ends = [I.w.fn(strings.rx_name(tree), 'Str', 'Int', 'Int')(x, q) for tree, least in alts]
        for k in reversed(range(len(ends))):
            which, at = If(ends[k] != -1, IntVal(k + 1), which), If(ends[k] != -1, ends[k], at)
        about = []
        for e, (tree, least) in zip(ends, alts):
            about.append(Implies(And(0 <= q, q <= I.w.slen(x)),
                                 Or(e == -1, And(q + least <= e, e <= I.w.slen(x)))))
            if not numbered and strings.always(p):
                about.append(e != -1)
        if numbered:
            about += [group(x, q) == which, last(x, q) == at]
        I.w.globals[full] = z3.ForAll([x, q], And(*about), patterns=[last(x, q)] + (
            [group(x, q)] if numbered else []))
    hit, end = group(t, pos), last(t, pos)
    if not I.ctx.branch(end != -1):
        return None
    return MatchV(v, pos, end, SI(hit) if numbered else None)


def slice_indices(v, I, args, kwargs):
    raise Unsupported('slice.indices')


# ------------------------------------------------------------------- operators
def contains(I, cont, x):
    """x in cont, as a bool or SB."""
    cont = I.norm(I.force(cont))
    if isinstance(cont, (Tup, ListV, SetV)):
        seq = cont.seq if isinstance(cont, Tup) else cont.st['seq']
        c = seq.concrete()
        if c is not None:
            out = []
            for y in c:
                e = I.same_key(y, x)
                if e is True:
                    return True
                if e is not False:
                    out.append(e)
            return SB(simp(Or(*out))) if out else False
        n = I.seq_len_term(seq)
        k = I.ctx.fresh('pos', z3.IntSort())
        i = z3.Int(I.ctx.fresh_name('i'))
        xb = I.box(x)
        here = And(0 <= k, k < n, I.w.E(I.seq_at_term(seq, k), xb))
        none = z3.ForAll([i], Implies(And(0 <= i, i < n),
                                      Not(I.w.E(I.seq_at_term(seq, i), xb))))
        return I.ctx.choose([('in', here), ('out', none)]) == 'in'
    if isinstance(cont, DictV):
        return d_lookup(I, cont.st['items'], x) is not None
    if isinstance(cont, MapV):
        return SB(I.map_has(cont, x))
    if isinstance(cont, MSet):
        return SB(maps.contains(I, cont, x))
    if isinstance(cont, IterV):
        def body(y):
            e = I.eq(y, x)
            if I.ctx.branch(e):
                raise FlowReturn(True)
        try:
            I.iterate(cont, body)
        except FlowReturn as e:
            return e.value
        return False
    if isinstance(cont, SV):
        def key(c, tok):
            if tok in ('tuple', 'list', 'str', 'dict'):
                return ('n', tok)
            if c is not None and c in I.u.ds_classes:
                k, f = static_lookup(c, '__contains__')
                if k:
                    return ('f', f)
                k, f = static_lookup(c, '__iter__')
                if k:
                    return ('i', 1)
                k, f = static_lookup(c, '__getitem__')
                if k:
                    return ('i', 1)
                return ('no', 1)
            if c is None or hasattr(c, '__contains__') or hasattr(c, '__iter__'):
                return ('unsup', tok)
            return ('no', 1)
        k = I.fork_class(cont, key)
        if k[0] == 'n' and k[1] != 'str':
            return contains(I, I.native_view(cont, k[1]), x)
        if k[0] == 'f':
            t = I.truth(I.call_function(k[1], [cont, x], {}))
            return t if isinstance(t, bool) else SB(t)
        if k[0] == 'i':
            return contains(I, IterV(lambda body: I.iterate(cont, body)), x)
        if k[0] == 'no':
            raise PyRaise(TypeError, ('not iterable',))
        raise Unsupported('in of a %s' % k[1])
    if isinstance(cont, Obj) or type(cont) in I.u.ds_classes:
        c = cont.cls if isinstance(cont, Obj) else type(cont)
        k, f = static_lookup(c, '__contains__')
        if k:
            t = I.truth(I.call_function(f, [cont, x], {}))
            return t if isinstance(t, bool) else SB(t)
        return contains(I, IterV(lambda body: I.iterate(cont, body)), x)
    if isinstance(cont, Val):
        raise Unsupported('in of %s' % type(cont).__name__)
    if isinstance(cont, str):
        if I.is_conc(x):
            x = I.conc(x)
            try:
                return x in cont
            except TypeError as e:
                raise PyRaise(TypeError, e.args)
        raise Unsupported('substring test')
    x = I.norm(I.force(x))
    if I.is_conc(x):
        try:
            return I.conc(x) in cont
        except TypeError as e:
            raise PyRaise(TypeError, e.args)
    if isinstance(cont, (set, frozenset, dict, list, tuple)) or \
            type(cont).__name__ in ('dict_keys',):
        if isinstance(cont, (set, frozenset, dict)):
            check_hashable(I, x)
        out = []
        items = list(cont)
        if isinstance(x, SCls) and all(isinstance(y, type) for y in items):
            ts = [x.t == I.w.ctok[I.u.tok[y]] for y in items if y in I.u.tok]
            return SB(simp(Or(*ts))) if ts else False
        for y in items:
            e = I.same_key(I.wrap(y), x)
            if e is True:
                return True
            if e is not False:
                out.append(e)
        return SB(simp(Or(*out))) if out else False
    raise Unsupported('in of a %s' % type(cont).__name__)


def check_hashable(I, x):
    """Lists and dicts raise TypeError when they are hashed."""
    x = I.norm(x)
    c = I.class_of(x)
    if c in (list, dict, set):
        raise PyRaise(TypeError, ('unhashable',))
    if c is None:
        if I.ctx.branch(I.w.is_any(x.t, ['list', 'dict', 'set'])):
            raise PyRaise(TypeError, ('unhashable',))


CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def compare(I, op, a, b):
    a, b = I.norm(I.force(a)), I.norm(I.force(b))
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = I.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = not r if isinstance(r, bool) else simp(Not(r))
        return r if isinstance(r, bool) else SB(r)
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = I.py_eq(a, b) if isinstance(op, ast.Eq) else I.py_ne(a, b)
        return r if isinstance(r, bool) else SB(simp(r))
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, b, a)
        if isinstance(op, ast.NotIn):
            if isinstance(r, bool):
                return not r
            return SB(simp(Not(r.t)))
        return r
    f = CMP[type(op)]
    ca, cb = I.class_of(a), I.class_of(b)
    if not isinstance(a, Val) and not isinstance(b, Val):
        try:
            return f(a, b)
        except TypeError as e:
            raise PyRaise(TypeError, e.args)
    for x, c in ((a, ca), (b, cb)):
        if c is None:
            def key(c, tok):
                if tok in ('int', 'bool'):
                    return ('n', tok)
                if tok in ('float', 'OTHER', 'str', 'complex', 'bytes', 'set', 'frozenset',
                           'timedelta', 'date', 'datetime', 'time', 'tuple', 'list'):
                    return ('unsup', tok)
                return ('no', 1)
            k = I.fork_class(x, key)
            if k[0] == 'no':
                raise PyRaise(TypeError, ('not orderable',))
            if k[0] == 'unsup':
                if (I.class_of(b) if x is a else I.class_of(a)) in (int, bool) and \
                        k[1] in ('str', 'tuple', 'list', 'bytes', 'set', 'frozenset', 'complex',
                                 'timedelta', 'date', 'datetime', 'time'):
                    raise PyRaise(TypeError, ('not orderable',))
                raise Unsupported('order of a %s' % k[1])
            v = I.native_view(x, k[1])
            if x is a:
                return compare(I, op, v, b)
            return compare(I, op, a, v)
    if ca in (int, bool) and cb in (int, bool):
        return SB(simp(f(I.int_term(a), I.int_term(b))))
    if {ca, cb} & {type(None), tuple, list, dict, set, type} and ca is not cb and \
            ca in (int, bool, str, type(None), tuple, list, dict, set, type) and \
            cb in (int, bool, str, type(None), tuple, list, dict, set, type):
        raise PyRaise(TypeError, ('not orderable',))
    if (ca in I.u.ds_classes or cb in I.u.ds_classes):
        raise PyRaise(TypeError, ('not orderable',))
    if {ca, cb} == {str, int}:
        raise PyRaise(TypeError, ('not orderable',))
    raise Unsupported('order of %s and %s' % (ca, cb))


RDUNDER = {ast.Add: ('__add__', '__radd__'), ast.Mult: ('__mul__', '__rmul__'),
           ast.BitOr: ('__or__', '__ror__'), ast.Sub: ('__sub__', '__rsub__'),
           ast.BitXor: ('__xor__', '__rxor__')}
PYOP = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Div: operator.truediv,
        ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.BitAnd: operator.and_,
        ast.Pow: operator.pow}


def binop(I, op, a, b):
    ca, cb = I.class_of(a), I.class_of(b)
    ds = I.u.ds_classes
    if isinstance(op, ast.Mod) and (ca is str):
        return fmt(I, a, b)
    if not isinstance(a, Val) and not isinstance(b, Val) and ca not in ds and cb not in ds:
        try:
            return I.wrap(PYOP[type(op)](a, b))
        except Exception as e:
            raise PyRaise(type(e), e.args)
    # operators of datashapes
    if ca in ds or cb in ds or ca is None or cb is None:
        return ds_binop(I, op, a, b)
    num = (int, bool)
    if ca in num and cb in num:
        x, y = I.int_term(a), I.int_term(b)
        if isinstance(op, ast.Add):
            return I.norm(SI(simp(x + y)))
        if isinstance(op, ast.Sub):
            return I.norm(SI(simp(x - y)))
        if isinstance(op, ast.Mult):
            return I.norm(SI(simp(x * y)))
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if I.ctx.branch(y == 0):
                raise PyRaise(ZeroDivisionError, ())
            if z3.is_int_value(y) and y.as_long() > 0:
                return SI(simp(x / y if isinstance(op, ast.FloorDiv) else x % y))
        if isinstance(op, ast.BitXor):
            return SI(I.w.fn('int_xor', 'Int', 'Int', 'Int')(x, y))
        raise Unsupported('arithmetic %s' % type(op).__name__)
    if isinstance(op, ast.Add):
        if ca is cb and ca in (tuple, list):
            s = I.as_seq(a) + I.as_seq(b)
            return Tup(s) if ca is tuple else ListV(seq=s)
        if ca is str and cb is str:
            if I.w.string_mode == 'seq' and not isinstance(a, Opaque) and \
                    not isinstance(b, Opaque):
                w = I.w
                return SS(simp(z3.Concat(w.V.s(I.box(a)), w.V.s(I.box(b)))))
            return fmt_text(I, ['', '', ''], [a, b])
    if ca is set and cb is set and isinstance(a, MSet) and isinstance(b, MSet):
        for k, n in ((ast.BitOr, 'union'), (ast.Sub, 'difference'), (ast.BitAnd, 'intersection')):
            if isinstance(op, k):
                return maps.op(n)(a, I, [b], {})
    if isinstance(op, ast.BitOr) and ca is set and cb is set:
        sa = a.st['seq'] if isinstance(a, SetV) else Seq.of([I.wrap(x) for x in a])
        sb = b.st['seq'] if isinstance(b, SetV) else Seq.of([I.wrap(x) for x in b])
        return SetV(seq=sa + sb)
    if isinstance(op, ast.Mult) and ca is str and cb in (int, bool) and I.w.string_mode == 'uf':
        return SS(I.w.fn('str_repeat', 'Str', 'Int', 'Str')(str_term(I, a), I.int_term(b))) \
            if isinstance(a, (str, SS)) else Opaque('repeat')
    if isinstance(op, ast.Mult) and ca in (list, tuple) and cb is int and isinstance(b, int):
        c = I.as_seq(a).concrete()
        if c is not None:
            return ListV(seq=Seq.of(c * b)) if ca is list else Tup(c * b)
    if isinstance(op, ast.Mult) and ca in (list, tuple) and cb in (int, bool):
        c = I.as_seq(a).concrete()
        if c is not None and len(c) == 1:
            n = I.int_term(b)
            x = c[0]
            m = simp(If(n > 0, n, IntVal(0)))
            if I.ctx.entails(n >= 0):
                m = n
            s = Seq.sym(m, lambda i: x)
            return ListV(seq=s) if ca is list else Tup(s)
    simple = (int, bool, str, type(None), tuple, list, dict, set, type, slice,
              types.FunctionType)
    if ca in simple and cb in simple and not (
            isinstance(op, ast.Mult) and (ca in (int, bool) or cb in (int, bool))):
        raise PyRaise(TypeError, ('unsupported operand',))
    raise Unsupported('%s of %s and %s' % (type(op).__name__, ca, cb))


def ds_binop(I, op, a, b):
    """Operand classes decide between __op__ of the left and __rop__ of the
    right operand, as CPython does."""
    names = RDUNDER.get(type(op))
    if names is None:
        names = ('__none__', '__none__')
    ds = I.u.ds_classes

    def side(v, name):
        c = I.class_of(v)
        if c is not None:
            if c in ds:
                k, f = static_lookup(c, name)
                return ('f', f) if k else ('ds',)
            return ('n',)

        def key(c, tok):
            if c is not None and c in ds:
                k, f = static_lookup(c, name)
                return ('f', f) if k else ('ds',)
            if tok in ('NoneType', 'bool', 'int', 'str', 'type', 'tuple', 'list', 'dict',
                       'slice'):
                return ('p', tok)
            return ('unsup', tok)
        return I.fork_class(v, key)
    ka = side(a, names[0])
    if ka[0] == 'unsup':
        raise Unsupported('operator on a %s' % ka[1])
    if ka[0] == 'p':
        a = I.native_view(a, ka[1])
        return I.binop(op, a, b)
    if ka[0] == 'f':
        # a subclass on the right goes first
        cb = I.class_of(b)
        ca = I.class_of(a)
        r = I.call_function(ka[1], [a, b], {})
        return r
    kb = side(b, names[1])
    if kb[0] == 'unsup':
        raise Unsupported('operator on a %s' % kb[1])
    if kb[0] == 'p':
        b = I.native_view(b, kb[1])
        if ka[0] == 'n':
            return I.binop(op, a, b)
        raise PyRaise(TypeError, ('unsupported operand',))
    if kb[0] == 'f':
        return I.call_function(kb[1], [b, a], {})
    raise PyRaise(TypeError, ('unsupported operand',))


def fmt(I, a, b):
    """'...' % args: the text is opaque; the arguments must fit."""
    items = None
    if isinstance(b, Tup):
        items = b.seq.concrete()
        if items is None:
            return Opaque('%')
    else:
        items = [b]
    if isinstance(a, str):
        import re
        specs = re.findall(r'%(?:\([^)]*\))?[-#0 +]*\d*(?:\.\d+)?([a-zA-Z%])', a)
        specs = [s for s in specs if s != '%']
        if len(specs) != len(items) and not isinstance(b, DictV):
            cb = I.class_of(b)
            if cb is None and len(specs) == 1:
                if I.ctx.branch(I.w.is_tok(b.t, 'tuple')):
                    raise Unsupported('%% of a tuple')
            else:
                raise PyRaise(TypeError, ('not all arguments converted',))
        elif len(specs) == 1 and not isinstance(b, Tup):
            cb = I.class_of(b)
            if cb is None:
                t = I.w.is_tok(b.t, 'tuple')
                if not I.ctx.entails(Not(t)):
                    if I.ctx.branch(t):
                        n = I.w.tlen(I.w.V.r(b.t))
                        if I.ctx.branch(n == 1):
                            return Opaque('%')
                        raise PyRaise(TypeError, ('format',))
            if isinstance(b, tuple):
                raise Unsupported('%% of a live tuple')
        for s, x in zip(specs, items):
            if s in 'dioxXu':
                x = I.norm(I.force(x))
                c = I.class_of(x)
                if c is None:
                    if not I.ctx.branch(I.w.is_any(x.t, ['int', 'bool'])):
                        if I.ctx.branch(I.isinst_term(x.t, [float] + I.index_classes())):
                            continue
                        raise PyRaise(TypeError, ('%d format',))
                elif c not in (int, bool, float) and not (
                        c in I.u.ds_classes and static_lookup(c, '__index__')[0]):
                    raise PyRaise(TypeError, ('%d format: a number is required',))
        try:
            return a % (tuple(I.conc(x) for x in items) if isinstance(b, Tup) else I.conc(b))
        except (KeyError, TypeError):
            pass
        plain = re.findall(r'%[sdi]', a)
        if len(plain) == len(specs) == len(items) and a.count('%') == len(plain):
            return fmt_text(I, re.split(r'%[sdi]', a), items)
    return Opaque('%')


def fmt_text(I, pieces, args):
    """The text pieces[0] str(args[0]) pieces[1] ...: it depends on the
    arguments only."""
    args = [I.norm(I.force(x)) for x in args]
    if I.w.string_mode != 'uf' or not all(
            isinstance(x, (SI, SS, SV)) or type(x) in (int, str) for x in args):
        return Opaque('text')
    pieces, out = list(pieces), []
    joined, k = pieces[0], 0
    for x, p in zip(args, pieces[1:]):
        if type(x) in (int, str):
            joined += str(x) + p
        else:
            joined += '{}' + p
            out.append(I.box(x))
    if not out:
        return joined
    return SS(I.w.fn('text:' + joined, *(['V'] * len(out) + ['Str']))(*out))


def table_entry(I, o, t):
    """An entry of a live table: a path for each kind of entry (its length and
    the functions in it), the other things in it depend on the index."""
    n = len(o)
    groups = {}
    for i, x in enumerate(o):
        if type(x) is tuple and not any(isinstance(y, (list, tuple, dict)) for y in x):
            key = (len(x),) + tuple((j, id(y)) for j, y in enumerate(x) if callable(y))
        else:
            key = (id(x), i)
        groups.setdefault(key, []).append(i)
    for g in groups.values():
        here = Or(*[Or(t == i, t == i - n) for i in g])
        if not I.ctx.branch(here):
            continue
        x = o[g[0]]
        if len(g) == 1:
            return I.wrap(x)
        out = []
        for j in range(len(x)):
            if all(o[i][j] is x[j] for i in g):
                out.append(I.wrap(x[j]))
                continue
            v = I.box(I.wrap(o[g[-1]][j]))
            for i in reversed(g[:-1]):
                v = If(Or(t == i, t == i - n), I.box(I.wrap(o[i][j])), v)
            c = I.ctx.fresh('entry', I.w.V)
            I.ctx.assume(c == v)
            out.append(I.norm(SV(c)))
        return Tup(out)
    raise PyRaise(IndexError, ('index out of range',))


def getitem(I, o, k):
    o, k = I.norm(I.force(o)), I.norm(I.force(k))
    if isinstance(o, (list, tuple)) and 0 < len(o) <= 40 and isinstance(k, SI) and any(
            isinstance(x, (list, tuple, dict)) or callable(x) for x in o):
        return table_entry(I, o, k.t)
    if isinstance(o, (Tup, ListV)):
        seq = I.as_seq(o)
        return seq_getitem(I, seq, k, tuple if isinstance(o, Tup) else list)
    if isinstance(o, DictV):
        r = d_lookup(I, o.st['items'], k)
        if r is None:
            raise PyRaise(KeyError, (k,))
        return r[0]
    if isinstance(o, MapV):
        if not I.ctx.branch(I.map_has(o, k)):
            raise PyRaise(KeyError, (k,))
        return I.map_get(o, k)
    if isinstance(o, SV):
        def key(c, tok):
            if tok in ('tuple', 'list', 'str', 'dict'):
                return ('n', tok)
            if c is not None and c in I.u.ds_classes:
                kk, f = static_lookup(c, '__getitem__')
                return ('f', f) if kk else ('no',)
            if c is None or hasattr(c, '__getitem__') or tok == 'type':
                return ('unsup', tok)
            return ('no',)
        kind = I.fork_class(o, key)
        if kind[0] == 'n':
            return getitem(I, I.native_view(o, kind[1]), k)
        if kind[0] == 'f':
            return I.call_function(kind[1], [o, k], {})
        if kind[0] == 'no':
            raise PyRaise(TypeError, ('not subscriptable',))
        raise Unsupported('item of a %s' % kind[1])
    if isinstance(o, IterV) and o.seqf is not None:
        return seq_getitem(I, o.seqf(), k, range)
    if isinstance(o, Obj) or type(o) in I.u.ds_classes:
        c = o.cls if isinstance(o, Obj) else type(o)
        kk, f = static_lookup(c, '__getitem__')
        if not kk:
            raise PyRaise(TypeError, ('not subscriptable',))
        return I.call_function(f, [o, k], {})
    if isinstance(o, SS) or isinstance(o, str) and isinstance(k, Val):
        return str_getitem(I, o, k)
    if isinstance(o, Opaque):
        return Opaque('item')
    if isinstance(o, Val):
        if isinstance(o, (SI, SB)):
            raise PyRaise(TypeError, ('not subscriptable',))
        raise Unsupported('item of %s' % type(o).__name__)
    if isinstance(o, dict):
        r = live_dict_get(I, o, k)
        if r is None:
            raise PyRaise(KeyError, (k,))
        return r[0]
    if type(o) in (list, tuple):
        return seq_getitem(I, Seq.of([I.wrap(x) for x in o]), k, type(o))
    if isinstance(o, type):
        raise Unsupported('subscript of a class')
    try:
        return I.wrap(o[I.conc(k)])
    except KeyError:
        raise Unsupported('item of a live object')
    except (TypeError, IndexError) as e:
        raise PyRaise(type(e), e.args)


MATCH = {
    'end': lambda v, I, args, kwargs: SI(v.end), 'start': lambda v, I, args, kwargs: SI(v.start),
    'span': lambda v, I, args, kwargs: Tup([SI(v.start), SI(v.end)]),
    'group': lambda v, I, args, kwargs: str_getitem(I, v.text, SliceV(SI(v.start), SI(v.end), None))}


def str_getitem(I, o, k):
    w = I.w
    if w.string_mode == 'seq':
        t = o.t if isinstance(o, SS) else w.str_lit(o)
        if isinstance(k, SliceV):
            a, b, s = [I.norm(I.force(x)) for x in (k.start, k.stop, k.step)]
            if s is None and (a is None or a == 0) and type(b) is int:
                n = z3.Length(t)
                if b >= 0:
                    return SS(simp(z3.SubString(t, 0, IntVal(b))))
                return SS(simp(If(n + b > 0, z3.SubString(t, 0, n + b), z3.StringVal(''))))
            if s is None and b is None and type(a) is int and a >= 0:
                n = z3.Length(t)
                return SS(simp(z3.SubString(t, a, n)))
        raise Unsupported('string index')
    if isinstance(k, SliceV) and isinstance(o, SS):
        a, b, s = [I.norm(I.force(x)) for x in (k.start, k.stop, k.step)]
        if all(x is None or type(x) is int for x in (a, b, s)):
            name = 'str_slice_%s_%s_%s' % (a, b, s)
            return SS(w.fn(name.replace('-', 'm'), 'Str', 'Str')(o.t))
        if s is None:
            t = o.t
            n = w.slen(t)
            I.ctx.assume(n >= 0)
            a, b = clip(I, n, a, IntVal(0)), clip(I, n, b, n)
            r = I.ctx.fresh('sub', w.Str)
            I.ctx.assume(r == w.fn('str_sub', 'Str', 'Int', 'Int', 'Str')(t, a, b))
            i = z3.Int(I.ctx.fresh_name('i'))
            I.ctx.assume(w.slen(r) == If(b > a, b - a, IntVal(0)))
            I.ctx.assume(z3.ForAll([i], Implies(And(0 <= i, i < b - a), char_at(
                I, r, i) == char_at(I, t, a + i)), patterns=[char_at(I, r, i)]))
            return SS(r)
    elif w.string_mode == 'uf' and I.class_of(k) in (int, bool):
        t = str_term(I, o)
        n, x = w.slen(t), I.int_term(k)
        I.ctx.assume(n >= 0)
        if not I.ctx.branch(And(-n <= x, x < n)):
            raise PyRaise(IndexError, ('string index out of range',))
        return SS(char_at(I, t, simp(If(x < 0, x + n, x))))
    raise Unsupported('string index')


def seq_getitem(I, seq, k, kind):
    if isinstance(k, SliceV):
        s = I.seq_slice(seq, k)
        if kind is tuple:
            return Tup(s)
        if kind is list:
            return ListV(seq=s)
        return IterV(lambda body: I.sym_for(s, body), lambda: s)
    c = I.class_of(k)
    if c is None:
        def key(c, tok):
            if tok in ('int', 'bool', 'slice'):
                return ('n', tok)
            if c is not None and c in I.u.ds_classes:
                return ('f', 1) if static_lookup(c, '__index__')[0] else ('no', 1)
            if tok == 'OTHER':
                return ('unsup', tok)
            return ('no', 1)
        kk = I.fork_class(k, key)
        if kk[0] == 'n':
            return seq_getitem(I, seq, I.native_view(k, kk[1]), kind)
        if kk[0] == 'f':
            return seq_getitem(I, seq, to_int(I, k, ('__index__',)), kind)
        if kk[0] == 'no':
            raise PyRaise(TypeError, ('indices must be integers or slices',))
        k2 = to_int(I, k, ('__index__',))
        return seq_getitem(I, seq, k2, kind)
    if c in I.u.ds_classes:
        if not static_lookup(c, '__index__')[0]:
            raise PyRaise(TypeError, ('indices must be integers or slices',))
        return seq_getitem(I, seq, to_int(I, k, ('__index__',)), kind)
    if c not in (int, bool):
        raise PyRaise(TypeError, ('indices must be integers or slices',))
    return I.seq_index(seq, k, kind.__name__)


def o_methodcaller(I, args, kwargs):
    name = args[0]

    def f(I2, a, k):
        return I2.call(I2.getattr(a[0], name), list(args[1:]), kwargs)
    return Prim('methodcaller', f)


def b_super(I, args, kwargs):
    if len(args) == 2:
        return SuperV(args[0], args[1])
    raise Unsupported('super')


def b_partial(I, args, kwargs):
    f, rest = args[0], list(args[1:])

    def g(I2, a, k):
        kw = dict(kwargs)
        vs = k.pop('__varseq', None)
        kw.update(k)
        return I2.call(f, rest + list(a), kw, vs)
    return Prim('partial', g)


def b_next(I, args, kwargs):
    """The first item of an iterator made in place, or of a stream."""
    if isinstance(args[0], Obj) and 'next' in args[0].attrs and len(args) == 1:
        return I.call(args[0].attrs['next'], [], {})
    def body(x):
        raise FlowReturn(x)
    try:
        I.iterate(args[0], body)
    except FlowReturn as e:
        return e.value
    if len(args) > 1:
        return args[1]
    raise PyRaise(StopIteration, ())


def np_text(I, args, kwargs):
    return Opaque('numpy')


def b_attrgetter(I, args, kwargs):
    names = list(args)

    def f(I2, a, k):
        out = []
        for n in names:
            v = a[0]
            for p in n.split('.'):
                v = I2.getattr(v, p)
            out.append(v)
        return out[0] if len(out) == 1 else Tup(out)
    return Prim('attrgetter', f)


def b_itemgetter(I, args, kwargs):
    def f(I2, a, k):
        out = [I2.getitem(a[0], i) for i in args]
        return out[0] if len(out) == 1 else Tup(out)
    return Prim('itemgetter', f)


# ---------------------------------------------------------------------- numpy
def np_dtype(I, args, kwargs):
    """numpy.dtype: of something that is not known, an unknown data type or an
    error that depend on it only."""
    if len(args) == 1 and isinstance(args[0], ListV):
        return struct_dtype(I, I.box(args[0]))
    if set(kwargs) == {'metadata'}:
        kwargs = {}                     # (of no meaning to NumPy)
    if kwargs or len(args) != 1 or I.is_conc(args[0]) and not type(args[0]) is str:
        return I.call_native(numpy.dtype, args, kwargs, None)
    x = I.box(args[0])
    I.trusted.add('numpy.dtype')
    if I.ctx.entails(I.w.is_tok(x, 'dtype')):
        return args[0]
    if I.is_conc(args[0]):
        seen = I.ctx.__dict__.setdefault('dtypes', {})
        r = seen.get(args[0])
        if r is None:
            r = I.call_native(numpy.dtype, args, kwargs, None)
            I.ctx.write(seen, args[0], r)
        I.ctx.assume(And(I.w.fn('np_dtype_ok', 'V', 'Bool')(x),
                         I.w.fn('np_dtype', 'V', 'V')(x) == I.box(r)))
        return r
    if not I.ctx.branch(I.w.fn('np_dtype_ok', 'V', 'Bool')(x)):
        raise PyRaise(TypeError, ('data type not understood',))
    r = I.w.fn('np_dtype', 'V', 'V')(x)
    I.ctx.assume(I.w.is_tok(r, 'dtype'))
    return SV(r)


def struct_dtype(I, x):
    """numpy.dtype of a list of (name, data type, shape)"""
    w, V = I.w, I.w.V
    if not I.ctx.branch(w.fn('np_struct_ok', 'V', 'Bool')(x)):
        raise PyRaise(I.ctx.choose([(c, BoolVal(True)) for c in (TypeError, ValueError)]),
                      ('bad structured type',))
    d = I.ctx.fresh('dtype', w.Ref)
    att = lambda n, t: w.attr('dtype_' + n)(t)
    i, j = z3.Int(I.ctx.fresh_name('i')), z3.Int(I.ctx.fresh_name('j'))
    n = w.tlen(V.r(x))
    names, fields = V.r(att('names', d)), V.r(att('fields', d))
    item = lambda k: w.at(V.r(w.at(V.r(x), i)), IntVal(k))
    name = w.at(names, i)
    value = V.r(w.fn('dget', 'Ref', 'V', 'V')(fields, name))
    f = V.r(w.at(value, IntVal(0)))
    shape, given = V.r(att('shape', f)), V.r(item(2))
    I.ctx.assume(And(
        w.rcls(d) == w.ctok['dtype'], w.is_tok(att('names', d), 'tuple'),
        w.is_tok(att('fields', d), 'dict'), w.tlen(names) == n, z3.ForAll([i], Implies(
            And(0 <= i, i < n), And(
                name == item(0), w.fn('dhas', 'Ref', 'V', 'Bool')(fields, name),
                w.is_tok(w.at(value, IntVal(0)), 'dtype'),
                att('base', f) == item(1), w.is_tok(att('shape', f), 'tuple'),
                w.tlen(shape) == w.tlen(given), z3.ForAll([j], Implies(
                    And(0 <= j, j < w.tlen(shape)), w.at(shape, j) == w.at(given, j)),
                    patterns=[w.at(shape, j)]))), patterns=[name])))
    return SV(V.vr(d))


def np_issubdtype(I, args, kwargs):
    """(of data types and classes)"""
    only(args, 2)
    I.trusted.add('numpy.issubdtype')
    return SB(I.w.fn('np_issubdtype', 'V', 'V', 'Bool')(I.box(args[0]), I.box(args[1])))


def dtype_attr(I, v, name):
    """An attribute of a data type that is not known."""
    w, r = I.w, I.w.V.r(v.t)
    x = w.attr('dtype_' + name)(r)
    toks = {'name': ['str'], 'kind': ['str'], 'itemsize': ['int'], 'base': ['dtype'],
            'shape': ['tuple'], 'names': ['tuple', 'NoneType'],
            'fields': ['dict', 'NoneType']}.get(name)
    if toks is None:
        raise Unsupported('attribute %s of a data type' % name)
    I.trusted.add('numpy.dtype')
    I.ctx.assume(w.is_any(x, toks))
    if name == 'itemsize':
        I.ctx.assume(w.V.i(x) >= 0)
    return I.norm(SV(x))


def np_datetime_data(I, args, kwargs):
    only(args, 1)
    I.trusted.add('numpy.datetime_data')
    x = I.box(args[0])
    unit, n = w_unit(I, x), I.w.fn('np_unit_count', 'V', 'Int')(x)
    return Tup([SS(unit), SI(n)])


def w_unit(I, x):
    return I.w.fn('np_unit', 'V', 'Str')(x)


def np_result_type(I, args, kwargs):
    """(of two data types)"""
    only(args, 2)
    I.trusted.add('numpy.result_type')
    x, y = I.box(args[0]), I.box(args[1])
    if not I.ctx.branch(I.w.fn('np_promotable', 'V', 'V', 'Bool')(x, y)):
        raise PyRaise(TypeError, ('no common data type',))
    r = I.w.fn('np_result_type', 'V', 'V', 'V')(x, y)
    I.ctx.assume(I.w.is_tok(r, 'dtype'))
    return SV(r)


def install(I):
    M = {}
    for n, f in dict(append=l_append, extend=l_extend, index=l_index, remove=l_remove,
                     pop=l_pop, insert=l_insert, reverse=l_reverse, count=l_count,
                     copy=l_copy).items():
        M['ListV', n] = f
    M['Tup', 'index'] = l_index
    M['Tup', 'count'] = l_count
    for n, f in dict(add=s_add, update=s_update, union=s_union, issubset=s_issubset).items():
        M['SetV', n] = f
    for n, f in dict(get=d_get, items=d_items, keys=d_keys, values=d_values, update=d_update,
                     setdefault=d_setdefault).items():
        M['DictV', n] = f
    for n, f in maps.METHODS.items():
        M['MSet', n] = f
    for n, f in dict(get=m_get, setdefault=m_setdefault, items=m_iter(None), keys=m_iter(0),
                     values=m_iter(1)).items():
        M['MDict', n] = f
    for n, f in dict(get=m_get, items=m_iter(None), keys=m_iter(0), values=m_iter(1)).items():
        M['MapV', n] = f
    M['dict', 'get'] = live_d_get
    M['dict', 'items'] = live_d_items
    M['str', 'join'] = str_join
    M['str', 'format'] = str_format
    for t in ('Opaque', 'SS'):
        for n in ('lower', 'upper', 'replace', 'join', 'format', 'encode', 'decode', 'lstrip',
                  'rstrip', 'title'):
            M[t, n] = str_opaque
    M['Opaque', 'strip'] = str_opaque
    M['SS', 'find'], M['SS', 'rfind'] = ss_find(False, False), ss_find(True, False)
    M['SS', 'index'], M['SS', 'rindex'] = ss_find(False, True), ss_find(True, True)
    M['SS', 'count'] = ss_count
    M['SS', 'isupper'] = ss_isupper
    M['SS', 'strip'] = ss_strip
    M['SS', 'endswith'] = ss_endswith
    M['SS', 'startswith'] = ss_startswith

    def attr_slice(nm):
        return nm
    classes = {
        tuple: b_tuple, list: b_list, set: b_set, frozenset: b_set, dict: b_dict,
        collections.OrderedDict: b_dict, str: b_str, int: b_int, bool: b_bool, type: b_type,
        map: b_map, filter: b_filter, zip: b_zip, enumerate: b_enumerate, range: b_range,
        reversed: b_reversed, slice: b_slice, itertools.chain: b_chain, super: b_super,
        functools.partial: b_partial, operator.attrgetter: b_attrgetter,
        operator.itemgetter: b_itemgetter, numpy.dtype: np_dtype,
    }
    live = {
        len: b_len, isinstance: b_isinstance, issubclass: b_issubclass, repr: b_repr,
        hash: b_hash, iter: b_iter, all: b_all, any: b_any, sum: b_sum,
        max: b_minmax('max'), min: b_minmax('min'), sorted: b_sorted, next: b_next,
        getattr: b_getattr, hasattr: b_hasattr, setattr: b_setattr, print: b_print,
        callable: b_callable, abs: b_abs,
        operator.index: b_index, itertools.chain.from_iterable: b_chain_from,
        operator.mul: lambda I, a, k: I.binop(ast.Mult(), *a),
        operator.add: lambda I, a, k: I.binop(ast.Add(), *a),
        operator.methodcaller: o_methodcaller,
        keyword.iskeyword: kw_iskeyword, re.match: re_match,
        numpy.issubdtype: np_issubdtype, numpy.datetime_data: np_datetime_data,
        numpy.result_type: np_result_type,
        set.union: maps.family('union'), set.intersection: maps.family('intersection'),
    }
    names = {'super': Prim('super', b_super)}
    for f in live:
        pass
    return {'methods': M, 'live': live, 'classes': classes, 'names': names,
            'dtype': dtype_attr, 'text': fmt_text, 'binop': binop, 'compare': compare, 'getitem': getitem}
