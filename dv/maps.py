"""Dictionaries and sets that the code changes, with keys that are not known.

A state of one is a term r with dhas(r, k) and dget(r, k) for the keys k,
tlen(r) keys and dkey(r, i), dval(r, i) in the order of iteration.  Keys
compare with ==, which is taken to be an equivalence; key_of picks one of the
equal keys.  A change gives a new term, so that a loop that changes a
dictionary is a recurrence over such terms."""
import ast
import z3
from .smt import And, Or, Not, Implies, If, IntVal, BoolVal, simp
from .values import *
from .values import Store


class MDict(MapV):
    __slots__ = 'st', 'assigned'

    def __init__(self, I, t):
        self.st = Store(map=SV(t))
        self.assigned = 0

    @property
    def ref(self):
        return _ref(self.st['map'].t)


class MSet(Val):
    __slots__ = 'st',

    def __init__(self, I, t):
        self.st = Store(map=SV(t))

    @property
    def ref(self):
        return _ref(self.st['map'].t)


def _ref(t):
    if z3.is_app(t) and t.decl().name() == 'vr':
        return t.arg(0)
    return t.sort().accessor([t.sort().constructor(i).name() for i in range(
        t.sort().num_constructors())].index('vr'), 0)(t)


class View(Store):
    """The state of a list or set that is an item of a dictionary."""
    __slots__ = 'I', 'owner', 'key', 'kind', 'stamp'

    def current(self):
        if self.owner.assigned != self.stamp:
            raise Unsupported('an item of a dictionary that was replaced')
        I = self.I
        return I.w.fn('dget', 'Ref', 'V', 'V')(self.owner.ref, self.key)

    def __getitem__(self, k):
        t = self.current()
        return self.I.ref_seq(self.I.w.V.r(t)) if k == 'seq' else SV(t)

    def get(self, k, default=None):
        return self[k]

    def redirect(self, key, value):
        self.current()
        I = self.I
        t = I.w.V.vr(I.box_seq(value, 'list')) if key == 'seq' else I.box(value)
        put(I, self.owner, self.key, t)


def axioms(w, opts):
    V = w.V
    x, y = z3.Consts('kx ky', V)
    r, i = z3.Const('kr', w.Ref), z3.Int('ki')
    kc = w.fn('key_of', 'V', 'V')
    has, get = w.fn('dhas', 'Ref', 'V', 'Bool'), w.fn('dget', 'Ref', 'V', 'V')
    key, val = w.fn('dkey', 'Ref', 'Int', 'V'), w.fn('dval', 'Ref', 'Int', 'V')
    pos = w.fn('dpos', 'Ref', 'V', 'Int')
    k = kc(key(r, i))
    is_set = w.fn('is_set', 'Ref', 'Bool')
    links = [] if opts.get('keys_only') else [
        z3.ForAll([x, y], Implies(w.E(x, y), kc(x) == kc(y)), patterns=[w.E(x, y)]),
        z3.ForAll([x, y], Implies(kc(x) == kc(y), w.E(x, y)),
                  patterns=[z3.MultiPattern(kc(x), kc(y))])]
    return links + [
        z3.ForAll([r], Implies(is_set(r), w.rcls(r) == w.ctok['OTHER']), patterns=[is_set(r)]),
        z3.ForAll([x], kc(kc(x)) == kc(x), patterns=[kc(x)]),
        z3.ForAll([x], Implies(Or(V.is_vs(x), V.is_vi(x), V.is_vn(x)), kc(x) == x),
                  patterns=[kc(x)]),
        z3.ForAll([x], Implies(V.is_vb(x), kc(x) == V.vi(If(V.b(x), IntVal(1), IntVal(0)))),
                  patterns=[kc(x)]),
        z3.ForAll([r, i], Implies(And(is_map(w, r), 0 <= i, i < w.tlen(r)), And(
            has(r, k), get(r, k) == val(r, i), pos(r, k) == i)), patterns=[key(r, i)]),
        z3.ForAll([r, x], Implies(And(is_map(w, r), has(r, x)), And(
            0 <= pos(r, x), pos(r, x) < w.tlen(r), kc(key(r, pos(r, x))) == x)),
            patterns=[has(r, x)]),
    ]


def holds_axioms(w):
    """holds(r, k): an item of the tuple, list or set r has the key k, the
    first one at hpos(r, k)"""
    V = w.V
    x, r, i = z3.Const('hx', V), z3.Const('hr', w.Ref), z3.Int('hi')
    kc, holds = w.fn('key_of', 'V', 'V'), w.fn('holds', 'Ref', 'V', 'Bool')
    has, pos = w.fn('dhas', 'Ref', 'V', 'Bool'), w.fn('dpos', 'Ref', 'V', 'Int')
    hpos = w.fn('hpos', 'Ref', 'V', 'Int')
    is_set = w.fn('is_set', 'Ref', 'Bool')
    seq = Or(w.rcls(r) == w.ctok['tuple'], w.rcls(r) == w.ctok['list'])
    k = kc(w.at(r, i))
    same = Implies(is_set(r), And(holds(r, x) == has(r, x), hpos(r, x) == pos(r, x)))
    return [
        z3.ForAll([r, x], same, patterns=[holds(r, x)]),
        z3.ForAll([r, x], Implies(is_set(r), holds(r, x) == has(r, x)), patterns=[has(r, x)]),
        z3.ForAll([r, i], Implies(And(seq, 0 <= i, i < w.tlen(r)), And(
            holds(r, k), hpos(r, k) <= i)), patterns=[w.at(r, i)]),
        z3.ForAll([r, x], Implies(And(seq, holds(r, x)), And(
            0 <= hpos(r, x), hpos(r, x) < w.tlen(r), kc(w.at(r, hpos(r, x))) == x)),
            patterns=[holds(r, x)]),
    ]


def is_map(w, r):
    return Or(w.rcls(r) == w.ctok['dict'], w.fn('is_set', 'Ref', 'Bool')(r))


def key_of(I, k):
    return I.w.fn('key_of', 'V', 'V')(I.box(I.norm(I.force(k))))


def fresh(I, kind):
    w = I.w
    r = I.ctx.fresh('map', w.Ref)
    if kind == 'dict':
        I.ctx.assume(w.rcls(r) == w.ctok['dict'])
    else:
        I.ctx.assume(w.fn('is_set', 'Ref', 'Bool')(r))
        I.ctx.assume(w.rcls(r) == w.ctok['OTHER'])
    I.ctx.assume(w.tlen(r) >= 0)
    return r


def empty(I, kind):
    r = fresh(I, kind)
    x = z3.Const(I.ctx.fresh_name('x'), I.w.V)
    has = I.w.fn('dhas', 'Ref', 'V', 'Bool')
    I.ctx.assume(I.w.tlen(r) == 0)
    I.ctx.assume(z3.ForAll([x], Not(has(r, x)), patterns=[has(r, x)]))
    return (MDict if kind == 'dict' else MSet)(I, I.w.V.vr(r))


def describe(I, v, r):
    """The contents of a concrete dictionary or set."""
    w, A = I.w, I.ctx.assume
    A(w.tlen(r) == len(v))
    key, val = w.fn('dkey', 'Ref', 'Int', 'V'), w.fn('dval', 'Ref', 'Int', 'V')
    if isinstance(v, dict):
        for i, (k, x) in enumerate(v.items()):
            A(key(r, IntVal(i)) == I.box(I.wrap(k)))
            A(val(r, IntVal(i)) == I.box(I.wrap(x)))
        return
    has = w.fn('dhas', 'Ref', 'V', 'Bool')
    A(w.fn('is_set', 'Ref', 'Bool')(r))
    keys = [key_of(I, I.wrap(x)) for x in v]
    for k in keys:
        A(has(r, k))
    x = z3.Const(I.ctx.fresh_name('x'), w.V)
    A(z3.ForAll([x], has(r, x) == Or(*[x == k for k in keys]), patterns=[has(r, x)]))


def put(I, m, key, t):
    """m[key] = t, for a canonical key"""
    w = I.w
    old = m.ref
    r = fresh(I, 'dict' if isinstance(m, MDict) else 'set')
    x = z3.Const(I.ctx.fresh_name('x'), w.V)
    has, get = w.fn('dhas', 'Ref', 'V', 'Bool'), w.fn('dget', 'Ref', 'V', 'V')
    A = I.ctx.assume
    A(w.tlen(r) == w.tlen(old) + If(has(old, key), IntVal(0), IntVal(1)))
    A(has(r, key))
    A(z3.ForAll([x], has(r, x) == Or(x == key, has(old, x)), patterns=[has(r, x)]))
    A(z3.ForAll([x], Implies(has(old, x), has(r, x)), patterns=[has(old, x)]))
    if isinstance(m, MDict):
        A(get(r, key) == t)
        A(z3.ForAll([x], Implies(x != key, get(r, x) == get(old, x)), patterns=[get(r, x)]))
    I.ctx.write(m.st, 'map', SV(w.V.vr(r)))


def setitem(I, m, k, v):
    v = I.norm(I.force(v))
    t = I.box(v)
    if isinstance(v, ListV):
        # it must not be changed under its other name
        I.ctx.write(v.st, 'given away', True)
    put(I, m, key_of(I, k), t)
    m.assigned += 1


def getitem(I, m, key):
    """m[key], for a canonical key that is there"""
    w = I.w
    t = w.fn('dget', 'Ref', 'V', 'V')(m.ref, key)
    if isinstance(m, MDict):
        st = None
        if I.ctx.entails(w.is_tok(t, 'list')):
            st, out = View(), object.__new__(ListV)
            out.ref = None
        elif I.ctx.entails(And(w.V.is_vr(t), w.fn('is_set', 'Ref', 'Bool')(w.V.r(t)))):
            st, out = View(), object.__new__(MSet)
        if st is not None:
            st.I, st.owner, st.key = I, m, key
            st.stamp = m.assigned
            out.st = st
            return out
    return I.norm(SV(t))


# ------------------------------------------------------------------------ sets
def set_of(I, v):
    """set(v)"""
    v = I.norm(I.force(v))
    if isinstance(v, MSet):
        return MSet(I, v.st['map'].t)
    if isinstance(v, SV) and I.ctx.entails(And(I.w.V.is_vr(v.t), I.w.fn(
            'is_set', 'Ref', 'Bool')(I.w.V.r(v.t)))):
        return MSet(I, v.t)
    w = I.w
    if isinstance(v, SV) and I.opt.get('dicts') == 'holds' and I.ctx.entails(Or(
            w.is_tok(v.t, 'tuple'), w.is_tok(v.t, 'list'), And(w.V.is_vr(v.t), w.fn(
                'is_set', 'Ref', 'Bool')(w.V.r(v.t))))):
        # whatever it is, it has the same elements
        r, q = fresh(I, 'set'), w.V.r(v.t)
        has, holds = w.fn('dhas', 'Ref', 'V', 'Bool'), w.fn('holds', 'Ref', 'V', 'Bool')
        x = z3.Const(I.ctx.fresh_name('x'), w.V)
        A = I.ctx.assume
        A(z3.ForAll([x], has(r, x) == holds(q, x), patterns=[has(r, x)]))
        A(z3.ForAll([x], has(r, x) == holds(q, x), patterns=[holds(q, x)]))
        A(And(w.tlen(r) <= w.tlen(q), (w.tlen(r) > 0) == (w.tlen(q) > 0)))
        return MSet(I, w.V.vr(r))
    seq = I.to_seq(v)
    out = empty(I, 'set')
    c = seq.concrete()
    if c is not None:
        for x in c:
            put(I, out, key_of(I, x), None)
        return out
    r = fresh(I, 'set')
    has, kc = w.fn('dhas', 'Ref', 'V', 'Bool'), w.fn('key_of', 'V', 'V')
    src = I.ctx.fresh_fn('from', w.V, z3.IntSort())
    n = I.seq_len_term(seq)
    x, i = z3.Const(I.ctx.fresh_name('x'), w.V), z3.Int(I.ctx.fresh_name('i'))
    A = I.ctx.assume
    item = I.seq_at_term(seq, i)
    A(z3.ForAll([i], Implies(And(0 <= i, i < n), has(r, kc(item))), patterns=[kc(item)]
                if not z3.is_var(item) else []))
    A(z3.ForAll([x], Implies(has(r, x), And(0 <= src(x), src(x) < n, kc(
        I.seq_at_term(seq, src(x))) == x)), patterns=[has(r, x)]))
    A(Implies(n > 0, w.tlen(r) > 0))
    A(w.tlen(r) <= n)
    q = z3.Int(I.ctx.fresh_name('q'))
    it = I.seq_at_term(seq, q)
    if not z3.is_var(it) and any(z3.eq(c, q) for c in it.children()):
        A(z3.ForAll([q], Implies(And(w.tlen(r) == 1, 0 <= q, q < n), kc(it) == kc(
            I.seq_at_term(seq, IntVal(0)))), patterns=[it]))
    # two members are two items with different keys
    i, j = I.ctx.fresh('i', z3.IntSort()), I.ctx.fresh('j', z3.IntSort())
    A(Implies(w.tlen(r) > 1, And(0 <= i, i < n, 0 <= j, j < n, kc(
        I.seq_at_term(seq, i)) != kc(I.seq_at_term(seq, j)))))
    return MSet(I, w.V.vr(r))


def equal(I, a, b):
    """a == b for sets"""
    w = I.w
    has = w.fn('dhas', 'Ref', 'V', 'Bool')
    x = z3.Const(I.ctx.fresh_name('x'), w.V)
    e, d = I.ctx.fresh('same', z3.BoolSort()), I.ctx.fresh('differ', w.V)
    A = I.ctx.assume
    for m in (a.ref, b.ref):
        A(z3.ForAll([x], Implies(e, has(a.ref, x) == has(b.ref, x)), patterns=[has(m, x)]))
    A(Implies(Not(e), has(a.ref, d) != has(b.ref, d)))
    return e


def dict_of(I, seq):
    """dict(pairs), for pairs that are not known one by one; None when they may
    be something else"""
    w, V = I.w, I.w.V
    n = I.seq_len_term(seq)
    k, i = I.ctx.fresh('k', z3.IntSort()), z3.Int(I.ctx.fresh_name('i'))
    pair = lambda j: V.r(I.seq_at_term(seq, j))
    t = I.seq_at_term(seq, k)
    if not I.ctx.entails(Implies(And(0 <= k, k < n), And(Or(
            w.is_tok(t, 'tuple'), w.is_tok(t, 'list')), w.tlen(V.r(t)) == 2))):
        return None
    r = fresh(I, 'dict')
    has, get, kc = w.fn('dhas', 'Ref', 'V', 'Bool'), w.fn('dget', 'Ref', 'V', 'V'), \
        w.fn('key_of', 'V', 'V')
    x = z3.Const(I.ctx.fresh_name('x'), w.V)
    src = I.ctx.fresh_fn('from', w.V, z3.IntSort())
    A = I.ctx.assume
    name, value = (lambda j: w.at(pair(j), IntVal(0))), (lambda j: w.at(pair(j), IntVal(1)))
    # the last pair with the key counts
    it = I.seq_at_term(seq, i)
    A(z3.ForAll([i], Implies(And(0 <= i, i < n), And(
        has(r, kc(name(i))), i <= src(kc(name(i))))), patterns=[it]))
    A(z3.ForAll([x], Implies(has(r, x), And(
        0 <= src(x), src(x) < n, kc(name(src(x))) == x, get(r, x) == value(src(x)))),
        patterns=[has(r, x)]))
    A(And(w.tlen(r) <= n, Implies(n > 0, w.tlen(r) > 0)))
    return MDict(I, V.vr(r))


def combine(I, a, b, f):
    """The set of the x with f(x in a, x in b)."""
    w = I.w
    r = fresh(I, 'set')
    has = w.fn('dhas', 'Ref', 'V', 'Bool')
    x = z3.Const(I.ctx.fresh_name('x'), w.V)
    p, q = a.ref, b.ref
    body = has(r, x) == f(has(p, x), has(q, x))
    I.ctx.assume(z3.ForAll([x], body, patterns=[has(r, x)]))
    I.ctx.assume(z3.ForAll([x], body, patterns=[has(p, x)]))
    I.ctx.assume(z3.ForAll([x], body, patterns=[has(q, x)]))
    return MSet(I, w.V.vr(r))


OPS = {'union': Or, 'difference': lambda a, b: And(a, Not(b)), 'intersection': And}


def family(name):
    """set.union(*sets), set.intersection(*sets)"""
    def f(I, args, kwargs):
        vs = kwargs.pop('__varseq', None)
        if not I.opt.get('sets') or kwargs:
            raise Unsupported('set.%s' % name)
        seq = Seq.of(list(args))
        if vs is not None:
            seq = seq + vs
        w = I.w
        is_set = w.fn('is_set', 'Ref', 'Bool')
        ref = lambda i: _ref(I.seq_at_term(seq, i))
        c = seq.concrete()
        if c is not None:
            if not c:
                raise PyRaise(TypeError, ('needs an argument',))
            if not isinstance(I.norm(I.force(c[0])), MSet):
                raise Unsupported('set.%s' % name)
            return op(name)(I.norm(I.force(c[0])), I, c[1:], {})
        n = I.seq_len_term(seq)
        if not I.ctx.branch(n > 0):
            raise PyRaise(TypeError, ('needs an argument',))
        i = z3.Int(I.ctx.fresh_name('i'))
        k = I.ctx.fresh('k', z3.IntSort())
        if not I.ctx.entails(Implies(And(0 <= k, k < n), is_set(ref(k)))):
            raise Unsupported('set.%s of other things than sets' % name)
        r = fresh(I, 'set')
        has = w.fn('dhas', 'Ref', 'V', 'Bool')
        x = z3.Const(I.ctx.fresh_name('x'), w.V)
        src = I.ctx.fresh_fn('from', w.V, z3.IntSort())
        A = I.ctx.assume
        inside = And(0 <= i, i < n)
        if name == 'union':
            A(z3.ForAll([x, i], Implies(And(inside, has(ref(i), x)), has(r, x)),
                        patterns=[has(ref(i), x)]))
            A(z3.ForAll([x], Implies(has(r, x), And(0 <= src(x), src(x) < n, has(
                ref(src(x)), x))), patterns=[has(r, x)]))
        else:
            out = And(0 <= src(x), src(x) < n, Not(has(ref(src(x)), x)))
            A(z3.ForAll([x, i], Implies(inside, If(has(r, x), has(ref(i), x), out)),
                        patterns=[has(ref(i), x)]))
            z = ref(IntVal(0))
            A(z3.ForAll([x], Implies(has(r, x), has(z, x)), patterns=[has(r, x)]))
            A(z3.ForAll([x], Implies(Not(has(r, x)), And(0 <= src(x), src(x) < n, Not(has(
                ref(src(x)), x)))), patterns=[has(r, x)]))
        return MSet(I, w.V.vr(r))
    return f


INPLACE = {ast.BitOr: 'union', ast.Sub: 'difference', ast.BitAnd: 'intersection'}


def op(name):
    def f(v, I, args, kwargs):
        for a in args:
            v = combine(I, v, set_of(I, a), OPS[name])
        return v if args else MSet(I, v.st['map'].t)
    return f


def inplace(name):
    def f(v, I, args, kwargs):
        for a in args:
            I.ctx.write(v.st, 'map', combine(I, v, set_of(I, a), OPS[name]).st['map'])
    return f


def add(v, I, args, kwargs):
    put(I, v, key_of(I, args[0]), None)


def discard_(I, v, key):
    w = I.w
    old = v.ref
    r = fresh(I, 'set')
    has = w.fn('dhas', 'Ref', 'V', 'Bool')
    x = z3.Const(I.ctx.fresh_name('x'), w.V)
    body = has(r, x) == And(x != key, has(old, x))
    I.ctx.assume(w.tlen(r) == w.tlen(old) - If(has(old, key), IntVal(1), IntVal(0)))
    I.ctx.assume(z3.ForAll([x], body, patterns=[has(r, x)]))
    I.ctx.assume(z3.ForAll([x], body, patterns=[has(old, x)]))
    I.ctx.write(v.st, 'map', SV(w.V.vr(r)))


def remove(must):
    def f(v, I, args, kwargs):
        k = key_of(I, args[0])
        if must and not I.ctx.branch(I.w.fn('dhas', 'Ref', 'V', 'Bool')(v.ref, k)):
            raise PyRaise(KeyError, (args[0],))
        discard_(I, v, k)
    return f


def pop(v, I, args, kwargs):
    w = I.w
    if args:
        raise Unsupported('pop')
    if not I.ctx.branch(w.tlen(v.ref) > 0):
        raise PyRaise(KeyError, ('pop from an empty set',))
    x = w.fn('dkey', 'Ref', 'Int', 'V')(v.ref, IntVal(0))
    I.ctx.assume(w.fn('dhas', 'Ref', 'V', 'Bool')(v.ref, w.fn('key_of', 'V', 'V')(x)))
    discard_(I, v, w.fn('key_of', 'V', 'V')(x))
    return I.norm(SV(x))


def contains(I, v, x):
    return I.w.fn('dhas', 'Ref', 'V', 'Bool')(v.ref, key_of(I, x))


def items(I, v):
    """The elements of a set, or the keys of a dictionary, in some order."""
    r = v.ref
    key = I.w.fn('dkey', 'Ref', 'Int', 'V')
    n = I.w.tlen(r)
    I.ctx.assume(n >= 0)
    return Seq.sym(n, lambda i: I.norm(SV(key(r, i))))


METHODS = {
    'union': op('union'), 'difference': op('difference'), 'intersection': op('intersection'),
    'update': inplace('union'), 'difference_update': inplace('difference'),
    'intersection_update': inplace('intersection'), 'add': add, 'remove': remove(True),
    'discard': remove(False), 'pop': pop,
    'copy': lambda v, I, a, k: MSet(I, v.st['map'].t),
}
