"""Contracts of ==, != and hash (C01)."""
from datashape import coretypes as ct
from dv.contract import Contract
from .model import *
from .core import CT
from .search import parameters_are

ALL = PARAMS + tuple(SLOTS)
NOT_FIXED = tuple(c for c in ALL if c is not ct.Fixed)


def parameters_eq(S, x, y):
    """Equal parameters, for objects of the same class."""
    return S.And(
        S.Implies(S.cls_in(x, PARAMS), S.eq(params(S, x), params(S, y))),
        *[S.Implies(S.cls_is(x, c), S.And(*[S.eq(S.fld(x, n), S.fld(y, n)) for n in s]))
          for c, s in SLOTS.items() if s])


def eq_ds(S, x, y):
    """What == of the datashape x (but a fixed dimension) and y means."""
    return S.And(
        is_ds(S, y), ndim(S, x) == ndim(S, y),
        S.forall(0, ndim(S, x), lambda i: S.eq(dim(S, x, i), dim(S, y, i))),
        S.same_class(meas(S, x), meas(S, y)),
        parameters_eq(S, meas(S, x), meas(S, y)))


def eq_fixed(S, x, y):
    v = S.fld(x, 'val')
    return S.Or(S.And(S.cls_is(y, ct.Fixed), S.eq(v, S.fld(y, 'val'))),
                S.And(S.is_intlike(y), S.int(v) == S.intof(y)))


def eq_def(S, x, y):
    return S.If(S.cls_is(x, ct.Fixed), eq_fixed(S, x, y), eq_ds(S, x, y))


def c_eq():
    return Contract(
        CT + 'Mono.__eq__', self_classes=NOT_FIXED, returns='bool', opts={'eq': 'seq'},
        ensures=lambda S, a, r: [('same dimensions, same class and parameters of the measure',
                                  S.Iff(S.bool(r), eq_ds(S, a.self, a.other)))])


def c_eq_Fixed():
    return Contract(
        CT + 'Fixed.__eq__', self_classes=(ct.Fixed,), returns='bool',
        ensures=lambda S, a, r: [('the same size',
                                  S.Iff(S.bool(r), eq_fixed(S, a.self, a.other)))])


def c_ne():
    return Contract(
        CT + 'Mono.__ne__', self_classes=ALL, returns='bool',
        ensures=lambda S, a, r: [('the negation of ==',
                                  S.Iff(S.bool(r), S.Not(eq_def(S, a.self, a.other))))])



# -------------------------------------------------------------------- hashing
def hash_value(S, x):
    return S.fn(('hash_value', 'Int'), x)


def shape_tuple(S, x, s):
    return S.And(S.is_tuple(s), S.len(s) == ndim(S, x), S.forall(
        0, ndim(S, x), lambda i: S.same(S.at(s, i), dim(S, x, i))))


def info_tuple(S, x, t):
    return S.And(S.is_tuple(t), S.len(t) == 2, S.same(S.at(t, 0), S.clsof(meas(S, x))),
                 parameters_are(S, meas(S, x), S.at(t, 1)))


def hash_def(S, x):
    """hash_value(x) combines the hashes of the dimensions and of the class and
    parameters of the measure."""
    import z3
    if S.symbolic:
        w, V = S.w, S.V
        s, t = z3.Consts('hd_s hd_t', w.Ref)
        return z3.ForAll([s, t], z3.Implies(
            S.And(shape_tuple(S, x, V.vr(s)), info_tuple(S, x, V.vr(t))),
            hash_value(S, x) == w.fn('int_xor', 'Int', 'Int', 'Int')(w.H(V.vr(s)), w.H(V.vr(t)))),
            patterns=[z3.MultiPattern(w.H(V.vr(s)), w.H(V.vr(t)))])


def cached(I, x, v):
    from dv.spec import Sym
    S = Sym(I)
    return S.And(S.is_int(v), S.int(v) == hash_value(S, x))


def c_hash():
    return Contract(
        CT + 'Mono.__hash__', self_classes=NOT_FIXED, returns='int',
        opts={'hash': True, 'caches': {'_hash': cached}},
        facts=lambda S, a: [hash_def(S, a.self)],
        ensures=lambda S, a, r: [
            ('the hash of the dimensions, class and parameters',
             S.int(r) == hash_value(S, a.self))])


def c_hash_Fixed():
    return Contract(
        CT + 'Fixed.__hash__', self_classes=(ct.Fixed,), returns='int',
        ensures=lambda S, a, r: [
            ('the hash of the size', S.int(r) == S.hash(S.fld(a.self, 'val')))])


# ------------------------------------------------------------- consequences
def theory_of_parts(S, xs, prop):
    """Induction: prop holds for all values whose parts are smaller.  size is
    the number of objects below a value; a part is smaller than the whole."""
    import z3
    w, V = S.w, S.V
    size = w.fn('size', 'V', 'Int')
    r, i, v = z3.Const('tp_r', w.Ref), z3.Int('tp_i'), z3.Const('tp_v', V)
    S.assume(z3.ForAll([v], size(v) >= 0, patterns=[size(v)]))
    S.assume(z3.ForAll([r, i], z3.Implies(z3.And(0 <= i, i < w.tlen(r)),
                                          size(w.at(r, i)) < size(V.vr(r))),
                       patterns=[w.at(r, i)]))
    names = {'_parameters'} | {n for s in SLOTS.values() for n in s}
    for n in sorted(names):
        S.assume(z3.ForAll([r], size(w.attr(n)(r)) < size(V.vr(r)), patterns=[w.attr(n)(r)]))
    vs = [z3.Const('tp_%d' % k, V) for k in range(len(xs))]
    hyp, pat = prop(*vs)
    S.assume(z3.ForAll(vs, z3.Implies(sum(size(a) for a in vs) < sum(size(a) for a in xs), hyp),
                       patterns=pat))


def lemma(body, **kw):
    return Contract(CT + 'Mono.__eq__', lemma=body, opts=dict({'eq': 'parts'}, **kw))


def c_lemma_reflexive():
    def body(S):
        x = S.const('x')
        theory_of_parts(S, [x], lambda u: (S.eq(u, u), [S.eq(u, u)]))
        S.assume(is_ds(S, x))
        yield 'x == x', eq_def(S, x, x)
    return lemma(body)


def c_lemma_symmetric():
    def body(S):
        import z3
        x, y = S.const('x'), S.const('y')
        theory_of_parts(S, [x, y], lambda u, v: (S.eq(u, v) == S.eq(v, u), [S.eq(u, v)]))
        S.assume(is_ds(S, x))
        S.assume(is_ds(S, y))
        yield 'x == y exactly when y == x', eq_def(S, x, y) == eq_def(S, y, x)
    return lemma(body)


def c_lemma_transitive():
    def body(S):
        import z3
        x, y, z = S.const('x'), S.const('y'), S.const('z')
        theory_of_parts(S, [x, y, z], lambda u, v, t: (
            z3.Implies(z3.And(S.eq(u, v), S.eq(v, t)), S.eq(u, t)),
            [z3.MultiPattern(S.eq(u, v), S.eq(v, t))]))
        for v in (x, y, z):
            S.assume(is_ds(S, v))
        S.assume(eq_def(S, x, y))
        S.assume(eq_def(S, y, z))
        yield 'x == z', eq_def(S, x, z)
    return lemma(body)


def c_lemma_transitive_int():
    def body(S):
        x, y, z = S.const('x'), S.const('y'), S.const('z')
        S.assume(S.cls_is(x, ct.Fixed))
        S.assume(S.is_intlike(y))
        S.assume(S.cls_is(z, ct.Fixed))
        S.assume(eq_def(S, x, y))
        S.assume(eq_def(S, z, y))
        yield 'dimensions equal to the same integer are equal', eq_def(S, x, z)
    return lemma(body)


def c_lemma_hash():
    def body(S):
        import z3
        x, y = S.const('x'), S.const('y')
        theory_of_parts(S, [x, y], lambda u, v: (
            z3.Implies(S.eq(u, v), S.hash(u) == S.hash(v)), [S.eq(u, v)]))
        S.assume(S.cls_in(x, NOT_FIXED))
        S.assume(is_ds(S, y))
        S.assume(eq_def(S, x, y))
        for v, n in ((x, 'x'), (y, 'y')):
            s, t = S.V.vr(S.const('s' + n, 'Ref')), S.V.vr(S.const('t' + n, 'Ref'))
            S.assume(shape_tuple(S, v, s))
            S.assume(info_tuple(S, v, t))
            S.assume(hash_def(S, v))
            for k, u in enumerate((s, t, S.at(t, 0), S.at(t, 1))):
                S.assume(S.const('h%d%s' % (k, n), 'Int') == S.hash(u))
        for what, p in (('dimensions', 's'), ('class', 't0'), ('parameters', 't1'), ('info', 't')):
            u, v = [S.V.vr(S.const(p[0] + n, 'Ref')) for n in 'xy']
            if len(p) > 1:
                u, v = S.at(u, int(p[1])), S.at(v, int(p[1]))
            yield 'equal hashes of the ' + what, S.hash(u) == S.hash(v)
            S.assume(S.hash(u) == S.hash(v))
        yield 'equal hashes', hash_value(S, x) == hash_value(S, y)
    return lemma(body, hash=True)


def c_lemma_hash_Fixed():
    def body(S):
        x, y = S.const('x'), S.const('y')
        S.assume(S.cls_is(x, ct.Fixed))
        S.assume(eq_def(S, x, y))
        yield 'equal hashes', S.hash(S.fld(x, 'val')) == S.If(
            S.is_intlike(y), S.hash(y), S.hash(S.fld(y, 'val')))
    return lemma(body, hash=True)


PROP = 'C01'
CONTRACTS = [v for k, v in list(globals().items()) if k.startswith('c_')]
