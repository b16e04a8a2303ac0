"""Background axioms of every verification unit."""
import z3
from dv.smt import And, Or, Not, Implies, If, IntVal, BoolVal, simp
from dv.loops import quantify
from . import model
from datashape import coretypes as ct


class _FakeCtx:
    def __init__(self):
        self.n = 0

    def fresh_name(self, s):
        self.n += 1
        return 'ax_%s!%d' % (s, self.n)


class _FakeI:
    """Enough of an interpreter for the specification language."""

    def __init__(self, w, u):
        self.w, self.u = w, u
        self.ctx = _FakeCtx()
        self.opt = {}

    def isinst_term(self, t, classes):
        toks = []
        for c in classes:
            for k in self.u.subtoks(c):
                if k not in toks:
                    toks.append(k)
        return self.w.is_any(t, toks)

    def clsof_term(self, t):
        w, V = self.w, self.w.V
        return If(V.is_vr(t), w.rcls(V.r(t)),
                  If(V.is_vn(t), w.ctok['NoneType'],
                     If(V.is_vb(t), w.ctok['bool'],
                        If(V.is_vi(t), w.ctok['int'],
                           If(V.is_vs(t), w.ctok['str'], w.ctok['type'])))))

    def box(self, x):
        return self.w.lit(x)

    def wrap(self, x):
        return x


class Theory:
    def __init__(self, eq='basic', inv=True):
        self.eq, self.inv = eq, inv

    def __call__(self, w, u, opts):
        from dv.spec import Sym
        ax = []
        V = w.V
        I = _FakeI(w, u)
        S = Sym(I)
        r = z3.Const('ax_r', w.Ref)
        x, y, z = [z3.Const('ax_' + n, V) for n in 'xyz']
        ax.append(z3.ForAll([r], w.tlen(r) >= 0, patterns=[w.tlen(r)]))
        if opts.get('inv', self.inv):
            for c, (f, fields) in model.INV.items():
                if c not in u.tok:
                    continue
                body = f(S, V.vr(r))
                if body is True:
                    continue
                for a in fields:
                    ax.append(z3.ForAll([r], Implies(w.rcls(r) == w.ctok[u.tok[c]], body),
                                        patterns=[w.attr(a)(r)]))
        # ==
        E = w.E
        parts = opts.get('eq') == 'parts'
        if not parts:
            ax.append(z3.ForAll([x], E(x, x), patterns=[E(x, x)]))
        prim = lambda t: Or(V.is_vn(t), V.is_vs(t), V.is_vc(t))
        num = lambda t: Or(V.is_vi(t), V.is_vb(t))
        ival = lambda t: If(V.is_vi(t), V.i(t), If(V.b(t), IntVal(1), IntVal(0)))
        if opts.get('eq', self.eq) != 'none':
            ax.append(z3.ForAll([x, y], Implies(Or(prim(x), prim(y)), E(x, y) == (x == y)),
                                patterns=[E(x, y)]))
            ax.append(z3.ForAll([x, y], Implies(And(num(x), num(y)),
                                                E(x, y) == (ival(x) == ival(y))),
                                patterns=[E(x, y)]))
            if not parts:
                ax.append(z3.ForAll([x, y], E(x, y) == E(y, x), patterns=[E(x, y)]))
        if opts.get('eq') in ('seq', 'parts'):
            # tuples and lists are compared item by item
            q = z3.Const('ax_q', w.Ref)
            i = z3.Int('ax_i')
            for t, other in (('tuple', 'list'), ('list', 'tuple')):
                ct_ = w.ctok[t]
                ax.append(z3.ForAll([r, q], Implies(
                    And(w.rcls(r) == ct_, w.rcls(q) == ct_),
                    E(V.vr(r), V.vr(q)) == And(w.tlen(r) == w.tlen(q), z3.ForAll([i], Implies(
                        And(0 <= i, i < w.tlen(r)), E(w.at(r, i), w.at(q, i))),
                        patterns=[w.at(r, i), w.at(q, i)]))), patterns=[E(V.vr(r), V.vr(q))]))
                ax.append(z3.ForAll([r, y], Implies(
                    And(w.rcls(r) == ct_, Or(Not(V.is_vr(y)), And(
                        w.rcls(V.r(y)) != ct_, w.rcls(V.r(y)) != w.ctok['OTHER']))),
                    Not(E(V.vr(r), y))), patterns=[E(V.vr(r), y)]))
        if opts.get('dicts'):
            from dv.maps import axioms, holds_axioms
            ax.extend(axioms(w, opts))
            if opts.get('dicts') == 'holds':
                ax.extend(holds_axioms(w))
        if opts.get('hash'):
            # hash of a tuple: a function of the hashes of its items; of a
            # number: a function of its value
            H = w.H
            q = z3.Const('ax_q', w.Ref)
            i = z3.Int('ax_i')
            ax.append(z3.ForAll([r, q], Implies(
                And(w.rcls(r) == w.ctok['tuple'], w.rcls(q) == w.ctok['tuple'],
                    w.tlen(r) == w.tlen(q), z3.ForAll([i], Implies(
                        And(0 <= i, i < w.tlen(r)), H(w.at(r, i)) == H(w.at(q, i))),
                        patterns=[w.at(r, i), w.at(q, i)])),
                H(V.vr(r)) == H(V.vr(q))), patterns=[z3.MultiPattern(H(V.vr(r)), H(V.vr(q)))]))
            hint = w.fn('hash_int', 'Int', 'Int')
            ax.append(z3.ForAll([x], Implies(num(x), H(x) == hint(ival(x))), patterns=[H(x)]))
        return ax

    def class_inv(self, I, cls, t):
        if cls not in model.INV:
            return None
        from dv.spec import Sym
        return model.INV[cls][0](Sym(I), t)

    eq_hook = None
