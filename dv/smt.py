"""Sorts, uninterpreted functions and axioms of the verification conditions.

V is the universe of Python values: None, booleans, (mathematical) integers,
strings, class objects, and references to everything else.  A reference has a
class (`rcls`), and if it is a sequence a length (`tlen`) and items (`at`);
the instance attribute `a` of a reference is the function `attr('a')`.
"""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from z3 import (And, Or, Not, Implies, If, ForAll, Exists, BoolVal, IntVal,
                Int, Const, Function, IntSort, BoolSort, is_true, is_false)

z3.set_param('smt.random_seed', 1)


class World:
    """One per verification unit: sorts are created in a private context-free
    way (z3's main context), names carry no state between units."""

    def __init__(self, classes, string_mode='uf'):
        self.string_mode = string_mode
        self.classes = classes          # list of (token name, python class or None)
        self.Ref = z3.DeclareSort('Ref')
        self.Str = z3.StringSort() if string_mode == 'seq' else z3.DeclareSort('Str')
        names = ['c_%s' % n for n, _ in classes]
        self.Cls, consts = z3.EnumSort('Cls', names)
        self.ctok = {n: c for (n, _), c in zip(classes, consts)}
        D = z3.Datatype('V')
        D.declare('vn')
        D.declare('vb', ('b', BoolSort()))
        D.declare('vi', ('i', IntSort()))
        D.declare('vs', ('s', self.Str))
        D.declare('vc', ('c', self.Cls))
        D.declare('vr', ('r', self.Ref))
        self.V = V = D.create()
        self.rcls = Function('rcls', self.Ref, self.Cls)
        self.tlen = Function('tlen', self.Ref, IntSort())
        self.at = Function('at', self.Ref, IntSort(), V)
        self.E = Function('E', V, V, BoolSort())        # Python ==
        self.H = Function('H', V, IntSort())            # Python hash
        self._attrs = {}
        self._fns = {}
        self.strlits = {}
        self.globals = {}       # definitions assumed everywhere, by name
        self.slen = (lambda s: z3.Length(s)) if string_mode == 'seq' else \
            Function('slen', self.Str, IntSort())
        self.vn = V.vn
        self.fresh_n = 0

    # -- constructors
    def attr(self, name):
        f = self._attrs.get(name)
        if f is None:
            f = self._attrs[name] = Function('attr_' + name, self.Ref, self.V)
        return f

    def fn(self, name, *sorts):
        key = name
        f = self._fns.get(key)
        if f is None:
            m = {'V': self.V, 'Int': IntSort(), 'Bool': BoolSort(),
                 'Ref': self.Ref, 'Str': self.Str, 'Cls': self.Cls}
            f = self._fns[key] = Function(name, *[m.get(s, s) if isinstance(s, str) else s
                                                  for s in sorts])
        return f

    def str_lit(self, s):
        if self.string_mode == 'seq':
            return z3.StringVal(s)
        c = self.strlits.get(s)
        if c is None:
            c = self.strlits[s] = Const('str_%d_%s' % (
                len(self.strlits), ''.join(ch if ch.isalnum() else '_' for ch in s[:12])), self.Str)
        return c

    def lit(self, x):
        V = self.V
        if x is None:
            return V.vn
        if isinstance(x, bool):
            return V.vb(BoolVal(x))
        if isinstance(x, int):
            return V.vi(IntVal(x))
        if isinstance(x, str):
            return V.vs(self.str_lit(x))
        raise TypeError(x)

    def str_lit_facts(self):
        """Interned literals are pairwise distinct."""
        out = list(self.globals.values())
        if self.string_mode == 'seq' or not self.strlits:
            return out
        cs = list(self.strlits.values())
        if len(cs) > 1:
            out.append(z3.Distinct(*cs))
        for s, c in self.strlits.items():
            out.append(self.slen(c) == len(s))
        return out

    # -- class tests
    def is_tok(self, v, tok):
        V = self.V
        if tok == 'NoneType':
            return V.is_vn(v)
        if tok == 'bool':
            return V.is_vb(v)
        if tok == 'int':
            return V.is_vi(v)
        if tok == 'str':
            return V.is_vs(v)
        if tok == 'type':
            return V.is_vc(v)
        return And(V.is_vr(v), self.rcls(V.r(v)) == self.ctok[tok])

    def is_any(self, v, toks):
        toks = list(toks)
        if not toks:
            return BoolVal(False)
        V = self.V
        prim, refs = [], []
        for t in toks:
            if t in ('NoneType', 'bool', 'int', 'str', 'type'):
                prim.append(self.is_tok(v, t))
            else:
                refs.append(self.rcls(V.r(v)) == self.ctok[t])
        out = prim
        if refs:
            out = out + [And(V.is_vr(v), Or(*refs) if len(refs) > 1 else refs[0])]
        return Or(*out) if len(out) > 1 else out[0]


def simp(t):
    return z3.simplify(t)


def forall(vs, body, patterns=None):
    if is_true(body):
        return body
    if patterns:
        return ForAll(vs, body, patterns=patterns)
    return ForAll(vs, body)
