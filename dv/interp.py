"""Symbolic interpreter of the Python AST of the library's live functions."""
import ast
import builtins as _b
import types
import itertools
import functools
import re
import numpy
import z3
from .smt import And, Or, Not, Implies, If, IntVal, BoolVal, is_true, is_false, simp
from . import maps
from .maps import MDict, MSet
from .values import *
from .universe import static_lookup

_UNSET = object()
FLOWS = (PyRaise, FlowReturn, FlowBreak, FlowContinue, FlowOuter)


class Frame:
    __slots__ = 'vars', 'globals', 'parent', 'fn', 'self_cls', 'first', 'locals', 'cells'

    def __init__(self, globals_, parent=None, fn=None, self_cls=None, cells=None):
        self.vars = Store()
        self.globals = globals_
        self.parent = parent
        self.fn = fn
        self.self_cls = self_cls
        self.first = None
        self.locals = ()
        self.cells = cells or {}


def local_names(node):
    """Names assigned in a function body (not in nested functions)."""
    out = set()
    args = node.args
    for a in args.posonlyargs + args.args + args.kwonlyargs:
        out.add(a.arg)
    if args.vararg:
        out.add(args.vararg.arg)
    if args.kwarg:
        out.add(args.kwarg.arg)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split('.')[0])
            walk(c)
    if isinstance(node, ast.FunctionDef):
        for s in node.body:
            walk(ast.Module(body=[s], type_ignores=[]))
    return out


class Interp:
    def __init__(self, ctx, universe, registry, options=None):
        self.ctx = ctx
        self.u = universe
        self.w = ctx.w
        self.registry = registry
        ctx.all_toks = frozenset(universe.all_toks)
        self.opt = options or {}
        self.depth = 0
        self.active = []            # functions being interpreted
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.obligations = []       # (name, formula) met on the way
        self.frame_ok = set()       # attributes that may be written on inputs
        from .builtins_ import install
        self.prims = install(self)

    # ------------------------------------------------------------------ boxing
    def lit(self, x):
        return self.w.lit(x)

    def box(self, v):
        w, V = self.w, self.w.V
        if isinstance(v, SV):
            return v.t
        if isinstance(v, SI):
            return V.vi(v.t)
        if isinstance(v, SB):
            return V.vb(v.t)
        if isinstance(v, SS):
            return V.vs(v.t)
        if isinstance(v, SCls):
            return V.vc(v.t)
        if v is None or isinstance(v, (bool, int, str)) and type(v) in (bool, int, str):
            return w.lit(v)
        if isinstance(v, type) and v in self.u.tok:
            return V.vc(w.ctok[self.u.tok[v]])
        if isinstance(v, MaybeUnbound):
            return self.box(self.force(v))
        if isinstance(v, Opaque):
            return V.vs(self.ctx.fresh('text', w.Str))
        if isinstance(v, Prim) and v.t is not None:
            return v.t
        cache = self.ctx.__dict__.setdefault('boxcache', {})
        hit = cache.get(id(v))
        if hit is not None:
            return hit[1]
        if isinstance(v, Tup):
            if v.ref is not None:
                return V.vr(v.ref)
            r = self.box_seq(v.seq, 'tuple')
        elif isinstance(v, (MDict, MSet)):
            return v.st['map'].t
        elif isinstance(v, MapV):
            return V.vr(v.ref)
        elif isinstance(v, ListV):
            return V.vr(self.box_seq(v.st['seq'], 'list'))
        elif isinstance(v, Obj):
            r = self.ctx.fresh('obj_' + v.cls.__name__, w.Ref)
            raw = self.opt.get('raw') is v
            if raw:
                # under construction: its class invariant may not be used
                self.ctx.assume(w.rcls(r) == w.ctok['RAW'])
                self.ctx.write(cache, id(v), (v, V.vr(r)))
            for a, x in sorted(v.attrs.items()):
                self.ctx.assume(w.attr(a)(r) == self.box(x))
            if not raw:
                inv = self.opt.get('class_inv')
                if inv is not None:
                    f = inv(self, v.cls, V.vr(r))
                    if f is not None:
                        self.oblige('class invariant of a new %s' % v.cls.__name__, f)
                self.ctx.assume(w.rcls(r) == w.ctok[self.u.tok[v.cls]])
            v.frozen = True
        elif isinstance(v, Val):
            r = self.ctx.fresh('opaque', w.Ref)
            self.ctx.assume(w.rcls(r) == w.ctok['OTHER'])
            if isinstance(v, (SetV, DictV)):
                return V.vr(r)
        else:
            return self.box_live(v)
        self.ctx.write(cache, id(v), (v, V.vr(r)))
        return V.vr(r)

    def box_seq(self, seq, tok):
        w = self.w
        r = self.ctx.fresh(tok, w.Ref)
        n = self.seq_len_term(seq)
        self.ctx.assume(And(w.rcls(r) == w.ctok[tok], w.tlen(r) == n))
        items = seq.concrete()
        if items is not None:
            for i, x in enumerate(items):
                self.ctx.assume(w.at(r, IntVal(i)) == self.box(x))
        else:
            # leading concrete items, then the general rule
            pos = 0
            for p in seq.parts:
                if p.items is None:
                    break
                for x in p.items:
                    self.ctx.assume(w.at(r, IntVal(pos)) == self.box(x))
                    pos += 1
            i = z3.Int(self.ctx.fresh_name('i'))
            self.ctx.assume(z3.ForAll(
                [i], Implies(And(i >= 0, i < n), w.at(r, i) == self.seq_at_term(seq, i)),
                patterns=[w.at(r, i)]))
            # the other direction, to find the item a source element went to
            off = zero = IntVal(0)
            for p in seq.parts:
                if p.items is None:
                    src = self.part_term(p, i)
                    if z3.is_app(src) and src.num_args() and _has_direct(src, i) \
                            and not _has_arith_on(src, i) and not _has_if(src):
                        self.ctx.assume(z3.ForAll(
                            [i], Implies(And(i >= 0, i < p.n), w.at(r, i + off) == src),
                            patterns=[src]))
                    off = off + p.n
                else:
                    if off is not zero:
                        for j, x in enumerate(p.items):
                            self.ctx.assume(w.at(r, off + j if j else off) == self.box(x))
                    off = off + len(p.items)
        return r

    def box_live(self, v):
        w = self.w
        cache = self.ctx.__dict__.setdefault('boxcache', {})
        if type(v) is tuple:
            r = self.box_seq(Seq.of([self.wrap(x) for x in v]), 'tuple')
        elif type(v) is list:
            return w.V.vr(self.box_seq(Seq.of([self.wrap(x) for x in v]), 'list'))
        else:
            name = 'live_%s_%x' % (type(v).__name__, id(v) & 0xffffff)
            r = z3.Const(name, w.Ref)
            tok = self.u.tok.get(type(v), 'dtype' if isinstance(v, numpy.dtype) else 'OTHER')
            if tok in ('NoneType', 'bool', 'int', 'str', 'type') or \
                    tok == 'set' and self.opt.get('sets'):
                tok = 'OTHER'
            self.ctx.assume(w.rcls(r) == w.ctok[tok])
            lives = self.ctx.__dict__.setdefault('lives', {})
            for other in lives.values():
                if other is not r:
                    self.ctx.assume(other != r)
            self.ctx.write(lives, id(v), r)
            self.ctx.write(cache, id(v), (v, w.V.vr(r)))
            if type(v) is dict and self.opt.get('dicts') or type(v) is set and self.opt.get('sets'):
                maps.describe(self, v, r)
            if type(v) in self.u.ds_classes:
                for a in sorted(self.u.inst_attrs(type(v))):
                    if a in v.__dict__ or hasattr(v, a):
                        self.ctx.assume(w.attr(a)(r) == self.box(self.wrap(getattr(v, a))))
        self.ctx.write(cache, id(v), (v, w.V.vr(r)))
        return w.V.vr(r)

    def wrap(self, x):
        """A concrete Python object as an interpreter value."""
        if type(x) is tuple:
            return Tup([self.wrap(y) for y in x])
        if isinstance(x, slice):
            return SliceV(self.wrap(x.start), self.wrap(x.stop), self.wrap(x.step))
        return x

    def conc(self, v):
        """The concrete Python object of a value, or raise KeyError."""
        if isinstance(v, MaybeUnbound):
            v = self.force(v)
        if isinstance(v, Tup):
            items = v.seq.concrete()
            if items is None:
                raise KeyError
            return tuple(self.conc(x) for x in items)
        if isinstance(v, ListV):
            items = v.st['seq'].concrete()
            if items is None:
                raise KeyError
            return [self.conc(x) for x in items]
        if isinstance(v, SliceV):
            return slice(self.conc(v.start), self.conc(v.stop), self.conc(v.step))
        if isinstance(v, SI):
            t = simp(v.t)
            if z3.is_int_value(t):
                return t.as_long()
        if isinstance(v, SB):
            t = simp(v.t)
            if is_true(t):
                return True
            if is_false(t):
                return False
        if isinstance(v, Val):
            raise KeyError
        return v

    def is_conc(self, v):
        try:
            self.conc(v)
            return True
        except KeyError:
            return False

    def norm(self, v):
        """Refine an SV whose term has a known constructor."""
        if isinstance(v, SV):
            t = simp(v.t)
            V = self.w.V
            if z3.is_app(t):
                d = t.decl().name()
                if d == 'vn':
                    return None
                if d == 'vi':
                    a = t.arg(0)
                    return a.as_long() if z3.is_int_value(a) else SI(a)
                if d == 'vb':
                    a = t.arg(0)
                    return True if is_true(a) else False if is_false(a) else SB(a)
                if d == 'vs':
                    a = t.arg(0)
                    for s, c in self.w.strlits.items():
                        if c.eq(a):
                            return s
                    if z3.is_string_value(a):
                        return a.as_string()
                    return SS(a)
                if d == 'vc':
                    return SCls(t.arg(0))
        elif isinstance(v, (SI, SB)):
            try:
                return self.conc(v)
            except KeyError:
                return v
        return v

    def force(self, v):
        if isinstance(v, MaybeUnbound):
            if not self.ctx.branch(v.cond):
                raise PyRaise(UnboundLocalError, ())
            return self.force(v.value)
        return v

    # -------------------------------------------------------------- class tests
    def toks_of(self, cls):
        return self.u.subtoks(cls)

    def class_of(self, v):
        """The Python class of a value if it is known, else None."""
        v = self.norm(v)
        if isinstance(v, SV):
            return None
        if isinstance(v, SI):
            return int
        if isinstance(v, SB):
            return bool
        if isinstance(v, (SS, Opaque)):
            return str
        if isinstance(v, SCls):
            return type
        if isinstance(v, Tup):
            return tuple
        if isinstance(v, ListV):
            return list
        if isinstance(v, (SetV, MSet)):
            return set
        if isinstance(v, (DictV, MapV)):
            return dict
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, ExcV):
            return v.cls
        if isinstance(v, SliceV):
            return slice
        if isinstance(v, (Closure, BMeth, Prim)):
            return types.FunctionType
        if isinstance(v, IterV):
            return types.GeneratorType
        if isinstance(v, Val):
            raise Unsupported('class of %s' % type(v).__name__)
        return type(v)

    def fork_class(self, sv, keyfn):
        """Split on the class of an SV, grouped by keyfn(class or None)."""
        groups = {}
        order = []
        for tok in self.u.all_toks:
            k = keyfn(self.u.cls_of_tok[tok], tok)
            kk = _hashable(k)
            if kk not in groups:
                groups[kk] = (k, [])
                order.append(kk)
            groups[kk][1].append(tok)
        if len(order) == 1:
            return groups[order[0]][0]
        have = self.ctx.may_be(sv.t)
        if have is not None:
            order = [kk for kk in order if have & set(groups[kk][1])] or order
            if len(order) == 1:
                return groups[order[0]][0]
        opts = [(kk, self.w.is_any(sv.t, groups[kk][1])) for kk in order]
        kk = self.ctx.choose(opts)
        self.ctx.restrict(sv.t, frozenset(groups[kk][1]))
        return groups[kk][0]

    def isinst_term(self, t, classes):
        toks = []
        for c in classes:
            for k in self.toks_of(c):
                if k not in toks:
                    toks.append(k)
        return self.w.is_any(t, toks)

    def clsof_term(self, t):
        w, V = self.w, self.w.V
        return If(V.is_vr(t), w.rcls(V.r(t)),
                  If(V.is_vn(t), w.ctok['NoneType'],
                     If(V.is_vb(t), w.ctok['bool'],
                        If(V.is_vi(t), w.ctok['int'],
                           If(V.is_vs(t), w.ctok['str'], w.ctok['type'])))))

    # --------------------------------------------------------------- sequences
    def seq_len_term(self, seq):
        n = None
        c = 0
        for p in seq.parts:
            if p.mark is not None:
                if p.n is None:
                    raise Unsupported('a list built by the loop is read in the loop')
                n = p.n() if n is None else n + p.n()
                continue
            if p.items is not None:
                c += len(p.items)
            else:
                n = p.n if n is None else n + p.n
        if n is None:
            return IntVal(c)
        return n + c if c else n

    def seq_len(self, seq):
        t = simp(self.seq_len_term(seq))
        return t.as_long() if z3.is_int_value(t) else SI(t)

    def part_term(self, p, i):
        """The boxed item of a symbolic part at a term i."""
        if z3.is_int_value(i):
            return self.box(p.at(i))
        cache = self.ctx.__dict__.setdefault('partcache', {})
        hit = cache.get(id(p))
        if hit is None or hit[3] != len(self.ctx.idx):
            from .loops import quantify
            pi = z3.Int(self.ctx.fresh_name('pi'))
            t = self.ctx.under(pi, p.n, lambda: self.box(p.at(pi)),
                               lambda i, n, g: quantify(self, i, IntVal(0), n, g))
            hit = (p, pi, t, len(self.ctx.idx))
            self.ctx.write(cache, id(p), hit)
        return z3.substitute(hit[2], (hit[1], i))

    def seq_at_term(self, seq, i):
        """The boxed item at a term i that is within the range."""
        parts = seq.parts
        if len(parts) == 1 and parts[0].items is None:
            if parts[0].mark is not None:
                raise Unsupported('a list built by the loop is read in the loop')
            return self.part_term(parts[0], i)
        out = None
        off = IntVal(0)
        cases = []
        for p in parts:
            if p.mark is not None:
                raise Unsupported('a list built by the loop is read in the loop')
            if p.items is not None:
                for j, x in enumerate(p.items):
                    cases.append((i == simp(off + j), self.box(x)))
                off = off + len(p.items)
            else:
                cases.append((i < off + p.n, self.part_term(p, simp(i - off))))
                off = off + p.n
        out = cases[-1][1]
        for c, v in reversed(cases[:-1]):
            out = If(c, v, out)
        return out

    def seq_item(self, seq, i):
        """Item at a term i within the range, as a value."""
        i = simp(i) if z3.is_expr(i) else IntVal(i)
        parts = seq.parts
        if z3.is_int_value(i):
            k = i.as_long()
            for p in parts:
                if p.mark is not None:
                    break
                if p.items is None:
                    if p is parts[-1] or self.ctx.entails(p.n > k):
                        return p.at(IntVal(k))
                    break
                if k < len(p.items):
                    return p.items[k]
                k -= len(p.items)
        if len(parts) == 1 and parts[0].items is None and parts[0].mark is None:
            return parts[0].at(i)
        return self.norm(SV(self.seq_at_term(seq, i)))

    def seq_index(self, seq, i, what='list'):
        """seq[i] for an int value i, negative or out of range or not."""
        n = self.seq_len(seq)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(n, int) and isinstance(i, int):
            if not -n <= i < n:
                raise PyRaise(IndexError, ('%s index out of range' % what,))
            return self.seq_item(seq, IntVal(i % n if n else 0))
        nt = self.seq_len_term(seq)
        it = self.int_term(i)
        if self.ctx.branch(And(it >= 0, it < nt)):
            return self.seq_item(seq, it)
        if self.ctx.branch(And(it < 0, it >= -nt)):
            return self.seq_item(seq, simp(nt + it))
        raise PyRaise(IndexError, ('%s index out of range' % what,))

    def seq_slice(self, seq, sl):
        start, stop, step = [self.refine(x) for x in (sl.start, sl.stop, sl.step)]
        items = seq.concrete()
        if items is not None and all(x is None or type(x) is int for x in (start, stop, step)):
            return Seq.of(items[slice(start, stop, step)])
        n = self.seq_len_term(seq)
        if step is None or step == 1 and type(step) is int:
            lo = IntVal(0) if start is None else self.clamp(start, n)
            hi = n if stop is None else self.clamp(stop, n)
            if lo is None or hi is None:
                return self.slice_uf(seq, n, start, stop, step)
            cnt = simp(hi - lo)
            if not (start is None or self.ctx.entails(cnt >= 0)):
                if not self.ctx.branch(cnt >= 0):
                    return Seq()
            if start is None and stop is None:
                return seq
            if items is None and start is not None and type(start) is int and start >= 0 \
                    and stop is None:
                # drop concrete leading items
                parts = list(seq.parts)
                k = start
                while k and parts and parts[0].items is not None:
                    d = min(k, len(parts[0].items))
                    parts[0] = Part(items=parts[0].items[d:])
                    if not parts[0].items:
                        parts.pop(0)
                    k -= d
                if k == 0:
                    return Seq(parts)
            if items is None and start is None and type(stop) is int and stop < 0:
                parts = list(seq.parts)
                k = -stop
                while k and parts and parts[-1].items is not None:
                    d = min(k, len(parts[-1].items))
                    parts[-1] = Part(items=parts[-1].items[:len(parts[-1].items) - d])
                    if not parts[-1].items:
                        parts.pop()
                    k -= d
                if k == 0:
                    return Seq(parts)
            return Seq.sym(cnt, lambda i: self.seq_item(seq, simp(lo + i)))
        return self.slice_uf(seq, n, start, stop, step)

    def refine(self, v):
        """An SV known to be an integer or None, as such."""
        v = self.norm(self.force(v))
        if isinstance(v, SV):
            V = self.w.V
            if self.ctx.entails(V.is_vi(v.t)):
                return self.norm(SI(simp(V.i(v.t))))
            if self.ctx.entails(V.is_vn(v.t)):
                return None
        return v

    def clamp(self, x, n):
        """Slice bound x clamped to 0..n."""
        if isinstance(x, (int, SI)) and not isinstance(x, bool):
            t = self.int_term(x)
            if self.ctx.entails(t < 0):
                t = n + t
                if self.ctx.entails(t >= 0) or self.ctx.branch(t >= 0):
                    return simp(t)
                return IntVal(0)
            if self.ctx.branch(t >= 0):
                if self.ctx.branch(t <= n):
                    return simp(t)
                return n
            t = n + t
            if self.ctx.branch(t >= 0):
                return simp(t)
            return IntVal(0)
        return None

    def slice_uf(self, seq, n, start, stop, step):
        """Slicing as such is a built-in: its count and positions are
        uninterpreted functions of the length and the slice."""
        for x in (start, stop, step):
            if x is not None and self.class_of(x) is None:
                ok = self.isinst_term(x.t, [type(None), int])
                if not self.ctx.branch(ok):
                    if self.ctx.branch(self.isinst_term(x.t, self.index_classes())):
                        raise Unsupported('slice bound with __index__')
                    raise PyRaise(TypeError, ('slice indices must be integers',))
            elif x is not None and self.class_of(x) not in (int, bool):
                raise PyRaise(TypeError, ('slice indices must be integers',))
        st = self.box(step)
        V = self.w.V
        if self.ctx.branch(Or(st == V.vi(IntVal(0)), st == V.vb(BoolVal(False)))):
            raise PyRaise(ValueError, ('slice step cannot be zero',))
        a = (n, self.box(start), self.box(stop), st)
        cnt_f = self.w.fn('slicelen', 'Int', 'V', 'V', 'V', 'Int')
        pos_f = self.w.fn('slicepos', 'Int', 'V', 'V', 'V', 'Int', 'Int')
        cnt = cnt_f(*a)
        self.ctx.assume(And(cnt >= 0, Implies(n >= 0, cnt <= n)))
        i = z3.Int(self.ctx.fresh_name('i'))
        self.ctx.assume(z3.ForAll([i], Implies(And(i >= 0, i < cnt),
                                               And(pos_f(*a, i) >= 0, pos_f(*a, i) < n)),
                                  patterns=[pos_f(*a, i)]))
        j = z3.Int(self.ctx.fresh_name('j'))
        self.ctx.assume(z3.ForAll([i, j], Implies(
            And(0 <= i, i < cnt, 0 <= j, j < cnt, i != j), pos_f(*a, i) != pos_f(*a, j)),
            patterns=[z3.MultiPattern(pos_f(*a, i), pos_f(*a, j))]))
        return Seq.sym(cnt, lambda i: self.seq_item(seq, pos_f(*a, i)))

    def index_classes(self):
        return [c for c in self.u.ds_classes if static_lookup(c, '__index__')[0]]

    def int_term(self, v):
        v = self.norm(v)
        if isinstance(v, bool):
            return IntVal(int(v))
        if isinstance(v, int):
            return IntVal(v)
        if isinstance(v, SI):
            return v.t
        if isinstance(v, SB):
            return If(v.t, IntVal(1), IntVal(0))
        raise Unsupported('integer expected, got %r' % type(v).__name__)

    def ref_seq(self, r):
        """The Seq view of a tuple or list reference."""
        w = self.w
        self.ctx.assume(w.tlen(r) >= 0)
        return Seq.sym(w.tlen(r), lambda i: self.norm(SV(w.at(r, i))))

    def as_seq(self, v):
        """Random access view of a value that is a tuple or list, or None."""
        v = self.norm(self.force(v))
        if isinstance(v, Tup):
            return v.seq
        if isinstance(v, ListV):
            return v.st['seq']
        if isinstance(v, IterV) and v.seqf is not None:
            return v.seqf()
        if type(v) in (tuple, list):
            return Seq.of([self.wrap(x) for x in v])
        if isinstance(v, SV):
            r = self.w.V.r(v.t)
            if self.ctx.entails(self.w.is_any(v.t, ['tuple', 'list'])):
                return self.ref_seq(r)
        return None

    # ------------------------------------------------------------------- truth
    def truth(self, v):
        """Python truth value as bool or z3 Bool (may fork or call)."""
        v = self.norm(self.force(v))
        if isinstance(v, SB):
            return v.t
        if isinstance(v, SI):
            return v.t != 0
        if isinstance(v, SS):
            return v.t != self.w.str_lit('')
        if isinstance(v, (Tup, ListV, SetV)):
            seq = v.seq if isinstance(v, Tup) else v.st['seq']
            n = self.seq_len_term(seq)
            return simp(n > 0)
        if isinstance(v, DictV):
            return simp(self.seq_len_term(v.st['items']) > 0)
        if isinstance(v, MSet):
            return self.w.tlen(v.ref) > 0
        if isinstance(v, MapV):
            return self.map_len(v) > 0
        if isinstance(v, (Closure, BMeth, Prim, SCls, IterV, ExcV, SliceV, MatchV)):
            return True
        if isinstance(v, Opaque):
            raise Unsupported('truth of a text')
        if isinstance(v, SV):
            w, V = self.w, self.w.V

            def key(c, tok):
                if tok in ('NoneType', 'bool', 'int', 'str', 'type', 'tuple', 'list', 'dict'):
                    return tok
                if c is None or c not in self.u.ds_classes:
                    return 'other'
                k, f = static_lookup(c, '__bool__')
                if k is None:
                    k, f = static_lookup(c, '__len__')
                return ('len', f) if k else 'true'
            k = self.fork_class(v, key)
            if k == 'NoneType':
                return False
            if k == 'bool':
                return V.b(v.t)
            if k == 'int':
                return V.i(v.t) != 0
            if k == 'str':
                return V.s(v.t) != w.str_lit('')
            if k in ('tuple', 'list', 'dict'):
                return w.tlen(V.r(v.t)) > 0
            if k in ('type', 'true'):
                return True
            if k == 'other':
                t = w.fn('truthy', 'V', 'Bool')(v.t)
                if self.opt.get('sets'):
                    self.ctx.assume(Implies(And(V.is_vr(v.t), w.fn('is_set', 'Ref', 'Bool')(
                        V.r(v.t))), t == (w.tlen(V.r(v.t)) > 0)))
                return t
            r = self.call_function(k[1], [v], {})
            return self.truth(r)
        if isinstance(v, Obj) or type(v) in self.u.ds_classes:
            c = v.cls if isinstance(v, Obj) else type(v)
            for m in ('__bool__', '__len__'):
                k, f = static_lookup(c, m)
                if k:
                    return self.truth(self.call_function(f, [v], {}))
            return True
        if isinstance(v, Val):
            raise Unsupported('truth of %s' % type(v).__name__)
        return bool(v)

    def test(self, v):
        return self.ctx.branch(self.truth(v))

    # ---------------------------------------------------------------- equality
    def eq(self, a, b):
        """a == b as a bool or a z3 Bool."""
        a, b = self.norm(self.force(a)), self.norm(self.force(b))
        w, V = self.w, self.w.V
        if not isinstance(a, Val) and not isinstance(b, Val):
            if type(a) not in self.u.ds_classes and type(b) not in self.u.ds_classes:
                return bool(a == b)
        if isinstance(a, (Tup, ListV)) and isinstance(b, (Tup, ListV)):
            if isinstance(a, Tup) != isinstance(b, Tup):
                return False
            return self.eq_seq(self.as_seq(a), self.as_seq(b))
        if isinstance(a, MSet) and isinstance(b, MSet):
            return maps.equal(self, a, b)
        ca, cb = self.class_of(a), self.class_of(b)
        numeric = (int, bool)
        if ca in numeric and cb in numeric:
            return simp(self.int_term(a) == self.int_term(b))
        if ca is str and cb is str:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('comparison of texts')
            return simp(V.s(self.box(a)) == V.s(self.box(b)))
        if isinstance(a, (SCls,)) or isinstance(b, (SCls,)):
            if ca is type and cb is type:
                return simp(self.box(a) == self.box(b))
        ds = set(self.u.ds_classes)
        if ca is not None and cb is not None and ca not in ds and cb not in ds \
                and ca is not cb and ca in PRIMS and cb in PRIMS:
            return False
        if ca is None or cb is None:
            # tuples and lists are compared item by item
            for x, y, cx in ((a, b, ca), (b, a, cb)):
                if isinstance(x, (Tup, ListV)) and isinstance(y, SV):
                    tok = 'tuple' if isinstance(x, Tup) else 'list'
                    if not self.ctx.branch(w.is_tok(y.t, tok)):
                        return False
                    return self.eq(x, self.native_view(y, tok))
        ba, bb = self.box(a), self.box(b)
        hook = self.opt.get('eq_hook')
        if hook:
            hook(self, ba, bb)
        return self.w.E(ba, bb)

    def same_key(self, a, b):
        """a == b, of the keys where dictionaries are terms"""
        if self.opt.get('dicts') and (isinstance(a, SV) or isinstance(b, SV)):
            return simp(maps.key_of(self, a) == maps.key_of(self, b))
        return self.eq(a, b)

    def py_eq(self, a, b):
        return self.eq(a, b)

    def py_ne(self, a, b):
        r = self.eq(a, b)
        return not r if isinstance(r, bool) else Not(r)

    def eq_seq(self, x, y):
        xs, ys = x.concrete(), y.concrete()
        if xs is not None and ys is not None:
            if len(xs) != len(ys):
                return False
            out = []
            for p, q in zip(xs, ys):
                e = self.eq(p, q)
                if e is False:
                    return False
                if e is not True:
                    out.append(e)
            return And(*out) if out else True
        nx, ny = self.seq_len_term(x), self.seq_len_term(y)
        i = z3.Int(self.ctx.fresh_name('i'))
        from .loops import quantify
        f = self.w.E(simp(self.seq_at_term(x, i)), simp(self.seq_at_term(y, i)))
        return And(nx == ny, quantify(self, i, IntVal(0), nx, f))

    def is_(self, a, b):
        a, b = self.norm(self.force(a)), self.norm(self.force(b))
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, SV):
                return self.w.V.is_vn(x.t)
            return False
        if not isinstance(a, Val) and not isinstance(b, Val):
            return a is b
        ca, cb = self.class_of(a), self.class_of(b)
        if isinstance(a, SCls) or isinstance(b, SCls):
            return simp(self.box(a) == self.box(b))
        if a is b:
            return True
        if isinstance(a, (Obj, Tup, ListV)) and isinstance(b, (Obj, Tup, ListV)):
            return False
        if ca is bool and cb is bool:
            return simp(self.box(a) == self.box(b))
        if isinstance(a, SV) or isinstance(b, SV):
            return simp(self.box(a) == self.box(b))
        return False

    # ---------------------------------------------------------- attribute access
    def getattr(self, v, name, default=_UNSET):
        v = self.norm(self.force(v))
        try:
            return self.getattr_(v, name)
        except PyRaise as e:
            if e.cls is AttributeError and default is not _UNSET:
                return default
            raise

    def getattr_(self, v, name):
        if isinstance(v, SuperV):
            return self.super_attr(v, name)
        if isinstance(v, Obj):
            k, x = static_lookup(v.cls, name)
            if k == 'property':
                return self.call_function(x.fget, [v], {})
            if name in v.attrs:
                return v.attrs[name]
            if name == '__class__':
                return v.cls
            if k is None and v.cls in self.u.ds_classes and self.u.set_later(name):
                raise Unsupported('attribute %s, which is not set by constructors' % name)
            return self.class_attr(v, v.cls, k, x, name)
        if isinstance(v, SV):
            return self.sv_attr(v, name)
        if isinstance(v, Tup) and v.named is not None and name in v.named._fields:
            return self.seq_item(v.seq, IntVal(v.named._fields.index(name)))
        if isinstance(v, MatchV):
            from .builtins_ import MATCH
            if name == 'lastindex':
                return v.last
            if name not in MATCH:
                raise Unsupported('attribute %s of a match' % name)
            return Prim(name, functools.partial(MATCH[name], v))
        if isinstance(v, re.Pattern) and name == 'match':
            from .builtins_ import pattern_match
            return Prim(name, functools.partial(pattern_match, v))
        if isinstance(v, Val):
            m = self.prims['methods'].get((type(v).__name__, name))
            if m is None and isinstance(v, (SI, SB)) and name in ('real', 'numerator'):
                return v
            if m is not None:
                return Prim(name, functools.partial(m, v))
            if isinstance(v, SCls) and name == '__name__':
                return Opaque('class name')
            if isinstance(v, SliceV) and name in ('start', 'stop', 'step'):
                return getattr(v, name)
            c = self.class_of(v)
            if c is types.FunctionType or hasattr(c, name):
                raise Unsupported('attribute %s of %s' % (name, type(v).__name__))
            raise PyRaise(AttributeError, (name,))
        if type(v) in self.u.ds_classes:
            k, x = static_lookup(type(v), name)
            if k in (None, 'slot') and name not in self.u.inst_attrs(type(v)) and \
                    self.u.set_later(name):
                raise Unsupported('attribute %s, which is not set by constructors' % name)
            if k == 'property':
                return self.call_function(x.fget, [v], {})
            if name in v.__dict__ or k == 'slot':
                try:
                    return self.wrap(_b.getattr(v, name))
                except AttributeError:
                    raise PyRaise(AttributeError, (name,))
            return self.class_attr(v, type(v), k, x, name)
        if isinstance(v, type):
            return self.type_attr(v, name)
        try:
            x = _b.getattr(v, name)
        except AttributeError:
            raise PyRaise(AttributeError, (name,))
        if isinstance(v, types.ModuleType):
            return self.wrap(x)
        if isinstance(x, types.MethodType) and isinstance(x.__func__, types.FunctionType):
            return BMeth(x.__func__, v)
        if isinstance(v, (str, bytes, int, float, dict, list, set, frozenset)) and callable(x):
            m = self.prims['methods'].get((type(v).__name__, name))
            if m is not None:
                return Prim(name, functools.partial(m, v))
        return self.wrap(x)

    def type_attr(self, c, name):
        if name in ('__name__', '__mro__', '__module__', '__slots__', '__dict__'):
            try:
                return self.wrap(_b.getattr(c, name))
            except AttributeError:
                raise PyRaise(AttributeError, (name,))
        k, x = static_lookup(c, name)
        mk, mx = static_lookup(type(c), name)
        if k is None and mk is None:
            raise PyRaise(AttributeError, (name,))
        if k is None or mk == 'property':
            return self.class_attr(c, type(c), mk, mx, name)
        if k == 'classmethod':
            return BMeth(x, c)
        if k in ('function', 'static'):
            return x
        return self.wrap(_b.getattr(c, name))

    def class_attr(self, v, cls, k, x, name):
        """Attribute of an instance found on its class."""
        if k is None or k == 'slot':
            ga, g = static_lookup(cls, '__getattr__')
            raise PyRaise(AttributeError, (name,))
        if k == 'property':
            return self.call_function(x.fget, [v], {})
        if k == 'function':
            return BMeth(x, v)
        if k == 'static':
            return x
        if k == 'classmethod':
            return BMeth(x, v if isinstance(v, type) else cls)
        if k == 'value':
            return self.wrap(x)
        if k == 'builtin':
            return BMeth(x, v)
        raise Unsupported('attribute %s of %s' % (name, cls.__name__))

    def super_attr(self, sup, name):
        obj = sup.self
        if isinstance(obj, type):
            mro = list(obj.__mro__)
        else:
            c = self.class_of(obj)
            if c is None:
                c = self.fork_class(obj, lambda k, tok: (k if k is not None and
                                                         issubclass(k, sup.cls) else None))
                if c is None:
                    raise PyRaise(TypeError, ('super',))
            mro = list(c.__mro__)
        for k in mro[mro.index(sup.cls) + 1:]:
            if name in k.__dict__:
                x = k.__dict__[name]
                if isinstance(x, property):
                    return self.call_function(x.fget, [obj], {})
                if isinstance(x, types.FunctionType):
                    return BMeth(x, obj)
                if isinstance(x, staticmethod):
                    return x.__func__
                return BMeth(x, obj)
        raise PyRaise(AttributeError, (name,))

    def attr_kind(self, c, tok, name):
        """How instances of a class resolve an attribute."""
        if c is None or tok in ('NoneType', 'bool', 'int', 'str', 'type') or \
                c not in self.u.ds_classes and tok != 'parser':
            if c is not None and hasattr(c, name):
                return ('native', tok)
            return ('none',) if c is not None else ('other',)
        k, x = static_lookup(c, name)
        if k == 'property':
            return ('property', x.fget)
        if name in self.u.inst_attrs(c):
            return ('inst',)
        if k is None or k == 'slot':
            return ('none',)
        if k == 'value':
            return ('value', _Id(x))
        return (k, _Id(x))

    def sv_attr(self, v, name):
        if name == '__class__':
            return SCls(simp(self.clsof_term(v.t)))
        kind = self.fork_class(v, lambda c, tok: self.attr_kind(c, tok, name))
        if kind[0] == 'inst':
            return self.norm(SV(self.w.attr(name)(self.w.V.r(v.t))))
        if kind[0] == 'property':
            return self.call_function(kind[1], [v], {})
        cache = self.opt.get('caches', {}).get(name)
        if kind[0] == 'none' and cache is not None:
            # filled in by an earlier call, or not yet
            if self.ctx.branch(self.w.fn('has_' + name, 'V', 'Bool')(v.t)):
                t = self.w.attr(name)(self.w.V.r(v.t))
                self.ctx.assume(cache(self, v.t, t))
                return self.norm(SV(t))
        elif kind[0] == 'none' and self.u.set_later(name):
            raise Unsupported('attribute %s, which is not set by constructors' % name)
        if kind[0] in ('none', 'other'):
            if kind[0] == 'other' and name in ('__slots__',):
                raise Unsupported('attribute of a foreign object')
            raise PyRaise(AttributeError, (name,))
        if kind[0] == 'value':
            return self.wrap(kind[1].x)
        if kind[0] in ('function', 'builtin'):
            return BMeth(kind[1].x, v)
        if kind[0] == 'static':
            return kind[1].x
        if kind[0] == 'classmethod':
            raise Unsupported('classmethod of an unknown class')
        if kind == ('native', 'dtype'):
            return self.prims['dtype'](self, v, name)
        if kind[0] == 'native':
            nv = self.native_view(v, kind[1])
            return self.getattr_(nv, name)
        raise Unsupported('attribute %s' % name)

    def native_view(self, v, tok):
        V = self.w.V
        if tok == 'int':
            return SI(V.i(v.t))
        if tok == 'bool':
            return SB(V.b(v.t))
        if tok == 'str':
            return SS(V.s(v.t))
        if tok == 'NoneType':
            return None
        if tok == 'type':
            return SCls(V.c(v.t))
        if tok == 'tuple':
            return Tup(self.ref_seq(V.r(v.t)), ref=V.r(v.t))
        if tok == 'list':
            return ListV(seq=self.ref_seq(V.r(v.t)))
        if tok == 'dict':
            return MapV(V.r(v.t))
        if tok == 'slice':
            f = self.w.attr
            r = V.r(v.t)
            return SliceV(self.norm(SV(f('start')(r))), self.norm(SV(f('stop')(r))),
                          self.norm(SV(f('step')(r))))
        raise Unsupported('attribute of a %s' % tok)

    # -- dictionaries that are inputs: dhas/dget for a key, dkey/dval in order
    def map_len(self, v):
        n = self.w.tlen(v.ref)
        self.ctx.assume(n >= 0)
        return n

    def map_key(self, v, k):
        k = self.norm(self.force(k))
        if self.opt.get('dicts'):
            return maps.key_of(self, k)
        if isinstance(k, SV) and not self.ctx.entails(self.w.V.is_vs(k.t)) or \
                not isinstance(k, (SV, SS, str, Opaque)):
            raise Unsupported('a key of a dictionary that may not be a string')
        return self.box(k)

    def map_has(self, v, k):
        return self.w.fn('dhas', 'Ref', 'V', 'Bool')(v.ref, self.map_key(v, k))

    def map_get(self, v, k):
        if isinstance(v, MDict):
            return maps.getitem(self, v, self.map_key(v, k))
        return self.norm(SV(self.w.fn('dget', 'Ref', 'V', 'V')(v.ref, self.map_key(v, k))))

    def map_items(self, v, part=None):
        w, r = self.w, v.ref
        key, val = w.fn('dkey', 'Ref', 'Int', 'V'), w.fn('dval', 'Ref', 'Int', 'V')
        n = self.map_len(v)
        if self.opt.get('dicts'):
            return Seq.sym(n, {
                0: lambda i: self.norm(SV(key(r, i))), 1: lambda i: self.norm(SV(val(r, i))),
                None: lambda i: Tup([self.norm(SV(key(r, i))), self.norm(SV(val(r, i)))])}[part])
        i, j = z3.Int(self.ctx.fresh_name('i')), z3.Int(self.ctx.fresh_name('j'))
        has, get = w.fn('dhas', 'Ref', 'V', 'Bool'), w.fn('dget', 'Ref', 'V', 'V')
        at = w.fn('dpos', 'Ref', 'V', 'Int')
        x = z3.Const(self.ctx.fresh_name('x'), w.V)
        inside = And(0 <= i, i < n)
        self.ctx.assume(z3.ForAll([i], Implies(inside, And(
            has(r, key(r, i)), get(r, key(r, i)) == val(r, i), at(r, key(r, i)) == i)),
            patterns=[key(r, i)]))
        self.ctx.assume(z3.ForAll([x], Implies(And(w.V.is_vs(x), has(r, x)), And(
            0 <= at(r, x), at(r, x) < n, key(r, at(r, x)) == x)), patterns=[has(r, x)]))
        if part == 0:
            return Seq.sym(n, lambda i: SV(key(r, i)))
        if part == 1:
            return Seq.sym(n, lambda i: SV(val(r, i)))
        return Seq.sym(n, lambda i: Tup([SV(key(r, i)), SV(val(r, i))]))

    def setattr(self, v, name, x):
        v = self.norm(self.force(v))
        if isinstance(v, Obj):
            if v.frozen and name not in ('_hash',):
                raise Unsupported('object changed after it was shared')
            k, p = static_lookup(v.cls, name)
            if k == 'property':
                if p.fset is None:
                    raise PyRaise(AttributeError, (name,))
                self.call_function(p.fset, [v, x], {})
                return
            self.ctx.write(v.attrs, name, x)
            return
        if isinstance(v, SV):
            cache = self.opt.get('caches', {}).get(name)
            if cache is not None:
                self.oblige('invariant of the cache %s' % name, cache(self, v.t, self.box(x)))
            if name in self.frame_ok:
                log = self.ctx.__dict__.setdefault('writes', [])
                log.append((v, name, x))
                return
            self.oblige('frame: attribute %s of an input is not written' % name,
                        BoolVal(False))
            return
        if type(v) in self.u.ds_classes:
            if name in self.frame_ok:
                return
            self.oblige('frame: attribute %s of a global is not written' % name,
                        BoolVal(False))
            return
        raise Unsupported('attribute assignment on %s' % type(v).__name__)

    def oblige(self, name, f):
        """An obligation met in the middle of a path: decided on the spot."""
        self.opt['oblige'](self, name, f)

    # ------------------------------------------------------------------- calls
    def call(self, f, args, kwargs, varseq=None):
        """Call value f.  args is a list of values, varseq an optional Seq
        of further positional arguments (after args)."""
        f = self.norm(self.force(f))
        if varseq is not None:
            c = varseq.concrete()
            if c is not None:
                args, varseq = list(args) + c, None
        if isinstance(f, BMeth):
            return self.call(f.fn, [f.self] + list(args), kwargs, varseq)
        if isinstance(f, Prim):
            if varseq is not None:
                return f.fn(self, args, dict(kwargs, __varseq=varseq))
            return f.fn(self, args, kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs, varseq)
        if varseq is None and not kwargs and any(f is g for g in self.opt.get('apply', ())):
            self.trusted.add('%s.%s' % (f.__module__, f.__name__))
            return self.norm(SV(self.w.fn('apply', *(['V'] * (len(args) + 2)))(
                self.box(f), *[self.box(x) for x in args])))
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs, varseq)
        if isinstance(f, type):
            return self.call_class(f, args, kwargs, varseq)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs, varseq)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, [self.wrap(x) for x in f.args] + list(args), kw, varseq)
        h = self.prims['live'].get(_callkey(f))
        if h is not None:
            if varseq is not None:
                return h(self, args, dict(kwargs, __varseq=varseq))
            return h(self, args, kwargs)
        if type(f).__name__ == 'Dispatcher':
            return self.call_dispatcher(f, args, kwargs, varseq)
        if isinstance(f, SV):
            raise Unsupported('call of an unknown value')
        if isinstance(f, Obj) or type(f) in self.u.ds_classes:
            raise PyRaise(TypeError, ('not callable',))
        if isinstance(f, Val):
            raise Unsupported('call of %s' % type(f).__name__)
        return self.call_native(f, args, kwargs, varseq)

    def call_native(self, f, args, kwargs, varseq):
        """A C function or foreign object on concrete arguments."""
        if varseq is not None:
            raise Unsupported('native call with symbolic *args')
        owner = _b.getattr(f, '__self__', None)
        name = _b.getattr(f, '__name__', str(f))
        if isinstance(owner, (list, dict, set)) and name in MUTATORS:
            raise Unsupported('mutation of a global %s' % type(owner).__name__)
        try:
            a = [self.conc(x) for x in args]
            kw = {k: self.conc(x) for k, x in kwargs.items()}
        except KeyError:
            if isinstance(owner, (list, tuple)) and name == 'index' and len(args) == 1:
                # the first equal item
                eqs = [self.same_key(y, args[0]) for y in owner]
                if not self.ctx.branch(Or(*[z3.BoolVal(e) if isinstance(e, bool) else e
                                            for e in eqs])):
                    raise PyRaise(ValueError, ('not in list',))
                t = IntVal(len(eqs) - 1)
                for i in reversed(range(len(eqs) - 1)):
                    t = If(eqs[i], IntVal(i), t)
                return SI(t)
            raise Unsupported('%s on symbolic arguments' % name)
        self.trusted.add('%s.%s' % (_b.getattr(f, '__module__', None) or type(owner).__name__,
                                    name))
        try:
            r = f(*a, **kw)
        except Exception as e:
            raise PyRaise(type(e), e.args)
        return self.wrap(r)

    def call_function(self, fn, args, kwargs, varseq=None):
        c = self.registry.get(fn, self, args, kwargs)
        if c is not None and not (self.opt.get('top') is fn and not self.active):
            return self.call_contract(c, args, kwargs, varseq)
        h = self.prims['live'].get(_callkey(fn))
        if h is not None:
            return h(self, args, kwargs)
        node = None
        if fn.__module__ and fn.__module__.split('.')[0] == 'datashape':
            node = self.u.node_of(fn)
        if node is None:
            if all(self.is_conc(a) for a in args) and varseq is None and \
                    not (fn.__module__ or '').startswith('datashape'):
                return self.call_native(fn, args, kwargs, None)
            raise Unsupported('no source for %s.%s' % (fn.__module__, fn.__qualname__))
        if self.active.count(fn) > self.opt.get('unroll', 0):
            raise Unsupported('recursion of %s without a contract' % fn.__qualname__)
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        cells = {}
        if fn.__closure__:
            cells = dict(zip(fn.__code__.co_freevars, fn.__closure__))
        frame = Frame(fn.__globals__, None, fn, cells=cells)
        if '__class__' in cells:
            frame.self_cls = cells['__class__'].cell_contents
        self.inlined.add(fn)
        self.active.append(fn)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        try:
            self.bind(frame, node, args, kwargs, varseq,
                      fn.__defaults__ or (), fn.__kwdefaults__ or {})
            if is_gen:
                return self.generator(node, frame, fn)
            return self.run_body(node, frame)
        finally:
            self.active.pop()
            self.depth -= 1

    def generator(self, node, frame, fn):
        """The iterable of a call of a generator function: its body runs when
        the items are asked for, once."""
        used = Store()

        def drive(body):
            if 'used' in used:
                raise Unsupported('a generator is iterated twice')
            self.ctx.write(used, 'used', True)

            def emit(x):
                try:
                    body(x)
                except FlowContinue:
                    pass
                except FLOWS as e:
                    raise FlowOuter(e)
            frame.vars['$yield'] = emit
            self.active.append(fn)
            self.depth += 1
            try:
                self.run_body(node, frame)
            except FlowOuter as e:
                raise e.inner
            finally:
                self.active.pop()
                self.depth -= 1
        return IterV(drive)

    def e_Yield(self, e, f):
        fr = f
        while '$yield' not in fr.vars:
            if fr.parent is None:
                raise Unsupported('yield')
            fr = fr.parent
        fr.vars['$yield'](None if e.value is None else self.ev(e.value, f))
        return None

    def e_YieldFrom(self, e, f):
        emit = f.vars.get('$yield')
        if emit is None:
            raise Unsupported('yield from')
        self.iterate(self.ev(e.value, f), emit)
        return None

    def call_closure(self, c, args, kwargs, varseq=None):
        frame = Frame(c.frame.globals, c.frame, c.frame.fn, c.frame.self_cls)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        try:
            self.bind(frame, c.node, args, kwargs, varseq, c.defaults, c.kwdefaults)
            return self.run_body(c.node, frame)
        finally:
            self.depth -= 1

    def run_body(self, node, frame):
        frame.locals = local_names(node)
        if node.args.args:
            frame.first = node.args.args[0].arg
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, frame)
        try:
            self.stmts(node.body, frame)
        except FlowReturn as r:
            return r.value
        return None

    def bind(self, frame, node, args, kwargs, varseq, defaults, kwdefaults):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        nd = len(defaults)
        # enough concrete positional arguments for the named parameters?
        while varseq is not None and len(args) < len(names):
            n = self.seq_len_term(varseq)
            if self.ctx.branch(n > 0):
                first = self.seq_item(varseq, IntVal(0))
                rest = varseq
                args.append(first)
                parts = list(rest.parts)
                if parts[0].items is not None:
                    parts[0] = Part(items=parts[0].items[1:])
                    varseq = Seq(parts)
                else:
                    p = parts[0]
                    if len(parts) > 1:
                        raise Unsupported('*args of several symbolic parts')
                    varseq = Seq.sym(simp(p.n - 1), (lambda p: lambda i: p.at(simp(i + 1)))(p))
            else:
                varseq = None
        for i, nme in enumerate(names):
            if i < len(args):
                if nme in kwargs:
                    raise PyRaise(TypeError, ('multiple values for argument',))
                frame.vars[nme] = args[i]
            elif nme in kwargs:
                frame.vars[nme] = kwargs.pop(nme)
            else:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise(TypeError, ('missing argument %s' % nme,))
                frame.vars[nme] = self.wrap(defaults[j])
        extra = args[len(names):]
        if a.vararg:
            seq = Seq.of(extra)
            if varseq is not None:
                seq = seq + varseq
            frame.vars[a.vararg.arg] = Tup(seq)
        elif extra:
            raise PyRaise(TypeError, ('too many positional arguments',))
        elif varseq is not None:
            if self.ctx.branch(self.seq_len_term(varseq) > 0):
                raise PyRaise(TypeError, ('too many positional arguments',))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                frame.vars[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                frame.vars[x.arg] = self.wrap(kwdefaults[x.arg])
            else:
                raise PyRaise(TypeError, ('missing keyword argument',))
        if a.kwarg:
            frame.vars[a.kwarg.arg] = DictV(items=Seq.of([Tup([k, v])
                                                          for k, v in kwargs.items()]))
        elif kwargs:
            raise PyRaise(TypeError, ('unexpected keyword argument',))

    def call_class(self, cls, args, kwargs, varseq=None):
        h = self.prims['classes'].get(cls)
        if h is not None:
            if varseq is not None:
                return h(self, args, dict(kwargs, __varseq=varseq))
            return h(self, args, kwargs)
        if issubclass(cls, BaseException):
            return ExcV(cls, args)
        if issubclass(cls, tuple) and hasattr(cls, '_fields') and '__init__' not in cls.__dict__ \
                and varseq is None:
            d = dict(cls._field_defaults, **dict(zip(cls._fields, args)))
            d.update(kwargs)
            if len(args) > len(cls._fields) or set(d) != set(cls._fields):
                raise PyRaise(TypeError, ('missing argument',))
            return Tup([self.wrap(d[k]) for k in cls._fields], named=cls)
        if cls in self.u.tok and (cls in self.u.ds_classes or cls.__module__.startswith('datashape')):
            k, init = static_lookup(cls, '__init__')
            if k == 'function':
                c = self.registry.get(init, self, [None] + list(args), kwargs)
                if c is not None and not (self.opt.get('top') is init and not self.active):
                    return self.call_contract(c, args, kwargs, varseq, new=cls)
                o = Obj(cls)
                self.call_function(init, [o] + list(args), kwargs, varseq)
                return o
            return Obj(cls)
        if cls.__module__.startswith('datashape'):
            k, init = static_lookup(cls, '__init__')
            if k == 'function':
                self.u.tok.setdefault(cls, 'OTHER')
                o = Obj(cls)
                self.call_function(init, [o] + list(args), kwargs, varseq)
                return o
        return self.call_native(cls, args, kwargs, varseq)

    def call_dispatcher(self, d, args, kwargs, varseq=None):
        c = self.registry.get(d, self, args, kwargs)
        if c is not None and not (self.opt.get('top') is d and not self.active):
            return self.call_contract(c, args, kwargs, varseq)
        if varseq is not None:
            raise Unsupported('dispatch on *args')
        fn = self.resolve_dispatch(d, args)
        if fn is None:
            raise PyRaise(NotImplementedError, ())
        return self.call(fn, args, kwargs)

    def resolve_dispatch(self, d, args):
        known = [self.class_of(self.norm(self.force(a))) for a in args]
        unknown = [i for i, k in enumerate(known) if k is None]
        if not unknown:
            return d.dispatch(*known)
        if len(unknown) == 1:
            i = unknown[0]

            def key(c, tok):
                ks = list(known)
                ks[i] = c if c is not None else _Foreign
                return ('f', _Id(d.dispatch(*ks)))
            return self.fork_class(self.norm(args[i]), key)[1].x
        if len(unknown) == 2:
            i, j = unknown
            table = {}
            toks = self.u.all_toks
            for ti in toks:
                row = {}
                for tj in toks:
                    ks = list(known)
                    ks[i] = self.u.cls_of_tok[ti] or _Foreign
                    ks[j] = self.u.cls_of_tok[tj] or _Foreign
                    row.setdefault(_Id(d.dispatch(*ks)), []).append(tj)
                for f, cols in row.items():
                    table.setdefault(f, {}).setdefault(tuple(cols), []).append(ti)
            ai, aj = self.norm(args[i]).t, self.norm(args[j]).t
            opts = []
            for f, rows in table.items():
                conds = [And(self.w.is_any(ai, tis),
                             BoolVal(True) if len(cols) == len(toks) else
                             self.w.is_any(aj, cols)) for cols, tis in rows.items()]
                opts.append((f, Or(*conds) if len(conds) > 1 else conds[0]))
            return self.ctx.choose(opts).x
        raise Unsupported('dispatch on %d unknown classes' % len(unknown))

    # --------------------------------------------------------------- contracts
    def call_contract(self, c, args, kwargs, varseq=None, new=None):
        self.used_contracts.add(c)
        return c.at_call(self, args, kwargs, varseq, new)

    # ----------------------------------------------------------------- iteration
    def iterate(self, v, body):
        """Run body(item) for the items of v, in order."""
        v = self.norm(self.force(v))
        if isinstance(v, IterV):
            return v.drive(body)
        it = self.items_of(v)
        if not isinstance(it, Seq):
            return self.iterate(it, body)
        return self.sym_for(it, body)

    def items_of(self, v):
        """The items of an iterable that is not an iterator, as a Seq; or the
        iterator that its __iter__ returns."""
        if isinstance(v, Tup):
            return v.seq
        if isinstance(v, ListV):
            return v.st['seq']
        if isinstance(v, MapV):
            return self.map_items(v, 0)
        if isinstance(v, MSet):
            return maps.items(self, v)
        if isinstance(v, SS) and self.w.string_mode == 'uf':
            from .builtins_ import str_chars
            return str_chars(self, v)
        if isinstance(v, DictV):
            items = v.st['items'].concrete()
            if items is None:
                raise Unsupported('iteration over a symbolic dict')
            seen = []
            for kv in items:
                k = kv.seq.concrete()[0]
                if not any(self.eq(k, s) is True for s in seen):
                    seen.append(k)
            return Seq.of(seen)
        if isinstance(v, SetV):
            seq = v.st['seq']
            if self.seq_len(seq) != 0 and self.seq_len(seq) != 1:
                from .builtins_ import set_seq
                return set_seq(self, v)
            return seq
        if isinstance(v, SV):
            if self.opt.get('dicts'):
                s = And(self.w.V.is_vr(v.t), self.w.fn('is_set', 'Ref', 'Bool')(self.w.V.r(v.t)))
                if self.ctx.branch(s):
                    return maps.items(self, MSet(self, v.t))
            k = self.fork_class(v, self.iter_kind)
            if k[0] == 'dict':
                return self.map_items(MapV(self.w.V.r(v.t)), 0)
            if k[0] == 'seq':
                return self.ref_seq(self.w.V.r(v.t))
            if k[0] == 'iter':
                return self.call_function(k[1].x, [v], {})
            if k[0] == 'getitem':
                return self.getitem_seq(v, k[1].x)
            if k[0] == 'no':
                raise PyRaise(TypeError, ('not iterable',))
            raise Unsupported('iteration over a %s' % (k,))
        if isinstance(v, Obj) or type(v) in self.u.ds_classes:
            c = v.cls if isinstance(v, Obj) else type(v)
            k = self.iter_kind(c, '')
            if k[0] == 'iter':
                return self.call_function(k[1].x, [v], {})
            if k[0] == 'getitem':
                return self.getitem_seq(v, k[1].x)
            raise PyRaise(TypeError, ('not iterable',))
        if isinstance(v, Val):
            if isinstance(v, (SI, SB, SCls)):
                raise PyRaise(TypeError, ('not iterable',))
            raise Unsupported('iteration over %s' % type(v).__name__)
        try:
            items = list(v)
        except TypeError as e:
            raise PyRaise(TypeError, e.args)
        return Seq.of([self.wrap(x) for x in items])

    def iter_kind(self, c, tok):
        if tok in ('tuple', 'list'):
            return ('seq',)
        if tok == 'dict':
            return ('dict',)
        if c is not None and c in self.u.ds_classes:
            k, f = static_lookup(c, '__iter__')
            if k:
                return ('iter', _Id(f))
            k, f = static_lookup(c, '__getitem__')
            if k:
                return ('getitem', _Id(f))
            return ('no',)
        if c is None or hasattr(c, '__iter__'):
            return ('unsup', tok)
        return ('no',)

    def getitem_seq(self, v, fn):
        """The Seq that the sequence protocol of v yields."""
        ctx = self.ctx
        items = None
        k = ctx.fresh('k', z3.IntSort())
        ctx.assume(k >= 0)

        def one():
            x = self.call_function(fn, [v, SI(k)], {})
            return self.box(x)
        res = ctx.explore(one, (PyRaise,))
        bad = [o for o, _, _ in res if o[0] == 'PyRaise' and o[1].cls is not IndexError]
        if bad:
            self.call_function(fn, [v, 0], {})
            raise Unsupported('sequence protocol with other exceptions')
        kl, lf = static_lookup(self.class_of(v) or object, '__len__') \
            if self.class_of(v) is not None else (None, None)
        if lf is None:
            k2 = self.fork_class(v, lambda c, tok: ('len', _Id(static_lookup(c, '__len__')[1])
                                                    if c is not None else None))
            lf = k2[1].x if k2[1] is not None else None
        n = self.int_term(self.call_function(lf, [v], {}))
        normal = [(o[1], And(*log) if log else BoolVal(True)) for o, log, _ in res
                  if o[0] == 'normal']
        err = [And(*log) if log else BoolVal(True) for o, log, _ in res if o[0] != 'normal']
        if not ctx.entails(Implies(Or(*[c for _, c in normal]) if normal else BoolVal(False),
                                   k < n)) or \
                not ctx.entails(Implies(Or(*err) if err else BoolVal(False), k >= n)):
            raise Unsupported('length and items of a sequence disagree')
        if len(normal) != 1:
            raise Unsupported('items of a sequence')
        term, cond = normal[0]
        ctx.assume(n >= 0)
        nn = simp(n)
        if z3.is_int_value(nn) and nn.as_long() <= 4:
            return Seq.of([self.call_function(fn, [v, i], {}) for i in range(nn.as_long())])
        if _mentions_fresh(term, k, self):
            r = ctx.fresh_fn('item', z3.IntSort(), self.w.V)
            i = z3.Int(ctx.fresh_name('i'))
            ctx.assume(z3.ForAll([i], Implies(And(i >= 0, i < n), And(
                z3.substitute(cond, (k, i)), r(i) == z3.substitute(term, (k, i)))),
                patterns=[r(i)]))
            return Seq.sym(n, lambda i: self.norm(SV(r(i))))
        return Seq.sym(n, lambda i: self.norm(SV(z3.substitute(term, (k, i if z3.is_expr(i)
                                                                      else IntVal(i))))))

    def to_seq(self, v):
        """All the items of an iterable, as a Seq."""
        v = self.norm(self.force(v))
        if isinstance(v, (Tup, ListV)):
            return self.as_seq(v)
        if isinstance(v, IterV) and v.seqf is not None:
            return v.seqf()
        if not isinstance(v, IterV):
            it = self.items_of(v)
            return it if isinstance(it, Seq) else self.to_seq(it)
        acc = ListV(seq=Seq())

        def add(x):
            self.ctx.write(acc.st, 'seq', acc.st['seq'] + Seq.of([x]))
        self.iterate(v, add)
        return acc.st['seq']

    def sym_for(self, seq, body):
        """Run body for each item of a Seq; see loops.py."""
        from .loops import run_loop
        return run_loop(self, seq, body)

    # ----------------------------------------------------------------- statements
    def stmts(self, body, frame):
        for s in body:
            self.stmt(s, frame)

    def stmt(self, s, frame):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, frame)

    def s_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Return(self, s, f):
        raise FlowReturn(self.ev(s.value, f) if s.value is not None else None)

    def s_Break(self, s, f):
        raise FlowBreak()

    def s_Continue(self, s, f):
        raise FlowContinue()

    def s_If(self, s, f):
        if self.test(self.ev(s.test, f)):
            self.stmts(s.body, f)
        else:
            self.stmts(s.orelse, f)

    def s_Assign(self, s, f):
        v = self.ev(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, f), f)

    def s_AugAssign(self, s, f):
        load = _as_load(s.target)
        old = self.ev(load, f)
        new = self.ev(s.value, f)
        if isinstance(old, ListV) and isinstance(s.op, ast.Add):
            self.ctx.write(old.st, 'seq', old.st['seq'] + self.to_seq(new))
            v = old
        elif isinstance(old, MSet) and type(s.op) in maps.INPLACE and \
                self.class_of(new) is set:
            maps.inplace(maps.INPLACE[type(s.op)])(old, self, [new], {})
            v = old
        else:
            v = self.binop(s.op, old, new)
        self.assign(s.target, v, f)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.store(f, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, f), self.ev(t.slice, f), v)
        else:
            raise Unsupported('assignment target')

    def store(self, f, name, v):
        if name not in f.locals and name not in f.vars:
            pass
        self.ctx.write(f.vars, name, v)

    def unpack(self, t, v, f):
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        seq = self.as_seq(v)
        if seq is None:
            seq = self.to_seq(v)
        n = len(t.elts)
        ln = self.seq_len_term(seq)
        if star:
            i = star[0]
            if not self.ctx.branch(ln >= n - 1):
                raise PyRaise(ValueError, ('not enough values to unpack',))
            after = n - 1 - i
            for j in range(i):
                self.assign(t.elts[j], self.seq_item(seq, IntVal(j)), f)
            mid = self.seq_slice(seq, SliceV(i, -after if after else None, None))
            self.assign(t.elts[i].value, ListV(seq=mid), f)
            for j in range(after):
                self.assign(t.elts[i + 1 + j], self.seq_index(seq, j - after), f)
            return
        if not self.ctx.branch(simp(ln == n)):
            raise PyRaise(ValueError, ('wrong number of values to unpack',))
        for j, e in enumerate(t.elts):
            self.assign(e, self.seq_item(seq, IntVal(j)), f)

    def setitem(self, o, k, v):
        o = self.norm(self.force(o))
        if isinstance(o, MDict):
            return maps.setitem(self, o, k, v)
        if isinstance(o, DictV):
            self.ctx.write(o.st, 'items', o.st['items'] + Seq.of([Tup([k, v])]))
            return
        if isinstance(o, ListV):
            items = o.st['seq'].concrete()
            if items is not None and isinstance(k, int):
                items = list(items)
                try:
                    items[k] = v
                except IndexError as e:
                    raise PyRaise(IndexError, e.args)
                self.ctx.write(o.st, 'seq', Seq.of(items))
                return
        raise Unsupported('item assignment on %s' % type(o).__name__)

    def s_For(self, s, f):
        broke = []

        def body(x):
            self.assign(s.target, x, f)
            try:
                self.stmts(s.body, f)
            except FlowContinue:
                pass
        try:
            self.iterate(self.ev(s.iter, f), body)
        except FlowBreak:
            return
        self.stmts(s.orelse, f)

    def counter(self, s):
        """(the counter, the bound) of a loop `while i < bound` that adds 1 to
        the counter once in every iteration and changes nothing the bound
        depends on."""
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or s.orelse:
            return None
        a, b = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            a, b = b, a
        elif not isinstance(t.ops[0], ast.Lt):
            return None
        if not isinstance(a, ast.Name):
            return None
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'len' and \
                len(b.args) == 1 and isinstance(b.args[0], ast.Name):
            of = b.args[0].id
        elif isinstance(b, ast.Name):
            of = b.id
        else:
            return None
        steps = [j for j, x in enumerate(s.body) if isinstance(x, ast.AugAssign) and isinstance(
            x.target, ast.Name) and x.target.id == a.id and isinstance(x.op, ast.Add)
            and isinstance(x.value, ast.Constant) and x.value.value == 1]
        if len(steps) != 1:
            return None
        for j, x in enumerate(s.body):
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and (
                        n.id == of or n.id == a.id and j != steps[0]):
                    return None
                if isinstance(n, ast.Continue) and j < steps[0]:
                    return None
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.While)) and any(
                        isinstance(m, ast.Name) and m.id in (a.id, of) for m in ast.walk(n)):
                    return None
                if isinstance(n, ast.Call) and b is not t and isinstance(b, ast.Call):
                    if isinstance(n.func, ast.Attribute) and isinstance(
                            n.func.value, ast.Name) and n.func.value.id == of:
                        return None
                if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and isinstance(
                        n.value, ast.Name) and n.value.id == of:
                    return None
        return a, b

    def s_While(self, s, f):
        ab = None if self.opt.get('unwind') else self.counter(s)
        if ab is not None:
            a, b = ab
            lo, hi = self.norm(self.force(self.ev(a, f))), self.norm(self.force(self.ev(b, f)))
            if self.class_of(lo) is int and self.class_of(hi) is int:
                r = self.call(range, [lo, hi], {})

                def step(x):
                    self.assign(ast.Name(a.id, ast.Store()), x, f)
                    self.stmts(s.body, f)
                try:
                    self.iterate(r, step)
                except FlowBreak:
                    return
                x, y = self.int_term(lo), self.int_term(hi)
                self.store(f, a.id, self.norm(SI(simp(If(y > x, y, x)))))
                return
        n = 0
        while n < self.opt.get('unwind', 0):
            if not self.test(self.ev(s.test, f)):
                return self.stmts(s.orelse, f)
            n += 1
            try:
                self.stmts(s.body, f)
            except FlowContinue:
                continue
            except FlowBreak:
                return

        def body(_):
            if not self.test(self.ev(s.test, f)):
                raise FlowDone()
            self.stmts(s.body, f)
        from .loops import sym_loop
        try:
            sym_loop(self, None, lambda i: SI(i), body, endless=True)
        except FlowDone:
            self.stmts(s.orelse, f)
        except FlowBreak:
            pass

    def s_Raise(self, s, f):
        if s.exc is None:
            cur = f.vars.get('$exc')
            if cur is None:
                raise Unsupported('bare raise')
            raise cur
        v = self.force(self.ev(s.exc, f))
        if isinstance(v, ExcV):
            raise PyRaise(v.cls, v.args, v)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v, ())
        if isinstance(v, BaseException):
            raise PyRaise(type(v), v.args)
        raise Unsupported('raise of %s' % type(v).__name__)

    def s_Assert(self, s, f):
        if not self.test(self.ev(s.test, f)):
            if s.msg is not None:
                self.ev(s.msg, f)
            raise PyRaise(AssertionError, ())

    def s_Try(self, s, f):
        try:
            try:
                self.stmts(s.body, f)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ty = self.ev(h.type, f)
                        tys = self.class_list(ty)
                        match = any(issubclass(e.cls, t) for t in tys)
                    if match:
                        if h.name:
                            self.store(f, h.name, e.obj or ExcV(e.cls, e.vals))
                        old = f.vars.get('$exc')
                        f.vars['$exc'] = e
                        try:
                            self.stmts(h.body, f)
                        finally:
                            f.vars['$exc'] = old
                        break
                else:
                    raise
            else:
                self.stmts(s.orelse, f)
        except (PyRaise, FlowReturn, FlowBreak, FlowContinue):
            if s.finalbody:
                self.stmts(s.finalbody, f)
            raise
        else:
            self.stmts(s.finalbody, f)

    def class_list(self, v):
        v = self.norm(v)
        if isinstance(v, type):
            return [v]
        if isinstance(v, Tup):
            out = []
            for x in v.seq.concrete() or ():
                out += self.class_list(x)
            return out
        if isinstance(v, tuple):
            return [y for x in v for y in self.class_list(x)]
        raise Unsupported('class expected')

    def s_Import(self, s, f):
        for a in s.names:
            import importlib
            m = importlib.import_module(a.name)
            if a.asname:
                self.store(f, a.asname, m)
            else:
                self.store(f, a.name.split('.')[0],
                           importlib.import_module(a.name.split('.')[0]))

    def s_ImportFrom(self, s, f):
        import importlib
        pkg = f.globals.get('__package__') or f.globals.get('__name__', '').rpartition('.')[0]
        name = ('.' * s.level) + (s.module or '')
        m = importlib.import_module(name, pkg) if s.level else importlib.import_module(s.module)
        for a in s.names:
            try:
                x = getattr(m, a.name)
            except AttributeError:
                x = importlib.import_module(m.__name__ + '.' + a.name)
            self.store(f, a.asname or a.name, self.wrap(x))

    def s_FunctionDef(self, s, f):
        if s.decorator_list:
            raise Unsupported('decorated inner function')
        self.store(f, s.name, self.make_closure(s, f))

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.ctx.delete(f.vars, t.id)
            else:
                raise Unsupported('del')

    def s_Global(self, s, f):
        raise Unsupported('global')

    def s_Nonlocal(self, s, f):
        raise Unsupported('nonlocal')

    def make_closure(self, node, f):
        d = [self.ev(x, f) for x in node.args.defaults]
        kd = {a.arg: self.ev(x, f) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults)
              if x is not None}
        return Closure(node, f, d, kd)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, f):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        name = e.id
        fr = f
        first = True
        while fr is not None:
            if name in fr.vars:
                v = fr.vars[name]
                if isinstance(v, MaybeUnbound):
                    v = self.force(v)
                return v
            if first and name in fr.locals and not isinstance(fr.locals, tuple):
                raise PyRaise(UnboundLocalError, (name,))
            if name in fr.cells:
                return self.wrap(fr.cells[name].cell_contents)
            first = False
            if fr.parent is None:
                break
            fr = fr.parent
        g = fr.globals
        if name in g:
            return self.wrap(g[name])
        h = self.prims['names'].get(name)
        if h is not None:
            return h
        if hasattr(_b, name):
            return getattr(_b, name)
        raise PyRaise(NameError, (name,))

    def e_Tuple(self, e, f):
        return Tup(self.display(e.elts, f))

    def e_List(self, e, f):
        return ListV(seq=self.display(e.elts, f))

    def display(self, elts, f):
        seq = Seq()
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = seq + self.to_seq(self.ev(x.value, f))
            else:
                seq = seq + Seq.of([self.ev(x, f)])
        return seq

    def e_Set(self, e, f):
        if self.opt.get('sets'):
            return maps.set_of(self, Tup(self.display(e.elts, f)))
        return SetV(seq=self.display(e.elts, f))

    def e_Dict(self, e, f):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('** in a dict display')
            items.append(Tup([self.ev(k, f), self.ev(v, f)]))
        if self.opt.get('dicts'):
            d = maps.empty(self, 'dict')
            for kv in items:
                maps.setitem(self, d, *kv.seq.concrete())
            return d
        return DictV(items=Seq.of(items))

    def e_Lambda(self, e, f):
        return self.make_closure(e, f)

    def e_IfExp(self, e, f):
        if self.test(self.ev(e.test, f)):
            return self.ev(e.body, f)
        return self.ev(e.orelse, f)

    def e_NamedExpr(self, e, f):
        v = self.ev(e.value, f)
        self.assign(e.target, v, f)
        return v

    def e_BoolOp(self, e, f):
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, f)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if is_and and not t:
                return v if not isinstance(v, SB) else False
            if not is_and and t:
                return v if not isinstance(v, SB) else True

    def e_UnaryOp(self, e, f):
        v = self.ev(e.operand, f)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return SB(simp(Not(t)))
        v = self.norm(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (SI, SB)):
                return SI(-self.int_term(v))
            if not isinstance(v, Val):
                return -v
        if isinstance(e.op, ast.UAdd) and isinstance(v, SI):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, f):
        return self.binop(e.op, self.ev(e.left, f), self.ev(e.right, f))

    def binop(self, op, a, b):
        a, b = self.norm(self.force(a)), self.norm(self.force(b))
        h = self.prims['binop']
        return h(self, op, a, b)

    def e_Compare(self, e, f):
        left = self.ev(e.left, f)
        result = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, f)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            result = c
            if not self.test(c):
                return False
            left = right
        return result

    def compare(self, op, a, b):
        return self.prims['compare'](self, op, a, b)

    def e_Attribute(self, e, f):
        return self.getattr(self.ev(e.value, f), e.attr)

    def e_Subscript(self, e, f):
        return self.getitem(self.ev(e.value, f), self.ev(e.slice, f))

    def e_Slice(self, e, f):
        return SliceV(*[None if x is None else self.ev(x, f)
                        for x in (e.lower, e.upper, e.step)])

    def getitem(self, o, k):
        return self.prims['getitem'](self, o, k)

    def e_Call(self, e, f):
        fn = self.ev(e.func, f)
        if isinstance(fn, Prim) and fn.name == 'super' and not e.args:
            first = f
            while first.parent is not None:
                first = first.parent
            cls = first.self_cls
            return SuperV(cls, first.vars[first.first])
        if 'callables' in self.opt:
            g = self.norm(self.force(fn))
            if isinstance(g, SV):
                return self.unknown_call(g, e, f)
        args, kwargs = [], {}
        varseq = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.to_seq(self.ev(a.value, f))
                c = s.concrete()
                if varseq is None and c is not None:
                    args.extend(c)
                else:
                    varseq = s if varseq is None else varseq + s
            else:
                v = self.ev(a, f)
                if varseq is None:
                    args.append(v)
                else:
                    varseq = varseq + Seq.of([v])
        for k in e.keywords:
            v = self.ev(k.value, f)
            if k.arg is None:
                if isinstance(v, DictV):
                    items = v.st['items'].concrete()
                    if items is None:
                        raise Unsupported('** of a symbolic dict')
                    for kv in items:
                        kk, vv = kv.seq.concrete()
                        if kk in kwargs:
                            raise PyRaise(TypeError, ('multiple values',))
                        kwargs[kk] = vv
                elif isinstance(v, dict):
                    kwargs.update({kk: self.wrap(vv) for kk, vv in v.items()})
                else:
                    raise Unsupported('** of a value')
            else:
                if k.arg in kwargs:
                    raise PyRaise(TypeError, ('multiple values',))
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs, varseq)

    def unknown_call(self, g, e, f):
        """A function that is only known by name: what it gives is a function
        of its arguments, or it raises."""
        shape, vals = '', []
        for a in e.args:
            star = isinstance(a, ast.Starred)
            shape += 's' if star else 'p'
            vals.append(self.box(self.norm(self.force(self.ev(a.value if star else a, f)))))
        for k in e.keywords:
            if k.arg is not None:
                raise Unsupported('keyword arguments of an unknown function')
            shape += 'k'
            vals.append(self.box(self.norm(self.force(self.ev(k.value, f)))))
        sorts = ['V'] * (len(vals) + 1)
        bad = self.w.fn('call_fails_' + shape, *(sorts + ['Bool']))(self.box(g), *vals)
        exc = self.opt.get('unknown_raises', Exception)
        if self.ctx.choose([('ok', Not(bad)), (exc, bad)]) != 'ok':
            raise PyRaise(exc, ())
        r = self.w.fn('call_' + shape, *(sorts + ['V']))(self.box(g), *vals)
        self.opt['callables'](self, r)
        return self.norm(SV(r))

    def comp_iter(self, gens, f, emit):
        def run(i):
            if i == len(gens):
                emit()
                return
            g = gens[i]

            def body(x):
                self.assign(g.target, x, f)
                for c in g.ifs:
                    if not self.test(self.ev(c, f)):
                        return
                run(i + 1)
            self.iterate(self.ev(g.iter, f) if i else self.first_iter, body)
        run(0)

    def comp_frame(self, f):
        fr = Frame(f.globals, f, f.fn, f.self_cls)
        fr.locals = ()
        return fr

    def e_ListComp(self, e, f):
        acc = ListV(seq=Seq())
        self.run_comp(e, f, lambda fr: self.ctx.write(
            acc.st, 'seq', acc.st['seq'] + Seq.of([self.ev(e.elt, fr)])))
        return acc

    def e_SetComp(self, e, f):
        if self.opt.get('sets'):
            acc = maps.empty(self, 'set')
            self.run_comp(e, f, lambda fr: maps.add(acc, self, [self.ev(e.elt, fr)], {}))
            return acc
        acc = SetV(seq=Seq())
        self.run_comp(e, f, lambda fr: self.ctx.write(
            acc.st, 'seq', acc.st['seq'] + Seq.of([self.ev(e.elt, fr)])))
        return acc

    def e_DictComp(self, e, f):
        if self.opt.get('dicts'):
            acc = maps.empty(self, 'dict')
            self.run_comp(e, f, lambda fr: maps.setitem(
                self, acc, self.ev(e.key, fr), self.ev(e.value, fr)))
            return acc
        acc = DictV(items=Seq())
        self.run_comp(e, f, lambda fr: self.ctx.write(
            acc.st, 'items', acc.st['items'] + Seq.of(
                [Tup([self.ev(e.key, fr), self.ev(e.value, fr)])])))
        return acc

    def e_GeneratorExp(self, e, f):
        first = self.ev(e.generators[0].iter, f)

        def drive(body):
            self.run_comp(e, f, lambda fr: body(self.ev(e.elt, fr)), first)
        return IterV(drive)

    def run_comp(self, e, f, emit, first=_UNSET):
        fr = self.comp_frame(f)
        gens = e.generators
        if first is _UNSET:
            first = self.ev(gens[0].iter, f)

        def run(i):
            if i == len(gens):
                emit(fr)
                return
            g = gens[i]

            def body(x):
                self.assign(g.target, x, fr)
                for c in g.ifs:
                    if not self.test(self.ev(c, fr)):
                        return
                run(i + 1)
            self.iterate(first if i == 0 else self.ev(g.iter, fr), body)
        run(0)

    def e_JoinedStr(self, e, f):
        pieces, args, plain = [''], [], True
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                args.append(self.ev(v.value, f))
                pieces.append('')
                plain = plain and v.format_spec is None and v.conversion in (-1, 115)
            else:
                pieces[-1] += v.value
        return self.prims['text'](self, pieces, args) if plain else Opaque('fstring')

    def e_Starred(self, e, f):
        raise Unsupported('starred expression')


class _Foreign:
    """Stands for the class of a foreign object in dispatch."""


class _Id:
    """Compare by identity."""
    __slots__ = 'x',

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, _Id) and self.x is other.x

    def __hash__(self):
        return id(self.x)


PRIMS = (int, bool, str, type(None), tuple, list, dict, set, type, slice)
MUTATORS = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add',
            'discard', 'setdefault', 'sort', 'reverse', '__setitem__', '__delitem__', 'popitem')


def own_nodes(node):
    """The nodes of a function without those of functions inside it."""
    todo = list(node.body) if isinstance(node, ast.FunctionDef) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _hashable(k):
    return k


def _callkey(f):
    try:
        hash(f)
        return f
    except TypeError:
        return None


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


def _has_direct(t, i):
    """Does an uninterpreted application in t have exactly i as argument?"""
    if z3.is_app(t):
        for a in t.children():
            if a.eq(i) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return True
            if _has_direct(a, i):
                return True
    return False


def _has_if(t):
    if z3.is_quantifier(t):
        return True
    return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(map(_has_if, t.children())))


def _has_arith_on(t, i):
    """Is i an operand of something else than an uninterpreted function?"""
    if z3.is_app(t):
        for a in t.children():
            if a.eq(i) and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return True
            if _has_arith_on(a, i):
                return True
    return False


def _contains(t, x):
    if t.eq(x):
        return True
    return any(_contains(a, x) for a in t.children())


def _mentions_fresh(t, k, interp):
    """A term over symbols older than k, and k itself?"""
    kn = int(k.decl().name().rsplit('!', 1)[1])
    if z3.is_app(t):
        n = t.decl().name()
        if '!' in n:
            try:
                if int(n.rsplit('!', 1)[1]) > kn:
                    return True
            except ValueError:
                pass
        return any(_mentions_fresh(a, k, interp) for a in t.children())
    return False
