"""Contracts on the functions of the library, and the registry of them."""
import collections
import datetime
import importlib
import inspect
import types
import z3
from .smt import And, Or, Not, BoolVal, IntVal, simp
from .values import *
from .spec import Sym
from .universe import static_lookup


class Args:
    """The arguments of a call, by parameter name."""

    def __init__(self, d):
        self.__dict__.update(d)


def resolve(target):
    mod, _, qual = target.partition(':')
    qual, _, cls = qual.partition('@')      # (the implementation for a class)
    m = importlib.import_module(mod)
    o = m
    for p in qual.split('.'):
        if isinstance(o, type):
            for k in o.__mro__:
                if p in k.__dict__:
                    o = k.__dict__[p]
                    break
            else:
                raise LookupError('%s has no %s' % (target, p))
        else:
            if not hasattr(o, p):
                raise LookupError('%s has no %s' % (target, p))
            o = getattr(o, p)
    if cls:
        o = o.dispatch(eval(cls, {'datetime': datetime, 'collections': collections,
                                  'types': types, 'numpy': __import__('numpy')}))
    if isinstance(o, property):
        o = o.fget
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    return o


class Contract:
    """requires/raises/ensures of one function of the library.

    raises: list of (exception class, condition): the function raises it
    exactly when the condition holds (conditions are tried in order).
    may_raise: list of (exception class, condition): it raises it only when
    the condition holds.
    """

    def __init__(self, target, requires=None, ensures=None, raises=(), may_raise=(),
                 returns=None, self_classes=None, params=None, new=False, note='',
                 assumed=False, decreases=None, opts=None, frame=(), alloc=False,
                 props=(), slow=1.0, lemma=None, facts=None,
                 candidates=(), when=None, const=None, defaults=None, unfold=False, objs=None,
                 on_raise=None, kwonly=None, invariants=(),
                 view=None, effect=None, measure=None, defs=None, fails=None):
        self.fails = fails          # for callers: (class, condition): it raises exactly then
        self.target = target
        self.requires = requires or (lambda S, a: True)
        self.ensures = ensures or (lambda S, a, r: [])
        self.raises = list(raises)
        self.may_raise = list(may_raise)
        self.returns = returns
        self.self_classes = self_classes
        self.params = params
        self.new = new              # a constructor: `self` is made by the call
        self.note = note
        self.assumed = assumed
        self.decreases = decreases
        self.opts = opts or {}
        self.frame = frame
        self.fn = None
        self.missing = None
        self.alloc = alloc
        self.props = props          # the properties it is part of
        self.slow = slow
        self.lemma = lemma
        # definitions of the vocabulary, unfolded for the arguments
        self.facts = facts or (lambda S, a: [])
        self.when = when            # use it only for such arguments, else the body
        self.unfold = unfold        # assume the facts at its calls as well
        self.defaults = defaults    # the values of omitted arguments
        self.kwonly = kwonly or {}  # (of a dispatched function) keywords: defaults
        self.objs = objs or {}      # parameters that are objects of other classes
        self.on_raise = on_raise or (lambda S, a: [])     # ensured when it raises
        # of calls on objects that are changed: what the specification sees of
        # the object, and the change (giving the result)
        self.view = view
        self.effect = effect
        self.measure = measure      # decreases with every call between such functions
        # definitions of the vocabulary, unfolded for the arguments and the result
        self.defs = defs or (lambda S, a, r: [])
        self.const = const or {}    # parameters it is about one value of
        # candidate loop invariants: f(S, a, k, v) about an accumulator v
        self.candidates = list(candidates)
        # and f(S, a, k, env) about all that the loop changes
        self.invariants = list(invariants)

    @property
    def name(self):
        return self.target.partition(':')[2]

    def applies(self, I, args, kwargs):
        if self.target.partition(':')[2] in I.opt.get('inline', ()) and I.opt.get('top') is not self.fn:
            return False
        if self.const:
            names = self.signature()[0]
            for nme, v in self.const.items():
                i = names.index(nme)
                try:
                    x = I.conc(args[i]) if i < len(args) else I.conc(kwargs[nme])
                except KeyError:
                    return False
                if not (x is v or type(x) is type(v) is tuple and len(x) == len(v) and all(
                        y is z for y, z in zip(x, v))):
                    return False
        return self.when is None or self.when(I, args)

    def bind_live(self):
        try:
            self.fn = resolve(self.target)
        except LookupError as e:
            self.missing = str(e)
        return self.fn

    def signature(self):
        """(names, vararg, kwarg, defaults) of the live function."""
        f = self.fn
        if type(f).__name__ == 'Dispatcher':
            return list(self.params) + list(self.kwonly), None, None, dict(self.kwonly)
        code = f.__code__
        n = code.co_argcount
        names = list(code.co_varnames[:n])
        nk = code.co_kwonlyargcount
        pos = n + nk
        vararg = kwarg = None
        if code.co_flags & 4:
            vararg = code.co_varnames[pos]
            pos += 1
        if code.co_flags & 8:
            kwarg = code.co_varnames[pos]
        d = f.__defaults__ or ()
        defaults = dict(zip(names[n - len(d):], d))
        for k in code.co_varnames[n:n + nk]:
            names.append(k)
            if f.__kwdefaults__ and k in f.__kwdefaults__:
                defaults[k] = f.__kwdefaults__[k]
        return names, vararg, kwarg, defaults

    # ------------------------------------------------------------ at a call site
    def at_call(self, I, args, kwargs, varseq=None, new=None):
        ctx = I.ctx
        S = Sym(I)
        names, vararg, kwarg, defaults = self.signature()
        a = {}
        args = list(args)
        res = None
        if new is not None:
            r = ctx.fresh('new_' + new.__name__, I.w.Ref)
            res = I.w.V.vr(r)
            ctx.assume(I.w.rcls(r) == I.w.ctok[I.u.tok[new]])
            args = [SV(res)] + args
        while varseq is not None and len(args) < len(names):
            n = I.seq_len_term(varseq)
            if ctx.branch(n > 0):
                args.append(I.seq_item(varseq, IntVal(0)))
                varseq = I.seq_slice(varseq, SliceV(1, None, None))
                if varseq.concrete() == []:
                    varseq = None
            else:
                varseq = None
        for i, nme in enumerate(names):
            box = I.box
            if nme in self.opts.get('iterables', ()):
                # (it is read once, in order)
                box = lambda v: I.box(ListV(seq=I.to_seq(v)) if isinstance(v, IterV) else v)
            if self.view is not None and nme in self.objs:
                box = lambda v, nme=nme: self.view(I, nme, v)
            if i < len(args):
                if nme in kwargs:
                    raise PyRaise(TypeError, ('multiple values',))
                a[nme] = box(args[i])
            elif nme in kwargs:
                a[nme] = box(kwargs[nme])
            elif nme in defaults:
                a[nme] = I.box(I.wrap(defaults[nme]))
            else:
                raise PyRaise(TypeError, ('missing argument',))
        extra = args[len(names):]
        if vararg is not None:
            seq = Seq.of(extra)
            if varseq is not None:
                seq = seq + varseq
            a[vararg] = I.box(Tup(seq))
        elif extra or varseq is not None and ctx.branch(I.seq_len_term(varseq) > 0):
            raise PyRaise(TypeError, ('too many arguments',))
        rest = {k: v for k, v in kwargs.items() if k not in names}
        if rest:
            if kwarg is None:
                raise PyRaise(TypeError, ('unexpected keyword',))
        if kwarg is not None:
            a[kwarg] = {k: I.box(v) for k, v in rest.items()}
        A = Args(a)
        who = self.name
        if self.self_classes is not None and not self.new and names:
            I.oblige('class of the receiver of %s' % who, I.w.is_any(
                a[names[0]], [I.u.tok[k] for k in self.self_classes if k in I.u.tok]))
        pre = self.requires(S, A)
        I.oblige('precondition of %s' % who, pre if not isinstance(pre, bool) else BoolVal(pre))
        ctx.assume(pre)
        if self.measure is not None and I.opt.get('measure'):
            x, y = I.opt['measure'], self.measure(S, A)
            I.oblige('%s is called for less' % who, And(y[0] >= 0, Or(
                y[0] < x[0], And(y[0] == x[0], y[1] < x[1]))))
        if self.unfold:
            for f in self.facts(S, A):
                ctx.assume(f)
        options = []
        neg = []
        for exc, cond in self.raises if self.fails is None else ():
            c = cond(S, A)
            c = BoolVal(c) if isinstance(c, bool) else c
            for e in exc if isinstance(exc, tuple) else (exc,):
                options.append((e, And(*(neg + [c]))))
            neg.append(Not(c))
        if self.fails is not None:
            exc, cond = self.fails
            options, neg = [(exc, cond(S, A))], [Not(cond(S, A))]
        for exc, cond in self.may_raise if self.fails is None else ():
            c = cond(S, A)
            c = BoolVal(c) if isinstance(c, bool) else c
            for e in exc if isinstance(exc, tuple) else (exc,):
                options.append((e, And(*(neg + [c]))))
        options = [('ok', And(*neg) if neg else BoolVal(True))] + options
        pick = ctx.choose(options)
        if pick != 'ok':
            raise PyRaise(pick, ())
        if self.effect is not None:
            return self.effect(I, S, A)
        if res is None:
            res = self.fresh_result(I)
        hidden = self.opts.get('hidden', ())
        for nme, f in self.ensures(S, A, res):
            if nme in hidden:
                continue
            ctx.assume(f if not isinstance(f, bool) else BoolVal(f))
        return I.norm(SV(res))

    def fresh_result(self, I):
        w, V = I.w, I.w.V
        ret = self.returns
        base = 'res_' + self.name.replace('.', '_').replace('__', '')
        if ret == 'bool':
            return V.vb(I.ctx.fresh(base, z3.BoolSort()))
        if ret == 'int':
            return V.vi(I.ctx.fresh(base, z3.IntSort()))
        if ret == 'str':
            return V.vs(I.ctx.fresh(base, w.Str))
        if ret == 'none':
            return V.vn
        if isinstance(ret, type):
            r = I.ctx.fresh(base, w.Ref)
            I.ctx.assume(w.rcls(r) == w.ctok[I.u.tok[ret]])
            return V.vr(r)
        return I.ctx.fresh(base, V)


class Registry:
    def __init__(self):
        self.all = []
        self.by_fn = {}

    def add(self, c):
        self.all.append(c)
        f = c.bind_live()
        if f is not None and c.lemma is None:
            self.by_fn.setdefault(f, []).append(c)
        return c

    def get(self, fn, I, args, kwargs):
        try:
            cs = self.by_fn.get(fn, ())
        except TypeError:
            return None
        for c in cs:
            if c.applies(I, args, kwargs):
                return c
        return None
