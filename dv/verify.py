"""Verification of one function against its contract, and of lemmas."""
import os
import time
import traceback
import types
import z3
from . import smt
from .smt import And, Or, Not, Implies, BoolVal, IntVal, simp, is_true, is_false
from .values import *
from .ctx import Ctx, Stats, SLOW
from .interp import Interp, FLOWS
from .spec import Sym
from .contract import Args, Contract
from .universe import static_lookup


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'
        self.obligations = []       # (name, status, backend, seconds)
        self.reason = None
        self.paths = 0
        self.covered = 0            # paths whose assumptions are not refuted
        self.time = 0.0
        self.solver_time = 0.0
        self.inlined = []
        self.contracts = []
        self.trusted = []
        self.failed = []            # dicts describing failed obligations

    def as_dict(self):
        return dict(self.__dict__)


def pieces(f, hyps=(), depth=0):
    """[(hypotheses, goal)] that together give f."""
    if is_true(f):
        return []
    if z3.is_quantifier(f) and f.is_forall() and depth < 12:
        vs = [z3.FreshConst(f.var_sort(i), 'sk') for i in range(f.num_vars())]
        return pieces(z3.substitute_vars(f.body(), *reversed(vs)), hyps, depth + 1)
    if z3.is_app(f) and depth < 12:
        k = f.decl().kind()
        if k == z3.Z3_OP_AND:
            return [p for c in f.children() for p in pieces(c, hyps, depth + 1)]
        if k == z3.Z3_OP_IMPLIES:
            return pieces(f.arg(1), hyps + (f.arg(0),), depth + 1)
        if k == z3.Z3_OP_ITE and z3.is_bool(f):
            c, x, y = f.children()
            return pieces(x, hyps + (c,), depth + 1) + pieces(y, hyps + (Not(c),), depth + 1)
        if k == z3.Z3_OP_OR:
            cs = f.children()
            # one disjunct that can be split further, the others as hypotheses
            for i, c in enumerate(cs):
                if z3.is_quantifier(c) and c.is_forall() or z3.is_app(c) and c.decl().kind() in (
                        z3.Z3_OP_AND, z3.Z3_OP_ITE):
                    rest = tuple(Not(d) for j, d in enumerate(cs) if j != i)
                    return pieces(c, hyps + rest, depth + 1)
        if k == z3.Z3_OP_NOT:
            g = f.arg(0)
            if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_OR:
                return [p for c in g.children() for p in pieces(Not(c), hyps, depth + 1)]
            if z3.is_quantifier(g) and g.is_exists():
                vs = [z3.FreshConst(g.var_sort(i), 'sk') for i in range(g.num_vars())]
                return pieces(Not(z3.substitute_vars(g.body(), *reversed(vs))), hyps, depth + 1)
            if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_NOT:
                return pieces(g.arg(0), hyps, depth + 1)
    return [(hyps, f)]


FRESH = [({'mbqi': False, 'fresh': True, 'seed': n}, 400 - 200 * n) for n in range(2)]
CONFIGS = (({'mbqi': False, 'auto_config': False}, 300),
           FRESH[0], FRESH[1],
           ({'mbqi': False, 'auto_config': False, 'qi.eager_threshold': 100.0}, 300),
           ({'mbqi': True}, 400))


def prove(ctx, f, timeout, res=None, quick=False, seeds=0):
    """(status, backend) of an obligation under the current assumptions."""
    f = simp(f) if not isinstance(f, bool) else BoolVal(f)
    if is_true(f):
        return 'proved', 'simplifier'
    ctx.sync()
    asserts = list(ctx.solver.assertions())
    st = 'unknown'
    if seeds:
        # of many short tries one is lucky
        st = prove1(ctx, asserts, (), f, timeout, [
            ({'mbqi': False, 'fresh': True, 'seed': n}, 100) for n in range(seeds)])
    if st == 'unknown':
        st = prove1(ctx, asserts, (), f, timeout, CONFIGS[:1])
    if st == 'unknown' and not quick:
        st = prove1(ctx, asserts, (), f, timeout, FRESH[:1])
    if st != 'unknown':
        return st, 'z3'
    ps = pieces(f)
    if len(ps) == 1 and not ps[0][0]:
        return 'unknown' if quick else prove1(ctx, asserts, (), f, timeout, CONFIGS[1:]), 'z3'
    for hyps, g in ps:
        st = prove1(ctx, asserts, hyps, g, timeout, CONFIGS[:1] if quick else CONFIGS)
        if st != 'proved':
            if os.environ.get('DV_PIECES') and not quick:
                print('PIECE', st, [str(h)[:300] for h in hyps], str(g)[:600], flush=True)
            return st, 'z3'
    return 'proved', 'z3'


def prove1(ctx, asserts, hyps, f, timeout, configs):
    for cfg, ms in configs:
        s = z3.Solver()
        if cfg.get('fresh'):
            # in a context of its own: what was done before does not matter
            s.add(*asserts)
            s.add(*hyps)
            s.add(Not(f))
            t, s = s.to_smt2(), z3.Solver(ctx=z3.Context())
            s.set('timeout', int(ms * timeout))
            s.set('mbqi', cfg['mbqi'])
            s.set('random_seed', cfg['seed'])
            s.from_string(t)
            if s.check() == z3.unsat:
                return 'proved'
            continue
        s.set('timeout', int(ms * timeout))
        for k, v in cfg.items():
            try:
                s.set(k, v)
            except z3.Z3Exception:
                pass
        s.add(*asserts)
        s.add(*hyps)
        s.add(Not(f))
        r = s.check()
        if r == z3.unsat:
            return 'proved'
        if r == z3.sat:
            ctx.last_model = s.model()
            return 'refuted'
    return 'unknown'


def cvc5_check(asserts, goal, timeout):
    import subprocess
    import tempfile
    s = z3.Solver()
    s.add(*asserts)
    s.add(Not(goal))
    text = '(set-logic ALL)\n' + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as fh:
            fh.write(text)
        out = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), path],
                             capture_output=True, text=True, timeout=timeout + 5)
        return out.stdout.strip().splitlines()[0] if out.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(path)


def exc_name(k):
    return ' or '.join(x.__name__ for x in (k if isinstance(k, tuple) else (k,)))


class Unit:
    """A function under verification."""

    def __init__(self, contract, theory, registry, universe):
        self.c, self.theory, self.registry, self.u = contract, theory, registry, universe

    def run(self, time_limit=60.0, ob_timeout=10.0):
        c = self.c
        res = Result(c.name)
        t0 = time.time()
        if c.fn is None:
            res.status, res.reason = 'unsupported', c.missing
            return res
        deadline = t0 + time_limit
        stats = Stats()
        if c.defaults is not None:
            live = c.signature()[3]
            for k, v in c.defaults.items():
                ok = k in live and type(live[k]) is type(v) and live[k] == v
                res.obligations.append(('default of ' + k, 'proved' if ok else 'refuted', 'evaluation', 0.0))
                if not ok:
                    res.failed.append({'obligation': '%s: default of %s' % (c.name, k), 'status': 'refuted',
                                       'path': [], 'formula': '%r, not %r' % (live.get(k), v)})
        try:
            self.explore(res, stats, deadline, ob_timeout)
        except Enough:
            res.status, res.reason = 'failed', 'many failed obligations'
        except Unsupported as e:
            res.status = 'unsupported'
            res.reason = str(e)
            if os.environ.get('DV_TRACE'):
                traceback.print_exc()
        except RecursionError:
            res.status, res.reason = 'unsupported', 'recursion limit of the interpreter'
            if os.environ.get('DV_TRACE'):
                traceback.print_exc(limit=-30)
        except z3.Z3Exception as e:
            res.status, res.reason = 'unsupported', 'z3: %s' % e
            if os.environ.get('DV_TRACE'):
                traceback.print_exc()
        except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError) as e:
            res.status, res.reason = 'unsupported', 'internal: %s: %s' % (type(e).__name__, e)
            if os.environ.get('DV_TRACE'):
                traceback.print_exc()
        if res.status == 'proved':
            if res.failed:
                res.status = 'failed'
            elif not res.covered:
                res.status, res.reason = 'failed', 'vacuous: no path is feasible'
        res.paths = stats.paths
        res.time = time.time() - t0
        res.solver_time = stats.time
        return res

    def setup(self, ctx, res, ob_timeout):
        c = self.c
        opts = dict(c.opts)
        opts['top'] = c.fn
        opts['class_inv'] = getattr(self.theory, 'class_inv', None)
        opts.setdefault('eq_hook', getattr(self.theory, 'eq_hook', None))
        seen = set()

        def oblige(I, name, f):
            if I.opt.get('quiet'):
                return
            t = time.time()
            st, be = prove(I.ctx, f, ob_timeout, seeds=c.opts.get('seeds', 0))
            dt = time.time() - t
            if SLOW and dt > 0.35:
                print('SLOW %.1f %s %s %s' % (dt, st, be, name), flush=True)
            I.ctx.stats.time += dt
            key = (name, str(f)[:200])
            res.obligations.append((name, st, be, round(dt, 3)))
            if st != 'proved':
                if os.environ.get('DV_DUMP'):
                    s = z3.Solver()
                    s.add(*ctx.solver.assertions())
                    s.add(Not(f))
                    with open('%s/%s_%d.smt2' % (os.environ['DV_DUMP'], c.name, len(res.failed)), 'w') as fh:
                        fh.write(s.to_smt2())
                if key not in seen:
                    seen.add(key)
                    res.failed.append({'obligation': '%s: %s' % (c.name, name), 'status': st,
                                       'path': list(ctx.dec.taken),
                                       'formula': str(simp(f))[:2000]})
                if len(res.failed) > 6:
                    raise Enough()
        opts['oblige'] = oblige

        def provable(I, f):
            t = time.time()
            st, be = prove(I.ctx, f, min(ob_timeout, c.opts.get('patience', 4)), quick=True)
            I.ctx.stats.time += time.time() - t
            if os.environ.get('DV_DUMP') and st != 'proved':
                sv = z3.Solver()
                sv.add(*I.ctx.solver.assertions())
                sv.add(z3.Not(f))
                self.nd = getattr(self, 'nd', 0) + 1
                with open('%s/inv_%s_%d.smt2' % (os.environ['DV_DUMP'], c.name, self.nd), 'w') as fh:
                    fh.write(sv.to_smt2())
            return st == 'proved'
        opts['provable'] = provable
        I = Interp(ctx, self.u, self.registry, opts)
        I.frame_ok = set(c.frame) | {'_hash'}
        return I

    def explore(self, res, stats, deadline, ob_timeout):
        c = self.c
        work = [[]]
        w = smt.World([(t, self.u.cls_of_tok[t]) for t in self.u.all_toks] + [('RAW', None)],
                      c.opts.get('strings', 'uf'))
        axioms = self.theory(w, self.u, c.opts)
        inl, con, tru = set(), set(), set()
        while work:
            prefix = work.pop()
            ctx = Ctx(w, axioms, prefix, work, stats, deadline)
            I = self.setup(ctx, res, ob_timeout)
            try:
                self.path(I, ctx, res, ob_timeout, stats)
            except PathDone:
                pass
            stats.paths += 1
            inl |= {f.__module__ + ':' + f.__qualname__ for f in I.inlined}
            con |= {k.target for k in I.used_contracts}
            tru |= I.trusted
            if len(res.failed) > 6:
                break
            if stats.paths > 3000:
                raise Unsupported('too many paths')
        res.inlined, res.contracts, res.trusted = sorted(inl), sorted(con), sorted(tru)

    def make_args(self, I):
        """Symbolic arguments: (positional values, keyword values, spec args)."""
        c, w, V, ctx = self.c, I.w, I.w.V, I.ctx
        names, vararg, kwarg, defaults = c.signature()
        vals, spec, kwargs = [], {}, {}
        for nme in names:
            if nme in c.const:
                v = I.wrap(c.const[nme])
                vals.append(v)
                spec[nme] = I.box(v)
                continue
            if nme in c.objs:
                v, spec[nme] = c.objs[nme](I)
                vals.append(v)
                continue
            t = z3.Const('arg_' + nme, V)
            spec[nme] = t
            if nme in c.kwonly:
                kwargs[nme] = SV(t)
            else:
                vals.append(SV(t))
        varseq = None
        if vararg is not None:
            r = z3.Const('arg_' + vararg, w.Ref)
            ctx.assume(And(w.rcls(r) == w.ctok['tuple'], w.tlen(r) >= 0))
            varseq = I.ref_seq(r)
            spec[vararg] = V.vr(r)
        if kwarg is not None:
            spec[kwarg] = {}
            for k in c.opts.get('kwargs', ()):
                t = z3.Const('kw_' + k, V)
                kwargs[k] = SV(t)
                spec[kwarg][k] = t
        return vals, kwargs, varseq, spec

    def path(self, I, ctx, res, ob_timeout, stats):
        c, w, V = self.c, I.w, I.w.V
        S = Sym(I)
        vals, kwargs, varseq, spec = self.make_args(I)
        fn = c.fn
        is_method = isinstance(fn, types.FunctionType) and '.' in c.name
        selfobj = None
        if c.new:
            # the object under construction: fields unknown until assigned
            classes = c.self_classes
            cls = classes[0]
            selfobj = Obj(cls)
            I.opt['raw'] = selfobj
            first = c.signature()[0][0]
            vals[0] = selfobj
            spec[first] = None
        elif c.self_classes is not None and vals:
            first = c.signature()[0][0]
            ctx.assume(I.w.is_any(spec[first], [I.u.tok[k] for k in c.self_classes
                                                if k in I.u.tok]))
        A = Args(spec)
        ctx.assume(c.requires(S, A))
        late = c.opts.get('late_facts')
        if not late:
            for f in c.facts(S, A):
                ctx.assume(f)
        if c.candidates:
            I.opt['candidates'] = [
                (lambda g: lambda I, i, v: g(S, A, i, v))(g) for g in c.candidates]
        if c.invariants:
            def about(g):
                f = lambda I, i, env: g(S, A, i, env)
                f.__name__ = g.__name__
                return f
            I.opt['invariants'] = [about(g) for g in c.invariants]
        if c.measure is not None:
            I.opt['measure'] = c.measure(S, A)
        exc, result = None, None
        try:
            if isinstance(fn, types.FunctionType):
                result = I.call_function(fn, vals, kwargs, varseq)
            else:
                result = I.call(fn, vals, kwargs, varseq)
            if isinstance(result, IterV) and not c.new:
                result = ListV(seq=I.to_seq(result))
        except PyRaise as e:
            exc = e
        # a path whose assumptions are contradictory proves everything
        r = ctx.check()
        if r == z3.unsat:
            return
        res.covered += 1
        if late:
            for f in c.facts(S, A):
                ctx.assume(f)
        oblige = I.opt['oblige']
        conds = []
        if exc is not None:
            conds = []
            prev = []
            for k, cond in c.raises:
                f = cond(S, A)
                f = BoolVal(f) if isinstance(f, bool) else f
                if issubclass(exc.cls, k):
                    conds.append(And(*(prev + [f])))
                prev.append(Not(f))
            for k, cond in c.may_raise:
                f = cond(S, A)
                if issubclass(exc.cls, k):
                    conds.append(BoolVal(f) if isinstance(f, bool) else f)
            oblige(I, 'raises %s only when specified' % exc.cls.__name__,
                   Or(*conds) if conds else BoolVal(False))
            S.raised = exc
            for nme, f in c.on_raise(S, A):
                oblige(I, nme, f if not isinstance(f, bool) else BoolVal(f))
            return
        for k, cond in c.raises:
            f = cond(S, A)
            f = BoolVal(f) if isinstance(f, bool) else f
            oblige(I, 'raises %s when specified' % exc_name(k), Not(f))
        if c.new:
            selfobj.frozen = False
            t = I.box(selfobj)
            setattr(A, c.signature()[0][0], t)
            rt = t
        else:
            result = I.norm(I.force(result))
            rt = I.box(result)
        if c.returns is not None and not c.new:
            ty = {'bool': lambda: V.is_vb(rt), 'int': lambda: V.is_vi(rt),
                  'str': lambda: V.is_vs(rt), 'none': lambda: V.is_vn(rt)}
            if c.returns in ty:
                oblige(I, 'returns a %s' % c.returns, ty[c.returns]())
            elif isinstance(c.returns, type):
                oblige(I, 'returns a %s' % c.returns.__name__,
                       w.is_tok(rt, I.u.tok[c.returns]))
        for nme, f in c.ensures(S, A, rt):
            oblige(I, nme, f if not isinstance(f, bool) else BoolVal(f))


class Enough(Exception):
    """Many failed obligations: no need to look at the others."""


class Lemma:
    """A consequence of the contracts and definitions: body(S) yields
    (name, formula) after assuming what it needs with assume(f)."""

    def __init__(self, name, body, opts=None):
        self.name, self.body, self.opts = name, body, opts or {}
        self.c = self

    def run_with(self, theory, registry, universe, time_limit=60.0, ob_timeout=10.0):
        res = Result(self.name)
        t0 = time.time()
        stats = Stats()
        try:
            w = smt.World([(t, universe.cls_of_tok[t]) for t in universe.all_toks] + [('RAW', None)],
                          self.opts.get('strings', 'uf'))
            axioms = theory(w, universe, self.opts)
            ctx = Ctx(w, axioms, [], [], stats, t0 + time_limit)
            opts = dict(self.opts)
            opts['oblige'] = lambda I, n, f: None
            I = Interp(ctx, universe, registry, opts)
            S = Sym(I)
            S.assume = ctx.assume
            S.const = lambda n, sort='V': (z3.Int(n) if sort == 'Int' else
                                           z3.Const(n, w.V if sort == 'V' else w.Ref))
            S.push = ctx.solver.push

            def pop():
                ctx.solver.pop()
                ctx.nlits = -1
            S.pop = pop
            for nme, f in self.body(S):
                t = time.time()
                st, be = prove(ctx, f, ob_timeout)
                dt = time.time() - t
                stats.time += dt
                res.obligations.append((nme, st, be, round(dt, 3)))
                if st != 'proved':
                    res.failed.append({'obligation': '%s: %s' % (self.name, nme), 'status': st,
                                       'path': [], 'formula': str(simp(f))[:2000]})
            res.covered = 1
            if ctx.check() == z3.unsat:
                res.covered = 0
        except Unsupported as e:
            res.status, res.reason = 'unsupported', str(e)
        except Exception as e:
            res.status, res.reason = 'unsupported', 'internal: %s: %s' % (type(e).__name__, e)
            if os.environ.get('DV_TRACE'):
                traceback.print_exc()
        if res.status == 'proved':
            if res.failed:
                res.status = 'failed'
            elif not res.covered:
                res.status, res.reason = 'failed', 'vacuous: the hypotheses are contradictory'
        res.paths = 1
        res.time = time.time() - t0
        res.solver_time = stats.time
        return res
