"""One path of the symbolic execution: assumptions, decisions, journal."""
import os
import time
import z3
from .smt import And, Or, Not, is_true, is_false, simp
from .values import PathDone, Unsupported, MISSING
from .maps import View


SLOW = os.environ.get('DV_SLOW')


class Dec:
    def __init__(self, prefix, work):
        self.prefix, self.work, self.taken = prefix, work, []

    def replay(self):
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.taken.append(c)
            return c
        return None


class Stats:
    def __init__(self):
        self.checks = 0
        self.time = 0.0
        self.paths = 0
        self.branches = 0


class Tracked:
    """A solver that keeps what was asserted (z3 returns it preprocessed)."""

    def __init__(self):
        self.s = z3.Solver()
        self.set = self.s.set
        self.check = self.s.check
        self.kept, self.marks = [], []

    def add(self, *fs):
        self.s.add(*fs)
        self.kept.extend(fs)

    def push(self):
        self.s.push()
        self.marks.append(len(self.kept))

    def pop(self):
        self.s.pop()
        del self.kept[self.marks.pop():]

    def assertions(self):
        return list(self.kept)

    def __getattr__(self, n):
        return getattr(self.s, n)


class Ctx:
    def __init__(self, world, axioms, prefix, work, stats, deadline, feas_ms=400):
        self.w = world
        self.solver = Tracked()
        self.solver.set('auto_config', False)
        self.solver.set('mbqi', False)
        self.feas_ms = feas_ms
        self.solver.set('timeout', feas_ms)
        for a in axioms:
            self.solver.add(a)
        self.axioms = axioms
        self.dec = Dec(prefix, work)
        self.log = []
        self.journal = []
        self.idx = []
        self.loops = []       # the indices of the enclosing loops, or of their last iteration          # generic loop indices in scope (z3 consts)
        self.stats = stats
        self.deadline = deadline
        self.counter = 0
        self.nlits = 0
        self.depth = 0
        self.sums = []
        self.classes = {}       # term id -> (term, classes it may have)
        self.tests = {}         # id of a class test -> (test, term, classes)
        self.nofork = 0         # in the description of a generic item

    # -- fresh symbols, functions of the generic indices in scope
    def fresh_name(self, name):
        self.counter += 1
        return '%s!%d' % (name, self.counter)

    def fresh(self, name, sort):
        n = self.fresh_name(name)
        if not self.idx:
            return z3.Const(n, sort)
        f = z3.Function(n, *([z3.IntSort()] * len(self.idx) + [sort]))
        return f(*self.idx)

    def fresh_fn(self, name, *sorts):
        n = self.fresh_name(name)
        idx = list(self.idx)
        f = z3.Function(n, *([z3.IntSort()] * len(idx) + list(sorts)))
        return lambda *a: f(*(idx + list(a)))

    # -- assumptions
    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if is_true(f):
            return
        self.sync()
        self.solver.add(f)
        self.log.append(f)
        if is_false(simp(f)):
            raise PathDone()

    def sync(self):
        w = self.w
        if len(w.strlits) + len(w.globals) != self.nlits:
            self.nlits = len(w.strlits) + len(w.globals)
            for f in w.str_lit_facts():
                self.solver.add(f)

    def check(self, *conds):
        if time.time() > self.deadline:
            raise Unsupported('time limit of the unit')
        self.sync()
        t = time.time()
        r = self.solver.check(*conds)
        self.stats.checks += 1
        self.stats.time += time.time() - t
        if SLOW and time.time() - t > 0.35:
            import traceback
            print('SLOW %.1f %s' % (time.time() - t, str(conds)[:150].replace('\n', ' ')),
                  [f.name for f in traceback.extract_stack(limit=7)], flush=True)
        return r

    def feasible(self, cond):
        return self.check(cond) != z3.unsat

    def entails(self, f):
        """Cheap entailment test (False when not known)."""
        f = simp(f)
        if is_true(f):
            return True
        if is_false(f):
            return False
        return self.check(Not(f)) == z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        test = self.class_test(cond)
        if test is not None:
            sense, t, toks = test
            have = self.may_be(t)
            if have is not None:
                if have <= toks:
                    return sense
                if not have & toks:
                    return not sense
        d = self.branch1(cond)
        if test is not None:
            self.restrict(t, toks, d == sense)
        return d

    # -- what is known of the classes of values
    def class_test(self, cond):
        sense = True
        while z3.is_not(cond):
            sense, cond = not sense, cond.arg(0)
        e = self.tests.get(cond.get_id())
        if e is None or not e[0].eq(cond):
            return None
        return sense, e[1], e[2]

    def may_be(self, t):
        e = self.classes.get(t.get_id())
        return e[1] if e is not None and e[0].eq(t) else None

    def restrict(self, t, toks, inside=True):
        have = self.may_be(t)
        if have is None:
            have = self.all_toks
        new = have & toks if inside else have - toks
        self.write(self.classes, t.get_id(), (t, new))

    def branch1(self, cond):
        self.stats.branches += 1
        d = self.dec.replay()
        if d is None:
            t = self.feasible(cond)
            f = self.feasible(Not(cond)) if t else True
            if t and f and self.nofork:
                raise Unsupported('case split in the description of a generic item')
            if t and f:
                self.dec.work.append(self.dec.taken + [False])
                d = True
            else:
                d = t
            self.dec.taken.append(d)
        self.assume(cond if d else Not(cond))
        return d

    def choose(self, options):
        """Pick one of [(label, cond)]; the conditions cover all cases."""
        options = [(l, c if isinstance(c, bool) else simp(c)) for l, c in options]
        options = [(l, c) for l, c in options
                   if not (c is False or (not isinstance(c, bool) and is_false(c)))]
        if not options:
            raise PathDone()
        if len(options) == 1:
            l, c = options[0]
            self.assume(c)
            return l
        d = self.dec.replay()
        if d is None:
            ok = [i for i, (l, c) in enumerate(options)
                  if c is True or self.feasible(c)]
            if not ok:
                raise PathDone()
            if len(ok) > 1 and self.nofork:
                raise Unsupported('case split in the description of a generic item')
            for i in ok[1:]:
                self.dec.work.append(self.dec.taken + [i])
            d = ok[0]
            self.dec.taken.append(d)
        l, c = options[d]
        self.assume(c)
        return l

    # -- journaled writes
    def write(self, store, key, value):
        if type(store) is View:
            return store.redirect(key, value)
        if key == 'seq' and store.get('given away'):
            raise Unsupported('a list that was put into a dictionary is changed')
        self.journal.append((store, key, store.get(key, MISSING), value))
        store[key] = value

    def delete(self, store, key):
        self.journal.append((store, key, store.get(key, MISSING), MISSING))
        store.pop(key, None)

    def undo_to(self, mark):
        j = self.journal
        while len(j) > mark:
            store, key, old, _ = j.pop()
            if old is MISSING:
                store.pop(key, None)
            else:
                store[key] = old

    # -- a description that holds for every index
    def under(self, i, n, f, quantify):
        """f() is a term about the item with index i, 0 <= i < n; whatever it
        assumes is assumed for every such i."""
        self.idx.append(i)
        self.solver.push()
        mark, jmark, nl = len(self.log), len(self.journal), self.nlits
        self.nofork += 1
        gen = self.__dict__.setdefault('generic', [])
        gen.append(i)
        try:
            self.solver.add(And(i >= 0, i < n))
            t = f()
            facts = list(self.log[mark:])
        finally:
            gen.pop()
            self.nofork -= 1
            self.idx.pop()
            self.undo_to(jmark)
            del self.log[mark:]
            self.solver.pop()
            if self.nlits != nl:
                self.nlits = -1
                self.sync()
        for g in facts:
            self.assume(quantify(i, n, g))
        return t

    # -- nested exploration of all the paths of fn() from the current state
    def explore(self, fn, flows):
        results, work = [], [[]]
        self.depth += 1
        if self.depth > 12:
            raise Unsupported('nesting of symbolic loops')
        try:
            while work:
                prefix = work.pop()
                saved = self.dec
                self.dec = Dec(prefix, work)
                self.solver.push()
                mark, jmark = len(self.log), len(self.journal)
                nl = self.nlits
                try:
                    try:
                        out = ('normal', fn())
                    except flows as e:
                        out = (type(e).__name__, e)
                    except PathDone:
                        out = None
                    if out is not None:
                        results.append((out, list(self.log[mark:]),
                                        self.journal[jmark:]))
                finally:
                    self.undo_to(jmark)
                    del self.log[mark:]
                    self.solver.pop()
                    self.dec = saved
                    if self.nlits != nl:
                        self.nlits = -1
                        self.sync()
                if len(results) > 200:
                    raise Unsupported('too many paths in a loop body')
            return results
        finally:
            self.depth -= 1
