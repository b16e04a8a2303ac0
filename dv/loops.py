"""The loop rule: a loop over a sequence of unknown length is executed once,
for an arbitrary index k, and the effects of that iteration become a rule
about every index.  No bound on the number of iterations is involved.

Writes that the loop makes are found by executing it.  A list that is only
appended to, the same number of times in every iteration, becomes the list of
the appended values; with 0 or 1 appends per iteration it becomes the filtered
list; any other written location that the iteration reads has an unknown value
at the start of iteration k, given by a recurrence S(0) = value before the
loop, S(k+1) = value after iteration k.

Leaving the loop (exception, return, break) in iteration k means that all
iterations before k completed normally and that k leaves."""
import os as _os
import z3
from .smt import And, Or, Not, Implies, If, IntVal, BoolVal, is_true, is_false, simp
from .values import *


class Poison(Val):
    """A value that exists but cannot be described."""
    __slots__ = 'why',

    def __init__(self, why):
        self.why = why


FLOWS = (PyRaise, FlowReturn, FlowBreak, FlowContinue, FlowOuter)


def run_loop(I, seq, body):
    parts = seq.parts
    for p in parts:
        if p.mark is not None:
            raise Unsupported('a list built by the loop is read in the loop')
        if p.items is not None:
            for x in list(p.items):
                one(body, x)
        else:
            n = simp(p.n)
            if z3.is_int_value(n):
                for i in range(max(n.as_long(), 0)):
                    if i > 40:
                        raise Unsupported('long unrolled loop')
                    one(body, p.at(IntVal(i)))
            else:
                sym_loop(I, n, p.at, body)


def one(body, x):
    try:
        body(x)
    except FlowContinue:
        pass


def locs_of(results):
    out = {}
    for outcome, log, journal in results:
        for store, key, old, new in journal:
            if isinstance(key, int):          # boxing caches
                continue
            out.setdefault((id(store), key), (store, key))
    return out


def final_values(journal):
    fin = {}
    for store, key, old, new in journal:
        if isinstance(key, int):
            continue
        fin[id(store), key] = new
    return fin


def subst(t, k, i):
    return z3.substitute(t, (k, i))


def subst_val(v, k, i):
    """The value with index k replaced by i (structure kept)."""
    if isinstance(v, (SI, SB, SS, SV, SCls)):
        return type(v)(simp(subst(v.t, k, i)))
    if isinstance(v, Tup) and v.seq.concrete() is not None:
        return Tup([subst_val(x, k, i) for x in v.seq.concrete()],
                   subst(v.ref, k, i) if v.ref is not None else None)
    if not isinstance(v, Val):
        return v
    return None


def structural(v):
    if isinstance(v, (SI, SB, SS, SV, SCls)):
        return True
    if isinstance(v, Tup):
        c = v.seq.concrete()
        return c is not None and all(structural(x) for x in c)
    return not isinstance(v, Val)


class LoopState:
    def __init__(self):
        self.kinds = {}
        self.endless = False
        self.joint, self.dropped = [], []
        self.several, self.measured = set(), set()
        self.alive = None       # {location: candidate invariants that hold}


def sym_loop(I, n, at, body, endless=False):
    """The loop over at(0), ..., at(n - 1); endless: left by an exit only."""
    ctx = I.ctx
    if endless:
        n = ctx.fresh('N', z3.IntSort())
        ctx.assume(n > 0)
    elif not ctx.entails(n > 0):
        if not ctx.branch(n > 0):
            return
    k = ctx.fresh('k', z3.IntSort())
    if ctx.idx:
        # a generic index of its own: name it as a constant
        k = z3.Int(ctx.fresh_name('k'))
    born = serial()
    ctx.idx.append(k)
    ctx.loops.append(k)
    ctx.solver.push()
    lm = len(ctx.log)
    nl = ctx.nlits
    was_quiet = I.opt.get('quiet')
    try:
        ctx.solver.add(And(k >= 0, k < n))
        item = at(k)

        def guarded():
            if st.joint:
                assume_candidates(I, st, k)
            one(body, item)

        # discovery of the written locations, to a fixpoint
        was_quiet = I.opt.get('quiet')
        I.opt['quiet'] = True
        st = LoopState()
        st.endless = endless
        locs = {}
        again = True
        while again:
            again = False
            I.opt['quiet'] = True
            for rnd in range(6):
                if locs and I.opt.get('invariants'):
                    start_candidates(I, st, locs)
                jm = len(ctx.journal)
                try:
                    havoc(I, st, locs, k, n)
                    results = ctx.explore(guarded, FLOWS)
                finally:
                    ctx.undo_to(jm)
                # (what only a leaving iteration writes is no concern of the others)
                found = locs_of([r for r in results if r[0][0] == 'normal'])
                found = {a: b for a, b in found.items() if b[0].serial <= born}
                new = {a: b for a, b in found.items() if a not in locs}
                if new or rnd == 0 and not locs and found:
                    locs.update(new)
                    for a in new:
                        classify(I, st, a, locs[a], results)
                    continue
                changed = refine(I, st, locs, results)
                if not changed:
                    break
            else:
                raise Unsupported('effects of a loop')
            # now run it for good, with the effects boxed inside each path
            start_candidates(I, st, locs)
            while True:
                dead = set()
                jm = len(ctx.journal)
                I.opt['quiet'] = was_quiet or bool(st.alive) or bool(st.joint)
                try:
                    havoc(I, st, locs, k, n)

                    def final():
                        assume_candidates(I, st, k)
                        one(body, item)
                        out = effects(I, st, locs, k)
                        check_candidates(I, st, k, out, dead)
                        return out
                    results = ctx.explore(final, FLOWS)
                finally:
                    ctx.undo_to(jm)
                for a in st.measured - st.several:
                    if any(o[0][0] == 'normal' and len(o[0][1][a]) != 1 for o in results):
                        st.several.add(a)
                        again = True
                if again:
                    break
                if dead:
                    for a, c in dead:
                        if a == 'joint':
                            st.dropped.append(c)
                        else:
                            st.alive[a].remove(c)
                    if any(a == 'joint' for a, c in dead):
                        again = True
                        break
                    continue
                if (st.alive or st.joint) and not was_quiet:
                    # for good, with the obligations
                    I.opt['quiet'] = was_quiet
                    jm = len(ctx.journal)
                    try:
                        havoc(I, st, locs, k, n)
                        results = ctx.explore(final, FLOWS)
                    finally:
                        ctx.undo_to(jm)
                break
    finally:
        I.opt['quiet'] = was_quiet
        ctx.idx.pop()
        ctx.loops.pop()
        ctx.solver.pop()
        del ctx.log[lm:]
        if ctx.nlits != nl:
            ctx.nlits = -1
            ctx.sync()
    normals, exits = [], []
    for outcome, log, journal in results:
        if outcome[0] == 'normal':
            normals.append((outcome[1], log))
        else:
            exits.append((outcome, log))
    finish(I, st, locs, k, n, at, body, normals, exits)


# Candidate invariants: a contract may say what the value of some accumulator
# is at the start of iteration k.  Every candidate is tried on every location;
# those that hold initially and are preserved are used, the others dropped.
def rec_term(I, st, a, i):
    kind, f, init = st.recs[a]
    return I.w.V.vi(f(i)) if kind == 'int' else f(i)


def candidate(I, c, i, v):
    f = c(I, i, v)
    defs = []
    if isinstance(f, tuple):
        f, defs = f
    return f, defs


class Env:
    """What the invariants of a loop may speak about: the changed sets and
    dictionaries (in the order they were made), as functions of the number of
    iterations done, and their values before the loop."""

    def __init__(self, I, st, locs):
        self.sets, self.maps, self.others, self.outer = [], [], [], list(I.ctx.loops[:-1])
        w = I.w
        self.locs = []
        for a in sorted(locs, key=lambda a: locs[a][0].serial):
            if st.kinds[a] != 'rec' or isinstance(locs[a][0].get(locs[a][1], MISSING),
                                                  MaybeUnbound):
                continue
            rec_value(I, st, a, locs[a][0], locs[a][1], IntVal(0))
            kind, f, init = st.recs[a]
            t = I.box(I.norm(I.force(init)))
            entry = (lambda i, f=f, kind=kind: w.V.vi(f(i)) if kind == 'int' else f(i)), t, a
            self.locs.append(a)
            if locs[a][1] != 'map':
                self.others.append(entry)
            elif I.ctx.entails(w.fn('is_set', 'Ref', 'Bool')(w.V.r(t))):
                self.sets.append(entry)
            else:
                self.maps.append(entry)

    def at(self, i, out=None, init=False):
        """The state after i iterations (out: given terms for it)."""
        def term(e):
            if init:
                return e[1]
            return out[e[2]] if out is not None else e[0](i)
        r = Env.__new__(Env)
        for k in ('sets', 'maps', 'others'):
            setattr(r, k, [term(e) for e in getattr(self, k)])
        return r


def joint(I, st, c, i, out=None, init=False):
    """An invariant about all the changed locations, or None."""
    env = st.env
    if out is not None:
        out = {a: I.w.V.vi(out[a]) if st.recs[a][0] == 'int' else out[a] for a in env.locs}
    now = env.at(i, out, init)
    now.start = env.at(None, init=True)
    now.past = lambda j: env.at(j)
    now.outer = env.outer
    try:
        return candidate(I, c, i, now)
    except IndexError:
        return None


def start_candidates(I, st, locs):
    st.alive = {}
    st.joint = []
    if I.opt.get('invariants'):
        st.env = Env(I, st, locs)
        for c in I.opt['invariants']:
            if c in st.dropped:
                continue
            g = joint(I, st, c, IntVal(0), init=True)
            if g is not None and proves(I, g):
                st.joint.append(c)
            elif _os.environ.get('DV_TRACE') and g is not None:
                print('  not an invariant (at the start)', c.__name__)
    cands = I.opt.get('candidates')
    if not cands:
        return
    for a in locs:
        if st.kinds[a] != 'rec' or isinstance(locs[a][0].get(locs[a][1], MISSING), MaybeUnbound):
            continue
        rec_value(I, st, a, locs[a][0], locs[a][1], IntVal(0))
        init = I.norm(I.force(st.recs[a][2]))
        v = I.box(init)
        for c in cands:
            if proves(I, candidate(I, c, IntVal(0), v)):
                st.alive.setdefault(a, []).append(c)


def proves(I, g):
    f, defs = g
    if isinstance(f, bool):
        f = BoolVal(f)
    return I.opt['provable'](I, Implies(And(*defs), f) if defs else f)


def assume_candidates(I, st, i):
    for c in getattr(st, 'joint', ()):
        f, defs = joint(I, st, c, i)
        for d in defs:
            I.ctx.assume(d)
        I.ctx.assume(f)
    for a, cs in (st.alive or {}).items():
        for c in cs:
            f, defs = candidate(I, c, i, rec_term(I, st, a, i))
            for d in defs:
                I.ctx.assume(d)
            I.ctx.assume(f)


def check_candidates(I, st, k, out, dead):
    for c in getattr(st, 'joint', ()):
        if ('joint', c) not in dead and not proves(I, joint(I, st, c, k + 1, out)):
            dead.add(('joint', c))
            if _os.environ.get('DV_TRACE'):
                print('  not an invariant', c.__name__)
    for a, cs in (st.alive or {}).items():
        v = I.w.V.vi(out[a]) if st.recs[a][0] == 'int' else out[a]
        for c in cs:
            if (a, c) in dead:
                continue
            if not proves(I, candidate(I, c, k + 1, v)):
                dead.add((a, c))


def classify(I, st, a, loc, results):
    store, key = loc
    if key in ('seq', 'items') and store.get(key, MISSING) is not MISSING:
        st.kinds[a] = 'append'
    elif store.get(key, MISSING) is MISSING:
        st.kinds[a] = 'temp'
    else:
        st.kinds[a] = 'rec'


def havoc(I, st, locs, k, n):
    """Set the written locations to their state at the start of iteration k."""
    for a, (store, key) in locs.items():
        kind = st.kinds[a]
        if kind == 'append':
            I.ctx.write(store, key, Seq([Part(items=[], mark=a, n=so_far(I, st, a, store[key], k))]))
        elif kind == 'temp':
            # may or may not have been assigned by an earlier iteration
            I.ctx.write(store, key, MaybeUnbound(k > 0, Poison('value left by an iteration')))
        elif kind == 'rec':
            I.ctx.write(store, key, rec_value(I, st, a, store, key, k))
        elif kind == 'unknown':
            from .builtins_ import unknown_seq
            I.ctx.write(store, key, unknown_seq(I))
        elif kind == 'poison':
            I.ctx.write(store, key, Poison('value left by an iteration'))


def so_far(I, st, a, init, k):
    """The length at the start of iteration k of a list to which every
    iteration appends one item (which is checked where it is used)."""
    if a in st.several:
        return None
    try:
        n = I.seq_len_term(init)
    except Unsupported:
        return None

    def length():
        st.measured.add(a)
        return simp(n + k)
    return length


def rec_value(I, st, a, store, key, k):
    """The recurrence function of a location applied to index k."""
    recs = st.__dict__.setdefault('recs', {})
    if a not in recs:
        init = I.norm(store[key]) if not isinstance(store[key], MaybeUnbound) else store[key]
        outer = list(I.ctx.idx[:-1])
        name = I.ctx.fresh_name('S_%s' % key)
        c = None
        try:
            c = I.class_of(init) if not isinstance(init, MaybeUnbound) else None
        except Unsupported:
            pass
        if c is int and st.__dict__.get('vsort', {}).get(a) is None:
            f = z3.Function(name, *([z3.IntSort()] * (len(outer) + 1) + [z3.IntSort()]))
            recs[a] = ('int', (lambda i, f=f: f(*(outer + [i]))), init)
        else:
            f = z3.Function(name, *([z3.IntSort()] * (len(outer) + 1) + [I.w.V]))
            recs[a] = ('V', (lambda i, f=f: f(*(outer + [i]))), init)
    kind, f, init = recs[a]
    return SI(f(k)) if kind == 'int' else I.norm(SV(f(k)))


def refine(I, st, locs, results):
    """Locations whose changes do not fit their kind get a weaker kind."""
    changed = False
    for a, (store, key) in locs.items():
        kind = st.kinds[a]
        for outcome, log, journal in results:
            fin = final_values(journal)
            if a not in fin:
                continue
            v = fin[a]
            if kind == 'append':
                if not (isinstance(v, Seq) and v.parts and v.parts[0].mark == a and
                        all(p.items is not None and p.mark is None for p in v.parts[1:])):
                    if isinstance(v, Seq) and not v.parts and False:
                        continue
                    st.kinds[a] = 'unknown'
                    changed = True
                    break
            elif kind == 'rec' and outcome[0] == 'normal':
                rk = st.__dict__.get('recs', {}).get(a)
                c = None
                try:
                    c = I.class_of(I.norm(v)) if isinstance(v, Val) and not isinstance(
                        v, (MaybeUnbound, Poison)) or not isinstance(v, Val) else None
                except Unsupported:
                    pass
                if isinstance(v, (ListV, SetV, DictV, Poison, IterV, Closure)):
                    st.kinds[a] = 'poison'
                    changed = True
                    break
                if rk is not None and rk[0] == 'int' and c is not int:
                    st.__dict__.setdefault('vsort', {})[a] = True
                    st.recs.pop(a)
                    changed = True
                    break
    return changed


def effects(I, st, locs, k):
    """The values of the written locations at the end of the current path,
    with everything that can be described by a term made one."""
    out = {}
    for a, (store, key) in locs.items():
        kind = st.kinds[a]
        v = store.get(key, MISSING)
        if kind == 'append':
            items = []
            for p in v.parts:
                if p.mark is None:
                    items.extend(p.items)
            vals = []
            for x in items:
                x = I.norm(I.force(x))
                t = I.box(x)
                vals.append((x if structural(x) else None, t))
            out[a] = vals
        elif kind == 'rec':
            rk = st.recs[a][0]
            x = I.norm(I.force(v))
            out[a] = I.int_term(x) if rk == 'int' else I.box(x)
        elif kind == 'temp':
            try:
                x = I.norm(v) if not isinstance(v, MaybeUnbound) else v
                if isinstance(x, (SI, SB, SS, SV, SCls, Tup)) or not isinstance(x, Val):
                    out[a] = (x if structural(x) else None, I.box(x))
                else:
                    out[a] = None
            except Unsupported:
                out[a] = None
        else:
            out[a] = None
    return out


def loop_patterns(f, i):
    """Applications of uninterpreted functions that have i itself as an
    argument and that can trigger the rule."""
    found, seen = [], set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            walk(t.body())
            return
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(i) for c in t.children()):
                if not _has_var(t):
                    found.append(t)
            for c in t.children():
                walk(c)
    walk(f)
    return found


def _has_var(t):
    if z3.is_var(t):
        return True
    return any(_has_var(c) for c in t.children())


def quantify(I, i, lo, hi, f, extra=()):
    """forall lo <= i < hi: f, with triggers."""
    if is_true(f):
        return f
    pats = []
    for t in loop_patterns(f, i) + list(extra):
        name = t.decl().name()
        if name.startswith('S_') and '!' in name:
            continue
        if not any(t.eq(p) for p in pats) and not _interpreted(t):
            pats.append(t)
    # prefer triggers over older symbols and the smallest ones
    pats = [p for p in pats if not any(q is not p and _inside(q, p) for q in pats)]
    pats = pats[:8]
    if not pats:
        # only under an offset, f(i + c): quantify over i + c
        c = offset_of(f, i)
        if c is not None:
            g = z3.substitute(f, (i, i - c))
            return quantify(I, i, simp(lo + c), simp(hi + c), simp(g), extra)
    body = Implies(And(lo <= i, i < hi), f)
    if pats:
        return z3.ForAll([i], body, patterns=pats)
    return z3.ForAll([i], body)


def offset_of(f, i):
    """A constant c such that some uninterpreted application has the argument
    i + c."""
    seen = set()

    def walk(t):
        if t.get_id() in seen:
            return None
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return walk(t.body())
        if not z3.is_app(t):
            return None
        unint = t.decl().kind() == z3.Z3_OP_UNINTERPRETED
        for a in t.children():
            if unint and z3.is_add(a) and a.num_args() == 2:
                x, y = a.children()
                if x.eq(i) and z3.is_int_value(y) and y.as_long():
                    return y.as_long()
                if y.eq(i) and z3.is_int_value(x) and x.as_long():
                    return x.as_long()
            r = walk(a)
            if r is not None:
                return r
        return None
    return walk(f)


_NOT_IN_PATTERNS = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES,
                    z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)


def _interpreted(t):
    """Does t contain something that no pattern may?"""
    return z3.is_app(t) and (t.decl().kind() in _NOT_IN_PATTERNS or any(
        _interpreted(c) for c in t.children()))


def _inside(q, p):
    """Is q a proper subterm of p?"""
    for c in p.children():
        if c.eq(q) or _inside(q, c):
            return True
    return False


def finish(I, st, locs, k, n, at, body, normals, exits):
    ctx, w = I.ctx, I.w
    # --- what one normal iteration means
    counts = {}
    for a in locs:
        if st.kinds[a] == 'append':
            counts[a] = sorted({len(eff[a]) for eff, log in normals})
    appended = {}

    def fresh_item(name):
        return ctx.fresh_fn(name, z3.IntSort(), w.V)
    for a, cs in counts.items():
        if not cs:
            continue
        m = max(cs)
        if len(cs) > 1 and cs != [0, 1]:
            raise Unsupported('a loop that appends %s items' % cs)
        single = len(normals) == 1
        appended[a] = [fresh_item('r_%d' % j) for j in range(m)]
    selfn = {}
    for a, cs in counts.items():
        if cs == [0, 1]:
            selfn[a] = ctx.fresh_fn('keep', z3.IntSort(), z3.BoolSort())

    disj = []
    for eff, log in normals:
        conj = list(log)
        for a, (store, key) in locs.items():
            kind = st.kinds[a]
            if kind == 'append':
                if a in selfn:
                    conj.append(selfn[a](k) if eff[a] else Not(selfn[a](k)))
                for j, (x, t) in enumerate(eff[a]):
                    conj.append(appended[a][j](k) == t)
            elif kind == 'rec':
                conj.append(st.recs[a][1](k + 1) == eff[a])
            elif kind == 'temp':
                pass
        disj.append(And(*conj) if conj else BoolVal(True))
    # temporaries: value after iteration k, as a function of k
    temps = {}
    for a, (store, key) in locs.items():
        if st.kinds[a] != 'temp':
            continue
        if normals and all(eff[a] is not None for eff, log in normals):
            if len(normals) == 1:
                temps[a] = normals[0][0][a]
            else:
                f = ctx.fresh_fn('t_' + str(key), z3.IntSort(), w.V)
                temps[a] = (None, f(k))
                for j, (eff, log) in enumerate(normals):
                    disj[j] = And(disj[j], f(k) == eff[a][1])
    normal = (Or(*disj) if len(disj) > 1 else disj[0]) if disj else BoolVal(False)

    def normal_at(i):
        return subst(normal, k, i)

    def prefix_rule(hi):
        i = z3.Int(ctx.fresh_name('i'))
        extra = [f(i) for a in appended for f in appended[a]]
        f = normal_at(i)
        q = quantify(I, i, IntVal(0), hi, f, extra)
        c = offset_of(f, i)
        if c is not None:
            # also found by the items of a sequence that is read shifted
            j = z3.Int(ctx.fresh_name('i'))
            g = z3.substitute(f, (i, j - c))
            q = And(q, quantify(I, j, simp(IntVal(c)), simp(hi + c), simp(g)))
        return q

    def init_recs():
        for a, (kind, f, init) in getattr(st, 'recs', {}).items():
            if st.kinds.get(a) != 'rec':
                continue
            x = I.norm(I.force(init))
            ctx.assume(f(IntVal(0)) == (I.int_term(x) if kind == 'int' else I.box(x)))
        assume_candidates(I, st, IntVal(0))

    def set_state(m):
        """State after m iterations (a term, >= 0)."""
        for a, (store, key) in locs.items():
            kind = st.kinds[a]
            if kind == 'append':
                old = store[key]
                cs = counts.get(a)
                if not cs:
                    continue
                if cs == [0]:
                    continue
                if a in selfn:
                    ctx.write(store, key, old + filtered(I, selfn[a], appended[a][0], m, normal_at))
                    continue
                fs = appended[a]
                if len(fs) == 1:
                    shape = [eff[a][0][0] for eff, log in normals]
                    if len(normals) == 1 and shape[0] is not None:
                        v = shape[0]

                        def item(i, v=v):
                            ctx_assume_instance(I, normal_at, i, m)
                            return I.norm(subst_val(v, k, i))
                    else:
                        def item(i, f=fs[0]):
                            ctx_assume_instance(I, normal_at, i, m)
                            return I.norm(SV(f(i)))
                    ctx.write(store, key, old + Seq.sym(m, item))
                else:
                    q = len(fs)
                    raise Unsupported('a loop that appends %d items' % q)
            elif kind == 'rec':
                rk, f, init = st.recs[a]
                ctx.write(store, key, SI(f(m)) if rk == 'int' else I.norm(SV(f(m))))
            elif kind == 'temp':
                if a in temps:
                    x, t = temps[a]
                    last = simp(m - 1)
                    v = subst_val(x, k, last) if x is not None else \
                        I.norm(SV(subst(t, k, last)))
                    ctx.write(store, key, MaybeUnbound(m > 0, v)
                              if not ctx.entails(m > 0) else v)
                else:
                    ctx.write(store, key, Poison('value left by a loop'))
            elif kind == 'unknown':
                from .builtins_ import unknown_seq
                ctx.write(store, key, unknown_seq(I))
            elif kind == 'poison':
                ctx.write(store, key, Poison('value left by a loop'))

    init_recs()
    options = []
    if normals and not st.endless:
        options.append(('all', BoolVal(True)))
    if exits:
        options.append(('exit', BoolVal(True)))
    if not options:
        raise PathDone()
    pick = options[0][0] if len(options) == 1 else ctx.choose(options)
    if pick == 'all':
        ctx.assume(prefix_rule(n))
        # the last iteration, explicitly
        ctx.assume(Implies(n > 0, normal_at(simp(n - 1))))
        ctx.assume(Implies(n > 0, normal_at(IntVal(0))))
        assume_candidates(I, st, n)
        set_state(n)
        return
    x = ctx.fresh('x', z3.IntSort())
    ctx.assume(And(x >= 0, x < n))
    if not normals:
        ctx.assume(x == 0)
    else:
        ctx.assume(prefix_rule(x))
        ctx.assume(Implies(x > 0, normal_at(simp(x - 1))))
        assume_candidates(I, st, x)
    # the cheap refutation first: does any exit condition hold?
    set_state(x)
    ctx.loops.append(x)
    try:
        one(body, at(x))
    finally:
        ctx.loops.pop()
    raise PathDone()          # completed normally: not an exit


def ctx_assume_instance(I, normal_at, i, m):
    i = i if z3.is_expr(i) else IntVal(i)
    seen = I.ctx.__dict__.setdefault('instances', set())
    f = Implies(And(i >= 0, i < m), normal_at(i))
    if any(i.eq(g) or _inside(g, i) for g in I.ctx.__dict__.get('generic', ())):
        I.ctx.solver.add(f)         # holds for every i already
        return
    I.ctx.assume(f)


def filtered(I, keep, item, m, normal_at):
    """The sub-sequence of item(i) for the i < m with keep(i)."""
    ctx, w = I.ctx, I.w
    cnt = ctx.fresh('cnt', z3.IntSort())
    src = ctx.fresh_fn('src', z3.IntSort(), z3.IntSort())
    dst = ctx.fresh_fn('dst', z3.IntSort(), z3.IntSort())
    i, j = z3.Int(ctx.fresh_name('i')), z3.Int(ctx.fresh_name('j'))
    ctx.assume(And(cnt >= 0, cnt <= m))
    ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < cnt), And(
        0 <= src(j), src(j) < m, keep(src(j)), dst(src(j)) == j)), patterns=[src(j)]))
    ctx.assume(z3.ForAll([i], Implies(And(0 <= i, i < m, keep(i)), And(
        0 <= dst(i), dst(i) < cnt, src(dst(i)) == i)), patterns=[keep(i)]))
    j2 = z3.Int(ctx.fresh_name('j'))
    ctx.assume(z3.ForAll([j, j2], Implies(And(0 <= j, j < j2, j2 < cnt), src(j) < src(j2)),
                         patterns=[z3.MultiPattern(src(j), src(j2))]))
    # everything kept, or nothing kept
    ctx.assume(Implies(cnt == m, z3.ForAll([j], Implies(And(0 <= j, j < cnt), src(j) == j),
                                           patterns=[src(j)])))

    def at(t):
        s = src(t)
        ctx_assume_instance(I, normal_at, s, m)
        return I.norm(SV(item(s)))
    return Seq.sym(cnt, at)
