"""Contracts of datashape.internal_utils and of descendents (C18)."""
import z3
from dv.contract import Contract
from dv.spec import a_function
from .model import *

IU = 'datashape.internal_utils:'


def app(S, f, *args):
    """What the function f gives for these arguments."""
    return S.fn(('apply', 'V'), f, *args)


def instance(S, i):
    """(Marks the items that some rules are to be used for.)"""
    return S.fn(('instance', 'Bool'), S.mkint(i))


class Groups:
    """The groups that the first k items of a sequence make."""

    def __init__(self, S, f, seq):
        self.S, self.f, self.seq = S, f, seq

    def item(self, i):
        return self.S.at(self.seq, i)

    def key(self, i):
        return self.S.key(app(self.S, self.f, self.item(i)))

    def count(self, x, k):
        """How many of the first k items have the key x."""
        return self.S.fn(('group_count', 'Int'), self.f, self.seq, x, self.S.mkint(k))

    def source(self, x, j):
        """The item number j with the key x."""
        return self.S.fn(('group_source', 'Int'), self.f, self.seq, x, self.S.mkint(j))

    def defs(self, k):
        """count for k + 1 items; and what inverts it"""
        S = self.S
        return [
            S.forall_v(lambda x: (self.count(x, 0) == 0, self.count(x, 0))),
            S.Implies(k >= 0, S.forall_v(lambda x: (
                self.count(x, k + 1) == self.count(x, k) + S.If(
                    S.same(x, self.key(k)), 1, 0), self.count(x, k + 1)))),
            S.Implies(k >= 0, S.forall_v(lambda x: (
                self.count(x, k + 1) == self.count(x, k) + S.If(
                    S.same(x, self.key(k)), 1, 0), self.count(x, k)))),
            S.Implies(k >= 0, self.source(self.key(k), self.count(self.key(k), k)) == k),
        ]

    def are(self, m, k):
        """m maps the keys of the first k items to the lists of them"""
        S = self.S
        j = z3.Int(S.I.ctx.fresh_name('j'))
        x = z3.Const(S.I.ctx.fresh_name('x'), S.V)
        return [
            ('a dictionary', S.is_dict(m)),
            ('its keys', S.forall_v(lambda x: (S.Iff(
                S.dhas(m, x), self.count(x, k) > 0), S.dhas(m, x)))),
            ('the sizes of the groups', S.forall_v(lambda x: (S.Implies(S.dhas(m, x), S.And(
                S.is_list(S.dget(m, x)), S.len(S.dget(m, x)) == self.count(x, k))),
                S.dget(m, x)))),
            ('each item is in its group, in order', S.forall(0, k, lambda i: S.And(
                S.dhas(m, self.key(i)), self.count(self.key(i), i) < self.count(self.key(i), k),
                self.count(self.key(i), i) >= 0, S.same(S.at(S.dget(m, self.key(i)), self.count(
                    self.key(i), i)), self.item(i)), self.source(self.key(i), self.count(
                        self.key(i), i)) == i))),
            ('and nothing else', z3.ForAll([x, j], z3.Implies(
                z3.And(0 <= j, j < self.count(x, k)), S.And(
                    0 <= self.source(x, j), self.source(x, j) < k,
                    S.same(self.key(self.source(x, j)), x),
                    self.count(x, self.source(x, j)) == j)), patterns=[self.source(x, j)])),
            ('where the items are', S.forall_i(lambda i: (S.Implies(S.And(
                0 <= i, i < k, instance(S, i)), S.And(
                    S.dhas(m, self.key(i)), self.count(self.key(i), i) >= 0,
                    self.count(self.key(i), i) < S.len(S.dget(m, self.key(i))),
                    S.same(S.at(S.dget(m, self.key(i)), self.count(self.key(i), i)),
                           self.item(i)))), instance(S, i)))),
            ('each item has a group', S.forall(0, k, lambda i: S.dhas(m, self.key(i)))),
            ('groups', S.forall_v(lambda x: (S.Implies(S.dhas(m, x), S.And(
                S.is_list(S.dget(m, x)), S.len(S.dget(m, x)) > 0)), S.dget(m, x)))),
            ('items of a group', z3.ForAll([x, j], z3.Implies(z3.And(
                0 <= j, j < S.len(S.dget(m, x)), S.dhas(m, x)), S.And(
                    0 <= self.source(x, j), self.source(x, j) < k,
                    S.same(self.key(self.source(x, j)), x),
                    S.same(S.at(S.dget(m, x), j), self.item(self.source(x, j))))),
                patterns=[S.at(S.dget(m, x), j)])),
            ('no group is empty', S.forall_v(lambda x: (S.Implies(S.dhas(m, x), S.And(
                0 <= self.source(x, 0), self.source(x, 0) < k,
                S.same(self.key(self.source(x, 0)), x))), S.dhas(m, x)))),
            ('counted', S.forall_v(lambda x: (self.count(x, k) >= 0, self.count(x, k)))),
        ]


def c_groupby():
    def acc(S, a, k, v):
        g = Groups(S, a.func, a.seq)
        return S.And(*[f for _, f in g.are(v, k)]), g.defs(k) + g.defs(k - 1)
    return Contract(
        IU + 'groupby', objs={'func': a_function('func')},
        requires=lambda S, a: S.is_seq(a.seq),
        facts=lambda S, a: Groups(S, a.func, a.seq).defs(-1),
        candidates=[acc],
        ensures=lambda S, a, r: Groups(S, a.func, a.seq).are(r, S.len(a.seq)),
        # (what callers have no use for)
        opts={'dicts': True, 'hidden': (
            'its keys', 'the sizes of the groups', 'each item is in its group, in order',
            'and nothing else', 'counted')})


def is_graph(S, d):
    """a dictionary of tuples, lists or sets"""
    return S.And(S.is_dict(d), S.forall(0, S.len(d), lambda i: S.Or(
        S.is_seq(S.dval(d, i)), S.is_set(S.dval(d, i)))))


def edge(S, d, x, y):
    """y is among the items of d[x]"""
    return S.And(S.dhas(d, x), S.holds(S.dget(d, x), y))


def top(env):
    """(an invariant of the outermost loops only)"""
    if env.outer:
        raise IndexError


def of_tuples(S, m):
    return S.And(S.is_dict(m), S.forall_v(lambda y: (S.Implies(S.dhas(m, y), S.And(
        S.is_tuple(S.dget(m, y)), S.len(S.dget(m, y)) > 0)), S.dget(m, y))))


def c_reverse_dict():
    def there(S, a, k):
        return lambda x, y: S.And(edge(S, a.d, x, y), S.dpos(a.d, x) < k)

    def tuples(S, a, k, env):
        return of_tuples(S, env.maps[0])

    def outer_only(S, a, k, env):
        top(env)
        m, = env.maps
        return S.forall_vs(2, lambda x, y: (S.Implies(
            edge(S, m, y, x), there(S, a, k)(x, y)), S.holds(S.dget(m, y), x)))

    def outer_all(S, a, k, env):
        top(env)
        m, = env.maps
        return S.forall_vs(2, lambda x, y: (S.Implies(
            there(S, a, k)(x, y), edge(S, m, y, x)), S.holds(S.dget(a.d, x), y)))

    def current(S, a, env, k):
        o = env.outer[-1]
        items, key = S.dval(a.d, o), S.key(S.dkey(a.d, o))
        return items, key, lambda x, y: S.And(
            S.same(x, key), S.holds(items, y), S.hpos(items, y) < k)

    def inner_only(S, a, k, env):
        m, = env.maps
        items, key, seen = current(S, a, env, k)
        return S.forall_vs(2, lambda x, y: (S.Implies(edge(S, m, y, x), S.Or(
            seen(x, y), edge(S, env.start.maps[0], y, x))), S.holds(S.dget(m, y), x)))

    def inner_all(S, a, k, env):
        m, = env.maps
        items, key, seen = current(S, a, env, k)
        return S.forall_v(lambda y: (
            S.Implies(seen(key, y), edge(S, m, y, key)), S.holds(items, y)))

    def inner_kept(S, a, k, env):
        m, = env.maps
        s = env.start.maps[0]
        return S.forall_vs(2, lambda x, y: (S.Implies(
            edge(S, s, y, x), edge(S, m, y, x)), S.holds(S.dget(s, y), x)))
    return Contract(
        IU + 'reverse_dict', requires=lambda S, a: is_graph(S, a.d),
        invariants=[tuples, outer_only, outer_all, inner_only, inner_all, inner_kept],
        ensures=lambda S, a, r: [
            ('a dictionary', S.is_dict(r)),
            ('of tuples', S.forall_v(lambda y: (S.Implies(S.dhas(r, y), S.And(S.is_tuple(
                S.dget(r, y)), S.len(S.dget(r, y)) > 0)), S.dget(r, y)))),
            ('every edge is reversed', S.forall_vs(2, lambda x, y: (S.Implies(
                edge(S, a.d, x, y), edge(S, r, y, x)), S.holds(S.dget(a.d, x), y)))),
            ('and nothing else', S.forall_vs(2, lambda x, y: (S.Implies(
                edge(S, r, y, x), edge(S, a.d, x, y)), S.holds(S.dget(r, y), x))))],
        opts={'dicts': 'holds', 'sets': True})


def c_remove():
    def kept(S, a, i):
        return S.Not(S.bool(app(S, a.predicate, S.at(a.seq, i))))
    return Contract(
        IU + 'remove', objs={'predicate': a_function('predicate')},
        requires=lambda S, a: S.And(S.is_seq(a.seq), S.forall_v(lambda x: (
            S.is_bool(app(S, a.predicate, x)), app(S, a.predicate, x)))),
        ensures=lambda S, a, r: [
            ('what fails the predicate', S.forall(0, S.len(r), lambda j: S.exists(
                0, S.len(a.seq), lambda i: S.And(kept(S, a, i), S.same(
                    S.at(r, j), S.at(a.seq, i)))))),
            ('all of it', S.forall(0, S.len(a.seq), lambda i: S.Implies(
                kept(S, a, i), S.exists(0, S.len(r), lambda j: S.same(
                    S.at(r, j), S.at(a.seq, i)))))),
            ('in order', S.forall(0, S.len(r), lambda j: S.forall(0, j, lambda l: S.exists(
                0, S.len(a.seq), lambda i: S.exists(0, i, lambda h: S.And(
                    S.same(S.at(r, j), S.at(a.seq, i)), S.same(
                        S.at(r, l), S.at(a.seq, h)))))))),
            ('once', S.len(r) <= S.len(a.seq))])


def reach(S, d, x, y):
    """The least relation that holds of x and is closed under the edges (what is
    proved without leastness holds of any such relation)."""
    return S.fn(('reach', 'Bool'), d, S.key(x), y)


def c_descendents():
    def facts(S, a):
        return [reach(S, a.d, a.x, S.key(a.x)), S.forall_vs(2, lambda y, z: (S.Implies(
            S.And(reach(S, a.d, a.x, y), edge(S, a.d, y, z)), reach(S, a.d, a.x, z)),
            S.holds(S.dget(a.d, y), z)))]

    def kinds(S, a, k, env):
        top(env)
        c = env.others[0]
        return S.And(S.is_set(env.sets[0]), S.Or(S.is_seq(c), S.is_set(c)))

    def done(S, a, k, env):
        """nothing more to come: all is there"""
        top(env)
        return S.Implies(S.len(env.others[0]) == 0, closed(S, a, env.sets[0]))

    def sound(S, a, k, env):
        top(env)
        return S.forall_v(lambda y: (S.Implies(S.dhas(env.sets[0], y), reach(
            S, a.d, a.x, y)), S.dhas(env.sets[0], y)))

    def start(S, a, k, env):
        top(env)
        return S.dhas(env.sets[0], S.key(a.x))

    def closed(S, a, s):
        return S.forall_vs(2, lambda y, z: (S.Implies(S.And(
            S.dhas(s, y), edge(S, a.d, y, z)), S.dhas(s, z)), S.holds(S.dget(a.d, y), z)))
    def ens(S, a, r):
        yield 'a set', S.is_set(r)
        yield 'with the start', S.dhas(r, S.key(a.x))
        yield 'closed under the edges', closed(S, a, r)
        yield 'and nothing that is not reachable', S.forall_v(lambda y: (S.Implies(
            S.dhas(r, y), reach(S, a.d, a.x, y)), S.dhas(r, y)))
        # what contains the start and is closed contains the least such set
        S.I.ctx.assume(S.Implies(
            S.And(S.dhas(r, S.key(a.x)), closed(S, a, r)), S.forall_v(lambda y: (S.Implies(
                reach(S, a.d, a.x, y), S.dhas(r, y)), reach(S, a.d, a.x, y)))))
        yield 'what is reachable', S.forall_v(lambda y: (S.Iff(
            reach(S, a.d, a.x, y), S.dhas(r, y)), reach(S, a.d, a.x, y)))
        yield 'of what is in it', S.forall_v(lambda y: (S.Iff(
            reach(S, a.d, a.x, y), S.dhas(r, y)), S.dhas(r, y)))
    return Contract(
        'datashape.discovery:descendents', requires=lambda S, a: is_graph(S, a.d), facts=facts,
        invariants=[kinds, done, sound, start],
        ensures=lambda S, a, r: list(ens(S, a, r)),
        opts={'dicts': 'holds', 'sets': True})


PROP = 'C18'
CONTRACTS = [c_groupby, c_reverse_dict, c_remove, c_descendents]
