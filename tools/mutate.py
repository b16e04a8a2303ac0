"""Changes one expression or statement of a function in memory at a time and
re-runs the proof of it: lists the changes the proof does not notice.
  tools/mutate.py GROUP[,GROUP]|all [name...]"""
import ast
import copy
import os
import sys
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from dv.universe import Universe
from dv.contract import Registry, resolve
from dv.verify import Unit
from dv.pool import run_all
from specs.theory import Theory
import specs.all as A

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
       ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Mod: ast.Add,
       ast.FloorDiv: ast.Mult}


def mutations(node):
    """(description, mutated copy)"""
    nodes = list(ast.walk(node))
    for k, n in enumerate(nodes):
        for desc, f in options(n):
            c = copy.deepcopy(node)
            m = list(ast.walk(c))[k]
            before = ast.unparse(m) if not isinstance(m, (ast.FunctionDef,)) else ''
            try:
                f(m)
                ast.fix_missing_locations(c)
                yield '%s:%d %s: %s' % (node.name if hasattr(node, 'name') else 'lambda',
                                        getattr(n, 'lineno', 0), desc,
                                        before.split('\n')[0][:70]), c
            except Exception as e:
                print('mutation failed', desc, e)


def options(n):
    if isinstance(n, ast.Compare):
        op = type(n.ops[0])
        if op in CMP:
            def f(m):
                m.ops[0] = CMP[op]()
            yield 'op', f
        if op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            def f(m):
                m.ops[0] = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]()
            yield 'reverse', f
    if isinstance(n, ast.BoolOp):
        def f(m):
            m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
        yield 'andor', f
        for i in range(len(n.values)):
            def f(m, i=i):
                del m.values[i]
            if len(n.values) > 2:
                yield 'drop operand %d' % i, f
            else:
                def f(m, i=i):
                    v = m.values[1 - i]
                    m.values = [v, v]
                yield 'drop operand %d' % i, f
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        def f(m):
            m.op = BIN[type(n.op)]()
        yield 'arith', f
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        def f(m):
            v = m.operand
            m.operand = ast.UnaryOp(op=ast.Not(), operand=v)
        yield 'not', f
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            def f(m):
                m.value = not v
            yield 'bool', f
        elif isinstance(v, int):
            for d in (1, -1):
                def f(m, d=d):
                    m.value = v + d
                yield 'const %+d' % d, f
        elif isinstance(v, str):
            def f(m):
                m.value = v + 'x'
            yield 'str', f
        elif v is None:
            def f(m):
                m.value = 1
            yield 'none', f
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
        def f(m):
            m.test = ast.UnaryOp(op=ast.Not(), operand=m.test)
        yield 'negate test', f
        if not isinstance(n, ast.While):
            for b in (True, False):
                def f(m, b=b):
                    m.test = ast.Constant(value=b)
                yield 'test %s' % b, f
    if isinstance(n, ast.Call) and len(n.args) > 1 and not any(
            isinstance(x, ast.Starred) for x in n.args):
        def f(m):
            m.args[0], m.args[1] = m.args[1], m.args[0]
        yield 'swap args', f
    if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
        for i in range(len(n.elts)):
            def f(m, i=i):
                del m.elts[i]
            yield 'drop element %d' % i, f
    if isinstance(n, ast.List) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 1:
        def f(m):
            del m.elts[-1]
        yield 'drop last element', f
    if isinstance(n, ast.Return) and n.value is not None:
        def f(m):
            m.value = None
        yield 'return None', f
    for field in ('body', 'orelse', 'finalbody'):
        b = getattr(n, field, None)
        if isinstance(b, list):
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue

                def f(m, field=field, i=i):
                    getattr(m, field)[i] = ast.Pass()
                yield 'drop statement %r' % ast.unparse(s).split('\n')[0][:50], f
    if isinstance(n, ast.Break):
        pass
    if isinstance(n, ast.comprehension):
        for i in range(len(n.ifs)):
            def f(m, i=i):
                del m.ifs[i]
            yield 'drop filter', f
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('any', 'all'):
        def f(m):
            m.func.id = 'all' if m.func.id == 'any' else 'any'
        yield 'anyall', f


def main():
    mods = sys.argv[1].split(',')
    names = sys.argv[2:]
    u = Universe()
    reg = Registry()
    A.load(reg)
    todo = [c for c in reg.all if not c.assumed and not c.lemma and (mods == ['all'] or c.group in mods)
            and (not names or any(n in c.key for n in names))]
    jobs = []
    bases = run_all([(c.key, lambda c=c: Unit(c, Theory(), reg, u).run(120, 10)) for c in todo], 8, 150)
    for c in todo:
        base = bases[c.key]
        if base is None or base.status != 'proved':
            print('NOT PROVED', c.key)
            continue
        fns = [c.fn]
        for t in base.inlined:
            try:
                g = resolve(t)
            except Exception:
                continue
            if g not in fns:
                fns.append(g)
        for fn in fns:
            try:
                node = u.node_of(fn)
            except AttributeError:
                continue
            if node is None:
                continue
            for desc, m in mutations(node):
                def job(c=c, fn=fn, m=m):
                    orig = u.node_of
                    u.node_of = lambda g: m if g is fn else orig(g)
                    return Unit(c, Theory(), reg, u).run(float(os.environ.get("TL", 60)), float(os.environ.get("OT", 3)))
                jobs.append(('%s [%s] %s' % (c.key, fn.__qualname__, desc), job))
    n = {'killed': 0, 'unsupported': 0, 'survived': 0}

    def show(key, r):
        if r is None or r.status == 'unsupported':
            n['unsupported'] += 1
            if os.environ.get('V'):
                print('UNSUPPORTED', key, getattr(r, 'reason', ''), flush=True)
        elif r.status == 'failed':
            n['killed'] += 1
        else:
            n['survived'] += 1
            print('SURVIVED', key, flush=True)
    run_all(jobs, 8, float(os.environ.get("TL", 60)) + 30, progress=show)
    print(n)


main()
