"""Rewrites a copy of the library without changing what it does, one kind of
rewriting at a time, and runs the proofs (and optionally the checks) on it:
which units raise an alarm although nothing changed?
  tools/refactor.py KIND[,KIND]|all [group] """
import ast
import os
import shutil
import subprocess
import sys

OUT = '/tmp/refactored'
FILES = ['coretypes', 'discovery', 'error', 'internal_utils', 'lexer', 'parser', 'predicates',
         'promote', 'type_symbol_table', 'typesets', 'user', 'util/__init__', 'util/testing',
         'validation', 'dispatch', 'type_equation_solver', 'util/mathutil']
N = [0]


def new(p='t'):
    N[0] += 1
    return '_%s%d' % (p, N[0])


def name(i, store=False):
    return ast.Name(i, ast.Store() if store else ast.Load())


def blocks(tree, f):
    """replaces each statement of each block by f(statement) (a list)"""
    for n in ast.walk(tree):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out = []
                for i, s in enumerate(b):
                    out += f(s, n, b[i + 1:])
                setattr(n, fld, out)


def in_functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def tempret(fn):
    def f(s, _, __):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant):
            v = new()
            return [ast.Assign([name(v, True)], s.value), ast.Return(name(v))]
        return [s]
    blocks(fn, f)


def flipif(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(
                n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


def comp2loop(fn):
    def f(s, _, __):
        v = getattr(s, 'value', None)
        if not isinstance(s, (ast.Return, ast.Assign)) or not isinstance(v, ast.ListComp):
            return [s]
        acc = new('acc')
        body = [ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [v.elt], []))]
        for g in reversed(v.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        s.value = name(acc)
        return [ast.Assign([name(acc, True)], ast.List([], ast.Load()))] + body + [s]
    blocks(fn, f)


def all2loop(fn):
    def f(s, _, __):
        v = getattr(s, 'value', None)
        if isinstance(s, ast.Return) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                and v.func.id in ('all', 'any') and isinstance(v.args[0], ast.GeneratorExp):
            al = v.func.id == 'all'
            t = v.args[0].elt
            body = [ast.If(ast.UnaryOp(ast.Not(), t) if al else t,
                           [ast.Return(ast.Constant(not al))], [])]
            for g in reversed(v.args[0].generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            return body + [ast.Return(ast.Constant(al))]
        return [s]
    blocks(fn, f)


def ifexp2if(fn):
    def f(s, _, __):
        v = getattr(s, 'value', None)
        if isinstance(s, ast.Return) and isinstance(v, ast.IfExp):
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
        if isinstance(s, ast.Assign) and isinstance(v, ast.IfExp):
            return [ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(s.targets, v.orelse)])]
        return [s]
    blocks(fn, f)


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue))


def elseify(fn):
    def f(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
                s.orelse = f(b[i + 1:])
                return b[:i + 1]
        return b
    fn.body = f(fn.body)


def unelse(fn):
    def f(s, _, __):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            o, s.orelse = s.orelse, []
            return [s] + o
        return [s]
    blocks(fn, f)


def splitisinst(fn):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(
                    n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
                return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], k], []) for k in n.args[1].elts])
            return n
    T().visit(fn)


def for2while(fn):
    def f(s, _, __):
        if isinstance(s, ast.For) and not s.orelse and not any(
                isinstance(x, (ast.Continue, ast.Yield)) for x in ast.walk(s)):
            it, i = new('it'), new('i')
            return [ast.Assign([name(it, True)], ast.Call(name('list'), [s.iter], [])),
                    ast.Assign([name(i, True)], ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name('len'), [name(it)], [])]),
                              [ast.Assign([s.target], ast.Subscript(name(it), name(i), ast.Load())),
                               ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1))] + s.body, [])]
        return [s]
    blocks(fn, f)


def andnest(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.And):
            b = n.body
            for c in reversed(n.test.values[1:]):
                b = [ast.If(c, b, [])]
            n.test, n.body = n.test.values[0], b


def demorgan(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp):
            o = ast.And() if isinstance(n.test.op, ast.Or) else ast.Or()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [
                ast.UnaryOp(ast.Not(), v) for v in n.test.values]))


def testvar(fn):
    def f(s, _, __):
        if isinstance(s, ast.If):
            v = new('test')
            t, s.test = s.test, name(v)
            return [ast.Assign([name(v, True)], t), s]
        return [s]
    blocks(fn, f)


def argvars(fn):
    """arguments of a returned call into variables first"""
    def f(s, _, __):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.Call) and not v.keywords and not any(
                isinstance(x, ast.Starred) for x in v.args) and isinstance(v.func, ast.Name):
            out = []
            for k, x in enumerate(v.args):
                if not isinstance(x, (ast.Name, ast.Constant, ast.GeneratorExp)):
                    t = new('arg')
                    out.append(ast.Assign([name(t, True)], x))
                    v.args[k] = name(t)
            return out + [s]
        return [s]
    blocks(fn, f)


def helper(tree):
    def do(owner, body, cls):
        add = []
        for i, s in enumerate(body):
            if isinstance(s, ast.ClassDef):
                add += do(s, s.body, s.name)
            if not isinstance(s, ast.FunctionDef) or s.args.defaults and cls is None and False:
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id in (
                    'super', '__class__') for x in ast.walk(s)):
                continue
            if cls and any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith(
                    '__') for x in ast.walk(s)):
                continue
            if any(not (isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod') or
                        'dispatch' in ast.unparse(d)) for d in s.decorator_list):
                continue
            a = s.args
            h = new('impl_' + s.name.strip('_'))
            doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(
                s.body[0].value, ast.Constant) else []
            rest = s.body[len(doc):]
            if not rest:
                continue
            params = [x.arg for x in a.args + a.kwonlyargs]
            h_args = ast.arguments([], [ast.arg(p) for p in params], a.vararg, [], [], a.kwarg, [])
            call = ast.Call(name(h), [name(p) for p in params] + (
                [ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                [ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else [])
            add.append(ast.FunctionDef(h, h_args, rest, []))
            s.body = doc + [ast.Return(call)]
        return add
    b = tree.body
    out = []
    for s in b:
        holder = ast.Module([s], [])
        for h in do(holder, holder.body, None):
            out.append(h)
        out.append(s)
    tree.body = out


KINDS = {k: v for k, v in globals().items() if k in (
    'tempret flipif comp2loop all2loop ifexp2if elseify unelse splitisinst for2while andnest '
    'demorgan testvar argvars').split()}


def make(kind):
    if os.path.isdir(OUT):
        shutil.rmtree(OUT)
    shutil.copytree('/repo', OUT, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    for f in FILES:
        p = '%s/datashape/%s.py' % (OUT, f)
        if not os.path.exists(p):
            continue
        t = ast.parse(open(p).read())
        if kind == 'helper':
            helper(t)
        else:
            for fn in in_functions(t):
                KINDS[kind](fn)
        ast.fix_missing_locations(t)
        with open(p, 'w') as o:
            o.write(ast.unparse(t) + '\n')


def main():
    kinds = sorted(KINDS) + ['helper'] if sys.argv[1] == 'all' else sys.argv[1].split(',')
    groups = sys.argv[2] if len(sys.argv) > 2 else 'all'
    for k in kinds:
        make(k)
        env = dict(os.environ, PYTHONPATH=OUT, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-W', 'ignore', '-m', 'pytest', '-q',
                            '-p', 'no:cacheprovider', OUT + '/datashape/tests'], env=env, cwd=OUT,
                           capture_output=True, text=True)
        print('=====', k, r.stdout.strip().split('\n')[-1], flush=True)
        env['OT'] = env.get('OT', '5')
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-W', 'ignore', '/verif/tools/try.py', groups],
                           env=env, cwd=OUT, capture_output=True, text=True)
        lines = r.stdout.split('\n')
        print(sum(x.startswith('proved') for x in lines), 'proved', flush=True)
        print('\n'.join(x[:230] for x in lines if x and not x.startswith('proved')), r.stderr[-500:], flush=True)
    shutil.rmtree(OUT)


if __name__ == '__main__':
    main()
