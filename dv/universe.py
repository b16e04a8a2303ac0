"""The closed world of classes, read off the live library on every run."""
import ast
import inspect
import sys
import textwrap
import types
import datetime
import numpy
from collections import OrderedDict


def subclasses(c):
    out = [c]
    for s in type.__subclasses__(c):
        out += subclasses(s)
    return list(dict.fromkeys(out))


EXTRA = [('tuple', tuple), ('list', list), ('dict', dict), ('set', set),
         ('frozenset', frozenset), ('float', float), ('bytes', bytes),
         ('complex', complex), ('slice', slice),
         ('date', datetime.date), ('time', datetime.time),
         ('datetime', datetime.datetime), ('timedelta', datetime.timedelta),
         ('OrderedDict', OrderedDict), ('dtype', numpy.dtype),
         ('OTHER', None)]
PRIM = [('NoneType', type(None)), ('bool', bool), ('int', int), ('str', str),
        ('type', type)]


class Universe:
    def __init__(self, extra=()):
        import datashape
        from datashape import coretypes
        import datashape.typesets
        self.ct = coretypes
        mono = [c for c in subclasses(coretypes.Mono)
                if c.__module__.startswith('datashape') and
                c.__name__ not in ('Mono', 'Unit', '_')]
        self.ds_classes = mono
        self._later = None
        self.tok = {}
        refs = []
        for c in mono:
            name = 'ds_' + c.__name__
            k = name
            i = 2
            while k in self.tok.values():
                k = '%s%d' % (name, i)
                i += 1
            self.tok[c] = k
            refs.append((k, c))
        refs += [('parser', __import__('datashape.parser').parser.DataShapeParser)]
        refs += list(extra)
        refs += EXTRA
        self.ref_classes = refs
        for n, c in refs + PRIM:
            if c is not None:
                self.tok[c] = n
        self.cls_of_tok = {n: c for n, c in refs + PRIM}
        self.all_toks = [n for n, _ in PRIM + refs]
        self._inst = {}
        self._src = {}

    def subtoks(self, cls):
        """Tokens of the classes that are subclasses of cls."""
        out = []
        for t in self.all_toks:
            c = self.cls_of_tok[t]
            if c is None:
                if cls is object:
                    out.append(t)
            elif issubclass(c, cls):
                out.append(t)
        return out

    # -- source of live functions
    def module_tree(self, filename):
        if filename not in self._src:
            with open(filename, encoding='utf-8') as f:
                text = f.read()
            tree = ast.parse(text)
            idx = {}
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                    line = node.lineno
                    if isinstance(node, ast.FunctionDef) and node.decorator_list:
                        line = min(d.lineno for d in node.decorator_list)
                    idx.setdefault(line, []).append(node)
            self._src[filename] = idx
        return self._src[filename]

    def node_of(self, fn):
        code = fn.__code__
        idx = self.module_tree(code.co_filename)
        cands = idx.get(code.co_firstlineno, [])
        argn = code.co_varnames[:code.co_argcount + code.co_kwonlyargcount]
        out = []
        for n in cands:
            if isinstance(n, ast.FunctionDef) and n.name != code.co_name:
                continue
            if isinstance(n, ast.Lambda) and code.co_name != '<lambda>':
                continue
            a = n.args
            names = tuple(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
            if names == argn:
                out.append(n)
        if len(out) > 1 and len({ast.dump(n) for n in out}) > 1:
            # several lambdas in a line: by the place of the body
            at = [(p[0], p[2]) for p in code.co_positions() if p[3] and p[3] > p[2]]
            out = [n for n in out if at and (n.body.lineno, n.body.col_offset) <= min(at)
                   and max(at) <= (n.body.end_lineno, n.body.end_col_offset)]
        return out[0] if out and len({ast.dump(n) for n in out}) == 1 else None

    def set_later(self, name):
        """Whether code other than constructors sets an attribute of this
        name: whether an object has it is not known then."""
        if self._later is None:
            self._later = set()
            for k, m in sorted(sys.modules.items()):
                if k.split('.')[0] == 'datashape' and getattr(m, '__file__', None) and \
                        '.tests' not in k:
                    with open(m.__file__, encoding='utf-8') as f:
                        self._stores(ast.parse(f.read()), self._later)
        return name in self._later or None in self._later

    def _stores(self, node, out):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, ast.FunctionDef) and x.name in (
                    '__init__', '__setstate__', '__new__'):
                continue
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
            if isinstance(x, ast.Call) and (
                    x.func.id if isinstance(x.func, ast.Name) else
                    x.func.attr if isinstance(x.func, ast.Attribute) else '') in (
                        'setattr', '__setattr__'):
                names = [a.value for a in x.args if isinstance(a, ast.Constant) and
                         isinstance(a.value, str)]
                out.update(names[:1] or [None])
            if isinstance(x, ast.Attribute) and x.attr == '__dict__':
                out.add(None)
            self._stores(x, out)

    def _assigned(self, cls, owner, fn, arg, attrs, seen):
        """the attributes that fn assigns to its arg-th parameter, itself or in
        the functions and methods that it hands it to"""
        node = self.node_of(fn)
        if node is None or (fn, arg) in seen or arg >= len(node.args.args):
            return
        seen.add((fn, arg))
        me = node.args.args[arg].arg

        def is_me(e):
            return isinstance(e, ast.Name) and e.id == me
        for sub in ast.walk(node):
            if isinstance(sub, ast.Attribute) and isinstance(sub.ctx, ast.Store) and is_me(sub.value):
                attrs.add(sub.attr)
            if not isinstance(sub, ast.Call):
                continue
            if isinstance(sub.func, ast.Name) and sub.func.id == 'setattr' and len(
                    sub.args) == 3 and is_me(sub.args[0]) and isinstance(sub.args[1], ast.Constant):
                attrs.add(sub.args[1].value)
            if isinstance(sub.func, ast.Attribute) and sub.func.attr == '__init__':
                mro = list(cls.__mro__)
                for k in mro[mro.index(owner) + 1:] if owner in mro else ():
                    if isinstance(k.__dict__.get('__init__'), types.FunctionType):
                        attrs |= self.inst_attrs(k)
                        break
            elif isinstance(sub.func, ast.Attribute) and is_me(sub.func.value):
                k, x = static_lookup(cls, sub.func.attr)
                if isinstance(x, types.FunctionType):
                    self._assigned(cls, owner, x, 0, attrs, seen)
            elif isinstance(sub.func, ast.Name):
                x = fn.__globals__.get(sub.func.id)
                if isinstance(x, types.FunctionType):
                    for i, e in enumerate(sub.args):
                        if is_me(e):
                            self._assigned(cls, owner, x, i, attrs, seen)

    # -- instance attributes assigned by the constructors, read from the AST
    def inst_attrs(self, cls):
        if cls in self._inst:
            return self._inst[cls]
        attrs = set()
        init = None
        for k in cls.__mro__:
            if '__init__' in k.__dict__:
                init = k.__dict__['__init__']
                owner = k
                break
        if init is not None and isinstance(init, types.FunctionType):
            self._assigned(cls, owner, init, 0, attrs, set())
        self._inst[cls] = attrs
        return attrs


def static_lookup(cls, name):
    """(kind, value) of a class attribute found along the MRO."""
    for k in cls.__mro__:
        if name in k.__dict__:
            v = k.__dict__[name]
            if isinstance(v, property):
                return 'property', v
            if isinstance(v, types.FunctionType):
                return 'function', v
            if isinstance(v, staticmethod):
                return 'static', v.__func__
            if isinstance(v, classmethod):
                return 'classmethod', v.__func__
            if isinstance(v, types.MemberDescriptorType):
                return 'slot', v
            if isinstance(v, types.GetSetDescriptorType):
                return 'getset', v
            if callable(v) and hasattr(v, '__get__') and not isinstance(v, type):
                return 'builtin', v
            return 'value', v
    return None, None
