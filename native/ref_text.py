"""A tokenizer and a parser written from the documented grammar, to compare
the library's with."""
from datashape import coretypes as ct

NAME = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
DIGITS = set('0123456789')
HEX = set('0123456789abcdefABCDEF')
PUNCT = [('->', 'RARROW'), ('...', 'ELLIPSIS'), ('*', 'ASTERISK'), (',', 'COMMA'), ('=', 'EQUAL'),
         (':', 'COLON'), ('[', 'LBRACKET'), (']', 'RBRACKET'), ('{', 'LBRACE'), ('}', 'RBRACE'),
         ('(', 'LPAREN'), (')', 'RPAREN'), ('?', 'QUESTIONMARK')]
ESC = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}


def skip(s, i):
    while i < len(s):
        if s[i] == '#':
            while i < len(s) and s[i] != '\n':
                i += 1
        elif s[i].isspace():
            i += 1
        else:
            break
    return i


def token(s, i):
    """(kind, end, value) of the token at i, or None."""
    c = s[i]
    if c in NAME and c not in DIGITS:
        j = i
        while j < len(s) and s[j] in NAME:
            j += 1
        w = s[i:j]
        if w in ('True', 'False'):
            return 'BOOLEAN', j, w == 'True'
        return ('NAME_OTHER' if c == '_' else 'NAME_UPPER' if c.isupper() else 'NAME_LOWER'), j, w
    for p, k in PUNCT:
        if s.startswith(p, i):
            return k, i + len(p), None
    if c == '0':
        if i + 1 < len(s) and s[i + 1] in DIGITS:
            return None
        return 'INTEGER', i + 1, 0
    if c in DIGITS or c == '-' and i + 1 < len(s) and s[i + 1] in DIGITS and s[i + 1] != '0':
        j = i + 1
        while j < len(s) and s[j] in DIGITS:
            j += 1
        return 'INTEGER', j, int(s[i:j])
    if c in '"\'':
        out = []
        j = i + 1
        while j < len(s):
            d = s[j]
            if d == c:
                return 'STRING', j + 1, ''.join(out)
            if d == '\\':
                e = s[j + 1:j + 2]
                if e == 'u' and len(s) >= j + 6 and all(h in HEX for h in s[j + 2:j + 6]):
                    out.append(chr(int(s[j + 2:j + 6], 16)))
                    j += 6
                elif e and (e in ESC or e == c):
                    out.append(ESC.get(e, e))
                    j += 2
                else:
                    return None
            elif d in '\n\r\x00' or '\ud800' <= d <= '\udfff':
                return None
            else:
                out.append(d)
                j += 1
        return None
    return None


def tokens(s):
    """(list of (kind, (start, end), value), position of the error or None)"""
    out = []
    i = skip(s, 0)
    while i < len(s):
        t = token(s, i)
        if t is None:
            return out, i
        out.append((t[0], (i, t[1]), t[2]))
        i = skip(s, t[1])
    return out, None


# ------------------------------------------------------------------ the parser
class NotASentence(Exception):
    pass


class Unsupported(Exception):
    pass


class P(object):
    """Every way to read a span of tokens: methods yield (tree, end)."""

    def __init__(self, toks, lax=False):
        self.lax = lax
        self.t = [k for k, _, _ in toks]
        self.v = [v for _, _, v in toks]
        self.memo = {}

    def k(self, i):
        return self.t[i] if i < len(self.t) else None

    def call(self, name, i):
        key = (name, i)
        if key not in self.memo:
            self.memo[key] = list(getattr(self, name)(i))
        return self.memo[key]

    def datashape(self, i):
        if self.k(i) == 'QUESTIONMARK':
            for d, j in self.call('nooption', i + 1):
                yield ('option', d), j
        yield from self.call('nooption', i)

    def nooption(self, i):
        for d, j in self.call('dim', i):
            if self.k(j) == 'ASTERISK':
                for e, m in self.call('datashape', j + 1):
                    yield ('array', d, e), m
        for d, j in self.call('dtype', i):
            yield ('scalar', d), j

    def dim(self, i):
        k = self.k(i)
        if k == 'NAME_UPPER':
            yield ('typevar', self.v[i]), i + 1
            if self.k(i + 1) == 'ELLIPSIS':
                yield ('ellipsis', self.v[i]), i + 2
        elif k == 'NAME_LOWER':
            yield ('dimtype', self.v[i]), i + 1
            for a, j in self.constr(i):
                yield ('dimconstr', a), j
        elif k == 'INTEGER':
            yield ('fixed', self.v[i]), i + 1
        elif k == 'ELLIPSIS':
            yield ('ellipsis', None), i + 1

    def dtype(self, i):
        k = self.k(i)
        if k == 'NAME_UPPER':
            yield ('typevar', self.v[i]), i + 1
        elif k == 'NAME_LOWER':
            yield ('type', self.v[i]), i + 1
            yield from self.constr(i)
        elif k == 'LBRACE':
            yield from self.struct(i)
        elif k == 'LPAREN':
            for items, j in self.listof('datashape', i + 1, trailing=True, empty=True):
                if self.k(j) == 'RPAREN':
                    yield ('tuple', items), j + 1
                    if self.k(j + 1) == 'RARROW':
                        for r, m in self.call('datashape', j + 2):
                            yield ('function', items, r), m

    def listof(self, item, i, trailing=False, empty=False):
        """item (COMMA item)*, in every possible length."""
        if empty:
            yield [], i
        todo = [([x], j) for x, j in self.call(item, i)]
        while todo:
            xs, j = todo.pop()
            yield xs, j
            if self.k(j) == 'COMMA':
                if trailing or self.lax:
                    yield xs, j + 1
                todo += [(xs + [x], m) for x, m in self.call(item, j + 1)]

    def struct(self, i):
        for fs, j in self.listof('field', i + 1, trailing=True, empty=True):
            if self.k(j) == 'RBRACE':
                yield ('record', fs), j + 1

    def field(self, i):
        if self.k(i) in ('NAME_LOWER', 'NAME_UPPER', 'NAME_OTHER', 'STRING') and \
                self.k(i + 1) == 'COLON':
            for d, j in self.call('datashape', i + 2):
                yield (self.v[i], d), j

    def constr(self, i):
        if self.k(i + 1) != 'LBRACKET':
            return
        for args, kw, j in self.args(i + 2):
            if self.k(j) == 'RBRACKET':
                yield ('constr', self.v[i], args, kw), j + 1

    def args(self, i):
        for kw, j in self.listof('kwarg', i):
            yield [], kw, j
        for xs, j in self.listof('arg', i):
            yield xs, [], j
            if self.k(j) == 'COMMA':
                for kw, m in self.listof('kwarg', j + 1):
                    yield xs, kw, m

    def kwarg(self, i):
        if self.k(i) == 'NAME_LOWER' and self.k(i + 1) == 'EQUAL':
            for a, j in self.call('arg', i + 2):
                yield (self.v[i], a), j

    def arg(self, i):
        for d, j in self.call('datashape', i):
            yield ('ds', d), j
        if self.k(i) in ('INTEGER', 'STRING', 'BOOLEAN'):
            yield ('lit', self.v[i]), i + 1
        if self.k(i) == 'LBRACKET':
            if self.k(i + 1) == 'RBRACKET':
                yield ('list', []), i + 2
            for f in ('datashape', 'integer', 'string', 'boolean'):
                for xs, j in self.listof(f, i + 1):
                    if self.k(j) == 'RBRACKET':
                        yield ('list', [('ds', x) if f == 'datashape' else x for x in xs]), j + 1

    def lit(self, i, kind):
        if self.k(i) == kind:
            yield ('lit', self.v[i]), i + 1

    def integer(self, i):
        return self.lit(i, 'INTEGER')

    def string(self, i):
        return self.lit(i, 'STRING')

    def boolean(self, i):
        return self.lit(i, 'BOOLEAN')


def trees(s, lax=False):
    """The readings of a text: none if it is no sentence."""
    toks, err = tokens(s)
    if err is not None:
        return []
    p = P(toks, lax)
    out = []
    for t, j in p.call('datashape', 0):
        if j == len(toks) and t not in out:
            out.append(t)
    return out


TYPES = {n: n for n in ('int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 '
                        'bool complex64 complex128').split()}


def base_type(n):
    t = {'int8': ct.int8, 'int16': ct.int16, 'int32': ct.int32, 'int64': ct.int64, 'uint8': ct.uint8,
         'uint16': ct.uint16, 'uint32': ct.uint32, 'uint64': ct.uint64, 'float16': ct.float16,
         'float32': ct.float32, 'float64': ct.float64, 'bool': ct.bool_, 'complex64': ct.complex64,
         'complex128': ct.complex128, 'int': ct.int32, 'real': ct.float64, 'complex': ct.complex128,
         'intptr': ct.int64, 'uintptr': ct.uint64, 'char': ct.char, 'string': ct.String(),
         'bytes': ct.Bytes(), 'json': ct.JSON(), 'date': ct.Date(), 'time': ct.Time(),
         'datetime': ct.DateTime(), 'timedelta': ct.TimeDelta(), 'null': ct.Null(),
         'void': ct.void, 'object': ct.object_}
    if n not in t:
        raise NotASentence(n)
    return t[n]


def ev(t):
    k = t[0]
    if k == 'option':
        return ct.DataShape(ct.Option(ev(t[1])))
    if k == 'array':
        return ct.DataShape(dim(t[1]), *ev(t[2])._parameters)
    if k == 'scalar':
        return ct.DataShape(ev(t[1]))
    if k == 'typevar':
        return ct.TypeVar(t[1])
    if k == 'type':
        return base_type(t[1])
    if k == 'record':
        return ct.Record([(n, ev(d)) for n, d in t[1]])
    if k == 'tuple':
        return ct.Tuple([ev(d) for d in t[1]])
    if k == 'function':
        return ct.Function(*([ev(d) for d in t[1]] + [ev(t[2])]))
    if k == 'constr':
        args = [arg(a) for a in t[2]]
        kw = {}
        for n, a in t[3]:
            if n in kw:
                raise Unsupported('the same keyword twice')
            kw[n] = arg(a)
        return constr(t[1], args, kw)
    raise NotASentence(k)


def arg(a):
    if a[0] == 'ds':
        return ev(a[1])
    if a[0] == 'lit':
        return a[1]
    return [arg(x) for x in a[1]]


def dim(d):
    if d[0] == 'typevar':
        return ct.TypeVar(d[1])
    if d[0] == 'ellipsis':
        return ct.Ellipsis() if d[1] is None else ct.Ellipsis(ct.TypeVar(d[1]))
    if d[0] == 'fixed':
        return ct.Fixed(d[1])
    if d[0] == 'dimtype' and d[1] == 'var':
        return ct.Var()
    if d[0] == 'dimtype' and d[1] == 'ellipsis':
        return ct.Ellipsis()
    if d[0] == 'dimconstr':
        raise NotASentence('dimension constructors are not supported')
    raise NotASentence(d)


def constr(n, args, kw):
    c = {'string': ct.String, 'option': ct.Option, 'map': ct.Map, 'time': ct.Time,
         'datetime': ct.DateTime, 'timedelta': ct.TimeDelta, 'units': ct.Units, 'decimal': ct.Decimal,
         'categorical': ct.Categorical, 'tuple': ct.Tuple}
    if n in c:
        return c[n](*args, **kw)
    if n == 'complex' and len(args) == 1 and not kw:
        t = args[0]
        m = t._parameters if isinstance(t, ct.DataShape) else ()
        if len(m) == 1 and m[0] is ct.float32:
            return ct.complex64
        if len(m) == 1 and m[0] is ct.float64:
            return ct.complex128
        raise NotASentence('complex')
    if n in ('struct', 'funcproto', 'typevar') and kw:
        raise Unsupported(n)
    if n == 'struct' and len(args) == 2:
        if not isinstance(args[0], (list, tuple)) or not isinstance(args[1], (list, tuple)):
            raise Unsupported(n)
        if len(args[0]) != len(args[1]):
            raise NotASentence('struct')
        return ct.Record(list(zip(args[0], args[1])))
    if n == 'funcproto' and len(args) == 2:
        if not isinstance(args[0], (list, tuple)):
            raise Unsupported(n)
        return ct.Function(*(list(args[0]) + [args[1]]))
    if n in ('typevar', 'fixed', 'ellipsis'):
        # read as a dimension constructor, which is not implemented
        raise Unsupported(n)
    raise NotASentence(n)
