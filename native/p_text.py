"""C11, C12, C13, C19: text."""
import itertools

from . import gen, ref_text as ref
from .fw import check, raises, snap, describe, Skip, N, from_list, chain
from .p_types import bad_ellipsis, deep
from .same import nat_eq
import datashape
from datashape import coretypes as ct, lexer, parser, error, type_symbol_table
from datashape.error import DataShapeSyntaxError

# ------------------------------------------------------------------ texts
WORDS = ['int32', 'int', 'string', 'bool', 'var', 'real', 'T', 'N', 'Abc', '_x', 'x', 'True', 'False',
         'Trueish', 'False_', 'TrueX', 'None', 'struct', 'map', 'option', 'tuple', 'funcproto', 'typevar',
         'fixed', 'ellipsis', 'categorical', 'decimal', 'units', 'time', 'datetime', 'timedelta',
         'complex', 'nosuch', 'json', 'null', 'date', 'bytes', 'char', 'object', 'void', 'Type', 'Falsetto']
MARKS = ['*', ',', '=', ':', '[', ']', '{', '}', '(', ')', '...', '->', '?', '0', '1', '3', '10', '-5',
         '007', '-0', '12345678901234567890']
STRS = ["'a'", '"b"', "''", '""', "'it\\'s'", '"q\\"q"', "'\\u0041'", "'\\n'", "'\\x41'", "'a b'",
        "'\\u00e9'", "'é'", '"\\ud800"', "'unclosed", '"un\nclosed"', "'\\\\'", "'\x00'", "'\ud800'",
        "'UTC'", "'A'", "'U16'", "'s'", "'\\b\\f\\r\\t'", '"\'"', "'\"'", "'#'", "'\\u12'"]
SPACES = [' ', '', ' ', '\n', '\t', ' # comment\n', '#', '\r\n', '\x0b', '\u2003', '\x1c', '  ', '#é\n',
          '\xa0']
ODD = ['@', '!', '.', '..', '-', '->>', 'é', '\x00', '\ud800', '+', '%', '/', '\\', '`', '٣', '½', '&', '|',
       '~', ';', '<', '>', '$', '^', '....', '0x1', '1e5', '1.5', 'T...', 'a-b', '\u200b', 'ª']


def lex_texts(rng, tier):
    everything = WORDS + MARKS + STRS + ODD
    for a in everything + SPACES:
        yield (repr(a),)
        for b in everything:
            if tier != 'quick' or rng.random() < .35:
                yield (repr(a + b),)
    for n in (33, 64, 101, 300, 2100):
        for a in ('a', 'A9_', '7', '10', ' ', '\\n', '# ', '"', "'", '->', '...', '*', '3 * ', 'True ', '"a b"',
                  '"\\\\n"', '#c\\n', '{', 'x,', '?', 'é', '"é" ', 'False'):
            yield ("'%s' * %d" % (a.replace("'", "\\'"), n),)
            yield ("'%s' * %d + ' %s'" % (a.replace("'", "\\'"), n, rng.choice(['@', 'int32', '"', '$ 3'])),)
        for q in ('"', "\\'"):
            yield ("'%s' + 'a%s' * %d + '%s, 3'" % (q, '\\\\n', n, q),)
            yield ("'%s' + 'é' * %d + '%s, 3'" % (q, n, q),)
    for _ in range(N(tier, 7000)):
        k = rng.randint(1, 8)
        r = rng.random()
        if r < .15:
            s = ''.join(chr(rng.choice([rng.randint(0, 127), rng.randint(0, 0x2fff), rng.randint(0, 0x10ffff)]))
                        for _ in range(k))
        elif r < .35:
            s = ''.join(rng.choice('"\'\\ubn0aA#\n -.>1T{}[]=,') for _ in range(rng.randint(1, 12)))
        else:
            pool = WORDS + MARKS + STRS if rng.random() < .7 else everything
            s = ''.join(rng.choice(pool) + rng.choice(SPACES) for _ in range(k))
        yield (repr(s),)


@check('C11', lex_texts)
def tokens(s):
    want, err = ref.tokens(s)
    got = []
    exc = None
    it = lexer.lex(s)
    while True:
        try:
            got.append(next(it))
        except StopIteration:
            break
        except DataShapeSyntaxError as e:
            exc = e
            break
        if len(got) > len(s):
            return 'more tokens than characters'
    a = [(t.name, tuple(t.span), t.val) for t in got]
    if a != [(k, sp, v) for k, sp, v in want] or \
            [type(t.val) for t in got] != [type(v) for _, _, v in want]:
        return 'tokens %r' % (a,)
    for t in got:
        if t.id != getattr(lexer, t.name):
            return 'id of %r' % (t,)
    if (exc is None) is not (err is None):
        return 'error: %r' % (exc,)
    if exc is not None:
        if exc.lexpos != err or exc.lineno != s.count('\n', 0, err) + 1:
            return 'error at %r, not %r' % (exc.lexpos, err)


# ------------------------------------------------------------------- sentences
NAMES12 = ['a', 'b', 'c', 'name', 'X', '_y', "'a b'", '"q"', 'True1', "'True'", "''", "'it\\'s'", 'var',
           'int32', "'\\u00e9'", 'T', "'1a'", '"x\\ny"', "'\\u0000'", "'a#b'", "'for'", 'for', "'class'",
           "'\\ud800'", "'\\u2028'", "'\\t'", "'A'", "'...'", "'é'", '"it\'s"']
CONSTR = ["string['A']", 'string[5]', "string[5, 'U16']", "string['utf8']", "string[0]", "string[3, 'ascii']",
          "time[tz='UTC']", "time['a\\'b']", "datetime['America/New_York']", "datetime[tz='UTC']",
          "timedelta['s']", "timedelta[unit='days']", "units['m']", "units['m', 3 * float64]",
          'decimal[5]', 'decimal[7, 2]', 'decimal[precision=7, scale=2]', 'complex[float32]',
          'complex[float64]', "categorical[['a', 'b'], type=string, ordered=True]",
          "categorical[[1, 2], int64]", "categorical[['x'], type=string]", "typevar['Tv']",
          "struct[['a', 'b'], [int32, 3 * int8]]", 'funcproto[[int32, 2 * int8], bool]', 'tuple[[int32, T]]',
          "categorical[[True, False], type=bool, ordered=False]", "option[int32]", "option[3 * int32]",
          "map[string, int32]", "tuple[[]]", "struct[[], []]", "funcproto[[], int32]", "units['a\\'b']",
          "time[tz='']", "datetime['\\u00e9\\n']", "string['U32']", 'decimal[38, 10]', "string[10, 'U32']",
          "categorical[['\\'', '\\n'], type=string]", "categorical[['a','b','c','d','e','f','g','h','i','j','k','l'], type=string]"]
WRONG = ['?', '??int32', '3 int32', 'int32 *', '* int32', '3 *', 'N', 'N int32', 'var int32', '{a int32}',
         '{a:}', '{:int32}', '{a: int32 b: int8}', '(int32', '(int32,,int8)', '(,)', '{,}', '()', '{}',
         'int32,', 'int32]', 'string[]', 'string[,]', 'string[5', 'string[5,]', "string[tz=]", '[int32]',
         '-> int32', '() ->', '() -> int32', '(int32) -> (int32) -> int8', '... int32', '...', '3', '-3 * int32',
         '', ' ', '# c', '3 * ?', '{a: ?}', '(?)', 'map[int32]', 'map[int32, int8, int16]', 'nosuch', 'nosuch[5]',
         'fixed[3] * int32', "typevar['A'] * int32", "ellipsis['A'] * int32", "ellipsis * int32", 'var * var',
         'var', 'int32 * int32', '3 * 4', 'A... * int32', 'A...', 'A ... * int32', '{a: int32}, {b: int32}',
         '?3 * int32', '2 * ?3 * int32', '{a: int32, a: int8}', '{"a": int32, a: int8}', '3 * * int32',
         "categorical[[1, 'a'], type=string]", "categorical[[int32, 1]]", 'decimal[x=5]', 'decimal[5, precision=5]',
         'string[5, enc=]', "timedelta['nosuch']", "string['nosuch']", 'complex[int32]', 'string[5 6]',
         "units[5]", 'option[?int32]', '?option[int32]', 'True', 'False * int32', '3 * True', '{True: int32}',
         '{False1: int32}', 'Truex', 'Truex * int32', '3.5 * int32', '01 * int32', '{a: int32;}', "string['A',]",
         "time[tz='UTC', tz='x']", 'int32 ?', 'int32 int32', '{a: 3}', '(3)', 'T...', '_x', '_x * int32',
         '{_x: int32}', "3 * 'a'", "'a'", '5 * [int32]', 'map[[int32], int8]', 'string[[5]]', '(int32,) -> int8',
         '{a: int32,}', '(int32,)', '(int32, int8,)', 'struct[["a"], [int32, int8]]', 'struct[["a"], int32]',
         'struct[["a", "a"], [int8, int8]]', 'option[int32, int8]', "datetime[5]", 'void', 'char', 'intptr',
         'uintptr', 'bytes', 'complex', 'timedelta', 'object', 'N * T', 'N * M * 3 * T', 'tuple[int32]']


class SGen(object):
    def __init__(self, rng, constr=CONSTR):
        self.r = rng
        self.c = constr

    def sp(self):
        r = self.r
        return r.choice([' ', ' ', ' ', '', '\n', '\t', ' # c, {\n']) if r.random() < .2 else ' '

    def ds(self, d, opt=True):
        r = self.r
        x = r.random()
        if opt and x < .12:
            return '?' + self.ds(d, False)
        if x < .45:
            dim = r.choice(['3', '0', '10', 'var', 'N', 'M', '...', 'A...', 'ellipsis', '123456789'])
            return dim + self.sp() + '*' + self.sp() + self.ds(d)
        return self.dt(d)

    def dt(self, d):
        r = self.r
        k = r.choice(['leaf', 'leaf', 'con', 'rec', 'rec', 'tup', 'fun', 'map']) if d else \
            r.choice(['leaf', 'con'])
        if k == 'leaf':
            return r.choice(['int32', 'string', 'bool', 'T', 'real', 'int', 'float32', 'json', 'date', 'time',
                             'datetime', 'timedelta', 'null', 'char', 'bytes', 'void', 'object', 'complex',
                             'int64', 'uint8', 'intptr', 'X1', 'Abc_d'])
        if k == 'con':
            return r.choice(self.c)
        if k == 'rec':
            names = r.sample(NAMES12, r.choice([0, 1, 1, 2, 3, 4, 7]))
            sep = ',' + self.sp()
            return '{' + sep.join(n + ':' + self.sp() + self.ds(d - 1) for n in names) + \
                (',' if names and r.random() < .15 else '') + '}'
        items = [self.ds(d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if k == 'tup' or k == 'fun':
            t = '(' + (',' + self.sp()).join(items) + (',' if items and r.random() < .15 else '') + ')'
            return t if k == 'tup' else t + ' -> ' + self.ds(d - 1)
        return 'map[%s, %s]' % (self.ds(d - 1), self.ds(d - 1))

    def arg(self, d):
        r = self.r
        return r.choice(['5', "'a'", 'True', '[]', '[1, 2]', "['a']", '[True]', '[int32]', self.ds(d - 1),
                         '[int32, 3 * int8]', 'tz', '[1, "a"]', '-3'])

    def odd(self, d):
        """Type constructors with arbitrary arguments."""
        r = self.r
        n = r.choice(['string', 'map', 'option', 'tuple', 'struct', 'funcproto', 'typevar', 'time', 'decimal',
                      'units', 'categorical', 'complex', 'timedelta', 'fixed', 'nosuch', 'datetime', 'int32'])
        a = [self.arg(d) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
        a += ['%s=%s' % (r.choice(['tz', 'unit', 'type', 'ordered', 'scale', 'categories']), self.arg(d))
              for _ in range(r.choice([0, 0, 1, 2]))]
        return '%s[%s]' % (n, ', '.join(a))


def mutate_text(rng, s):
    toks, err = ref.tokens(s)
    parts = [s[a:b] for _, (a, b), _ in toks]
    if not parts:
        return rng.choice(MARKS)
    i = rng.randrange(len(parts))
    k = rng.random()
    if k < .3:
        del parts[i]
    elif k < .6:
        parts.insert(i, rng.choice(MARKS + WORDS + STRS[:8]))
    elif k < .85:
        parts[i] = rng.choice(MARKS + WORDS + STRS[:8])
    else:
        j = rng.randrange(len(parts))
        parts[i], parts[j] = parts[j], parts[i]
    return ' '.join(parts)


def parse_texts(rng, tier):
    for s in WRONG + CONSTR:
        yield (repr(s),)
        yield (repr('{a: %s}' % s),)
        yield (repr('3 * ' + s),)
        yield (repr('(int8, %s)' % s),)
    g = SGen(rng)
    toks = ['int32', 'T', '3', '*', '?', '...', '(', ')', '{', '}', 'a', ':', ',', '->', '[', ']', 'map',
            "'s'", 'var', '=', 'True']
    for n in (1, 2, 3):
        for c in itertools.product(toks, repeat=n):
            if n < 3 or tier != 'quick' or rng.random() < .15:
                yield (repr(' '.join(c)),)
    for _ in range(N(tier, 2600)):
        s = g.ds(rng.randint(0, 3))
        yield (repr(s),)
        if rng.random() < .6:
            s = mutate_text(rng, s)
            yield (repr(s),)
        if rng.random() < .4:
            yield (repr(rng.choice(['', '3 * ', '{a: ']) + g.odd(2)),)
        if rng.random() < .5:
            yield (repr(' '.join(rng.choice(toks) for _ in range(rng.randint(2, 9)))),)


def meaning(s, lax=False):
    """The datashape of the text, or None if it has none."""
    ts = ref.trees(s, lax)
    out = []
    for t in ts:
        try:
            d = ref.ev(t)
        except ref.Unsupported:
            raise Skip
        except Exception:
            continue
        if not any(nat_eq(d, e) for e in out):
            out.append(d)
    if len(out) > 1:
        raise Skip
    return bool(ts), (out[0] if out else None)


@check('C12', parse_texts)
def sentences(s):
    exc, r = raises(datashape.dshape, s)
    is_sentence, want = meaning(s)
    if not is_sentence and exc is None:
        # a trailing comma may be accepted in any list
        is_sentence, want = meaning(s, True)
    if not is_sentence:
        if exc is None:
            return 'accepted, but no sentence of the grammar: %s' % describe(r)
        return
    if want is None or bad_ellipsis(want):
        if exc is None:
            return 'accepted as %s' % describe(r)
        return
    if exc is not None:
        return 'rejected: %r' % type(exc)
    if type(r) is not ct.DataShape or not nat_eq(r, want):
        return 'gives %s, not %s' % (describe(r), describe(want))
    if nat_eq(parser.parse(s, type_symbol_table.sym), want) is not True:
        return 'parse() differs from dshape()'


@check('C12', from_list([(repr(s),) for s in (
    '(' * 60 + 'int32' + ')' * 60, '{a: ' * 40 + 'int8' + '}' * 40, '?' * 30 + 'int8', '3 * ' * 200 + 'int8',
    '(' * 200, '{a: ' * 100, '[' * 100, 'map[' * 60, 'string[' + '[' * 60, '(int8, ' * 60 + ')' * 59,
    '3 * ' * 150, 'T... ' * 50, 'string[' + '1, ' * 300 + '5]', '{' + ', '.join('a%d: int8' % i for i in range(300)) + '}')]))
def long_texts(s):
    if s.count('(') + s.count('{') > 70:
        exc, r = raises(datashape.dshape, s)
        if exc is None and s.count('(') != s.count(')'):
            return 'accepted'
        return
    return sentences(s)


# ---------------------------------------------------------------------- C13
def roundtrip_texts(rng, tier):
    g = SGen(rng)
    for c in CONSTR + ['{%s: int32}' % n for n in NAMES12] + [w for w in WRONG]:
        yield (repr(c),)
        yield (repr('var * {x: %s, y: 3 * {z: ?int8}}' % c),)
    for n in NAMES12:
        for m in NAMES12[:6]:
            yield (repr('{%s: int32, b0: {%s: (int8, 3 * int8)}}' % (n, m)),)
    for _ in range(60):
        s = ''.join(rng.choice(['a', "\\'", '"', ' ', '\\n', '\\u0007', 'é', '#', '{', ',', '\\u0000', '\U0001f600',
                                '\\t', '\\r', '\u2028', '\x85', '\xa0', '\u200b', '\\u005c', '%', '\x7f', '\\ud83d',
                                '\x1b', '\\b', '\\f']) for _ in range(rng.randint(0, 6)))
        for f in ("{'%s': int32}", "time['%s']", "units['%s']", "categorical[['%s'], type=string]",
                  "datetime[tz='%s']"):
            yield (repr(f % s),)
    yield (repr('{%s}' % ', '.join('field_%d: 3 * var * {a: int32, b: string}' % i for i in range(40))),)
    yield (repr(' * '.join(['var', '3', 'N'] * 30 + ['int32'])),)
    yield (repr('(%s) -> int32' % ', '.join(['{a: int32, b: ?string}'] * 20)),)
    for n in (6, 15, 60):
        for f in ('a%d: int32', '"b %d": ?string', 'c%d: {x: 3 * int32, y: (int8, {z: string})}'):
            yield (repr('{%s}' % ', '.join(f % i for i in range(n))),)
            yield (repr('var * (%s)' % ', '.join('{%s}' % (f % i) for i in range(n))),)
    for w in ('{a: %s}', '{"a b": %s, c: int32}', '(%s, int32)', '3 * {a: (%s)}', '?{a: var * %s}',
              'map[string, {k: %s}]', '(%s) -> {x: int32}'):
        for n in (3, 9):
            t = 'int32'
            for _ in range(n):
                t = w % t
            yield (repr(t),)
    for n in range(60, 84):
        # around the width of a line
        yield (repr('{a: int32, %s: string}' % ('b' * n)),)
        yield (repr('{a: {%s: string}, c: (int8, int16)}' % ('b' * n)),)
        yield (repr('3 * ({%s: int32}, "x: int8")'.replace(', "x: int8"', ', {c: int8}') % ('d' * n)),)
    for _ in range(N(tier, 3000)):
        yield (repr(g.ds(rng.randint(0, 4))),)


@check('C13', roundtrip_texts)
def print_and_parse(s):
    exc, ds = raises(datashape.dshape, s)
    if exc is not None:
        raise Skip
    if any(isinstance(x, ct.Categorical) and len(x.categories) > 10 for x in deep(ds)):
        raise Skip
    before = snap(ds)
    for how, f in [('str', lambda: str(ds))] + \
            [('pprint at width %s' % w, lambda w=w: ct.pprint(ds, w)) for w in (0, 1, 2, 10, 30, 79, 80, 200)] + \
            [('pprint', lambda: ct.pprint(ds))]:
        exc, t = raises(f)
        if exc is not None:
            return '%s raised %r' % (how, exc)
        if type(t) is not str:
            return '%s gives %r' % (how, t)
        exc, r = raises(datashape.dshape, t)
        if exc is not None:
            return '%s gives %r, which raises %s' % (how, t, type(exc).__name__)
        if not nat_eq(r, ds) or not r == ds:
            return '%s gives %r, which is %s' % (how, t, describe(r))
    for x in deep(ds):
        if isinstance(x, (ct.Fixed, ct.Var, ct.Ellipsis)):
            continue
        t = str(x)
        exc, r = raises(datashape.dshape, t)
        if exc is not None or not nat_eq(r, x):
            return 'the part %s prints as %r' % (describe(x), t)
    if snap(ds) != before:
        return 'printing changes the datashape'


# ---------------------------------------------------------------------- C19
def error_texts(rng, tier):
    fixed = ['', '\n', '\n\n', 'a', 'a\n', '\na', 'ab\ncd\nef', 'a\r\nb', '\r', '{}{0}{x}', '%s%d', '\t\tx',
             'é\nü', 'line one\n  line two\n', '\x0b\x0c\x1c\u2028\x85z', '{', '}', 'x' * 300, '\ud800', '\x00']
    for s in fixed:
        for o in range(len(s) + 1):
            yield (repr(s), str(o))
    for n in (255, 256, 1024, 5000, 70000):
        for e in ("'a' * %d", "'a\\n' * %d", "' ' * 7 + 'b' * %d + '\\nc'", "'\\n' * %d + 'xyz'", "'\\t' * %d"):
            for o in (0, n - 1, n):
                yield (e % n, str(o))
    for _ in range(N(tier, 2000)):
        s = ''.join(rng.choice(['a', 'bc', '\n', '\n', ' ', '\r', '\t', '{', '}', '{0}', '%s', 'é', '\u2028', '\x0b'])
                    for _ in range(rng.randint(0, 20)))
        yield (repr(s), str(rng.randint(0, len(s))))


def check_error(e, s, o):
    start = s.rfind('\n', 0, o) + 1
    end = s.find('\n', o)
    line = s[start:end if end >= 0 else len(s)]
    want = (s[:o].count('\n') + 1, line, o - start)
    if (e.lineno, e.line, e.col_offset) != want:
        return 'reports %r, not %r' % ((e.lineno, e.line, e.col_offset), want)
    exc, t = raises(str, e)
    if exc is not None:
        return 'str raised %r' % exc
    exc, t2 = raises(repr, e)
    if exc is not None:
        return 'repr raised %r' % exc
    for x in (t, t2):
        k = x.find('line %d\n    %s\n    %s^\n' % (want[0], line, ' ' * want[2]))
        if k < 0:
            return 'message %r' % (x,)


@check('C19', error_texts)
def positions(s, o):
    for msg in (None, 'some message', 'a {b} %s'):
        e = DataShapeSyntaxError(o, '<nofile>', s, msg)
        m = check_error(e, s, o)
        if m:
            return m
        if (msg or 'invalid syntax') not in str(e) or '<nofile>' not in str(e):
            return 'message %r' % str(e)


def reject_texts(rng, tier):
    for s in WRONG:
        for pre in ('', '\n', '  \n\t', '{\n a:', '# é\n', '3 *\n '):
            yield (repr(pre + s),)
    g = SGen(rng)
    for _ in range(N(tier, 2500)):
        s = g.ds(rng.randint(0, 3))
        for _ in range(rng.randint(1, 2)):
            s = mutate_text(rng, s)
        if rng.random() < .4:
            k = rng.randint(0, len(s))
            s = s[:k] + rng.choice(ODD + STRS[-10:]) + s[k:]
        if rng.random() < .5:
            s = s.replace(' ', '\n', rng.randint(0, 3))
        yield (repr(s),)


@check('C19', reject_texts)
def rejected_texts(s):
    exc, r = raises(datashape.dshape, s)
    if not isinstance(exc, DataShapeSyntaxError):
        raise Skip
    if exc.text != s:
        # a string given where a datashape is expected is a text of its own
        if repr(exc.text)[1:-1] not in s and exc.text not in [v for _, _, v in ref.tokens(s)[0]]:
            return 'the text %r' % exc.text
        s = exc.text
    if not isinstance(exc.lexpos, int) or not 0 <= exc.lexpos <= len(s):
        return 'position %r in %r' % (exc.lexpos, exc.text)
    m = check_error(exc, s, exc.lexpos)
    if m:
        return m
    toks, err = ref.tokens(s)
    starts = {a for _, (a, b), _ in toks} | ({toks[-1][1][1]} if toks else {0})
    if err is not None:
        starts.add(err)
    if exc.lexpos not in starts:
        return 'points into the middle of a token'


@check('C19', from_list([(repr(s), str(o)) for s, o in [
    ('3 * int32 @', 10), ('3 *\n @', 5), ('int32 int32', 6), ('{a: int32 b: int8}', 10), ('{a int32}', 3),
    ('3 * ?', 5), ("'abc", 0), ('{a: int32,\n b int32}', 14), ('(int32', 6), ('nosuch', 0), ('3 * nosuch', 4),
    ('\n\n  @', 4), ('int32, int32', 5), ('string[]', 7), ('', 0), ('{"a": int32, "b" int8}', 17),
    ('(int32, ?)', 9)]]))
def offending_character(s, o):
    exc, r = raises(datashape.dshape, s)
    if not isinstance(exc, DataShapeSyntaxError):
        return 'gives %s' % describe(exc or r)
    if exc.lexpos != o:
        return 'points at %r' % exc.lexpos
    return check_error(exc, s, o)


# every character in a name, quoted either way
@check('C13', lambda rng, tier: [(str(b),) for b in range(0, 0x1100) if b < 256 or tier != 'quick' or b % 16 == 3])
def every_character(b):
    cs = [chr(b * 256 + i) for i in range(256)]
    for names in (cs, ["'" + c for c in cs]):
        ds = ct.Record([(n, ct.int8) for n in names])
        exc, r = raises(lambda: datashape.dshape(str(ds)))
        if exc is not None:
            return 'printing them and parsing that raised %r' % exc
        if type(r) is ct.DataShape:
            r = r.measure
        if list(r.names) != names:
            return 'the name %r reads %r' % [(x, y) for x, y in zip(names, r.names) if x != y][0]
