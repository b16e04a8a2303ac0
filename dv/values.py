"""Run-time values of the symbolic interpreter.

Anything that is not an instance of one of these classes is a concrete Python
object (None, bool, int, str, float, a class, a function, a module, or a live
object of the library under verification)."""
import z3


class Unsupported(Exception):
    """The code uses something outside of the verifier's reach."""


class PathDone(Exception):
    """This path is infeasible or is covered by another one."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, cls, args=(), obj=None):
        Exception.__init__(self, getattr(cls, '__name__', str(cls)))
        self.cls = cls
        self.vals = args
        self.obj = obj


class FlowReturn(Exception):
    def __init__(self, value):
        self.value = value


class FlowBreak(Exception):
    pass


class FlowContinue(Exception):
    pass


class FlowDone(FlowBreak):
    """The test of a while loop is false."""


class FlowOuter(Exception):
    """What the consumer of a generator did while it was suspended."""

    def __init__(self, inner):
        self.inner = inner


class Val:
    __slots__ = ()


_serial = [0]


class Store(dict):
    """Storage that loops can write: numbered in the order of creation."""
    __slots__ = 'serial',

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        _serial[0] += 1
        self.serial = _serial[0]


def serial():
    return _serial[0]


class SI(Val):
    __slots__ = 't',

    def __init__(self, t):
        self.t = t


class SB(Val):
    __slots__ = 't',

    def __init__(self, t):
        self.t = t


class SS(Val):
    __slots__ = 't',

    def __init__(self, t):
        self.t = t


class SV(Val):
    """A value of unknown class: a term of sort V."""
    __slots__ = 't',

    def __init__(self, t):
        self.t = t


class SCls(Val):
    """A class object that is not known: a term of sort Cls."""
    __slots__ = 't',

    def __init__(self, t):
        self.t = t


class Part:
    """A piece of a sequence: concrete items, or `n` items given by `at`."""
    __slots__ = 'items', 'n', 'at', 'mark'

    def __init__(self, items=None, n=None, at=None, mark=None):
        self.items, self.n, self.at, self.mark = items, n, at, mark


class Seq:
    """An immutable sequence of values, made of parts."""
    __slots__ = 'parts',

    def __init__(self, parts=()):
        self.parts = tuple(p for p in parts
                           if p.mark is not None or p.items is None or p.items)

    @staticmethod
    def of(items):
        return Seq([Part(items=list(items))])

    @staticmethod
    def sym(n, at):
        return Seq([Part(n=n, at=at)])

    def concrete(self):
        """The list of items, or None when the length is not known."""
        out = []
        for p in self.parts:
            if p.items is None:
                return None
            out.extend(p.items)
        return out

    def __add__(self, other):
        return Seq(_merge(self.parts + other.parts))


def _merge(parts):
    out = []
    for p in parts:
        if out and p.items is not None and out[-1].items is not None and \
                p.mark is None and out[-1].mark is None:
            out[-1] = Part(items=out[-1].items + p.items)
        else:
            out.append(p)
    return out


class Tup(Val):
    __slots__ = 'seq', 'ref', 'named'

    def __init__(self, seq, ref=None, named=None):
        self.seq = seq if isinstance(seq, Seq) else Seq.of(seq)
        self.ref = ref
        self.named = named          # the class of a named tuple


class MatchV(Val):
    """A match of a regular expression."""
    __slots__ = 'text', 'start', 'end', 'last'

    def __init__(self, text, start, end, last):
        self.text, self.start, self.end, self.last = text, start, end, last


class Cell(Val):
    """Mutable storage; every write goes through the journal."""
    __slots__ = 'st', 'ref'

    def __init__(self, **st):
        self.st = Store(st)
        self.ref = None


class ListV(Cell):
    __slots__ = ()


class SetV(Cell):
    __slots__ = ()       # st['seq']: the items added, with repetitions


class DictV(Cell):
    __slots__ = ()       # st['items']: Seq of Tup (key, value), later wins


class MapV(Val):
    """A dictionary given as an input (never written)."""
    __slots__ = 'ref',

    def __init__(self, ref):
        self.ref = ref


class Obj(Val):
    __slots__ = 'cls', 'attrs', 'ref', 'frozen'

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = Store(attrs or {})
        self.ref = None
        self.frozen = False


class ExcV(Val):
    """An exception object."""
    __slots__ = 'cls', 'args'

    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class SliceV(Val):
    __slots__ = 'start', 'stop', 'step'

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Closure(Val):
    __slots__ = 'node', 'frame', 'fn', 'defaults', 'kwdefaults'

    def __init__(self, node, frame, defaults=(), kwdefaults=None):
        self.node, self.frame = node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}


class BMeth(Val):
    """A method bound to a value."""
    __slots__ = 'fn', 'self'

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Prim(Val):
    """A built-in operation of the interpreter: call(interp, args, kwargs)."""
    __slots__ = 'name', 'fn', 't'

    def __init__(self, name, fn, t=None):
        self.name, self.fn, self.t = name, fn, t


class IterV(Val):
    """A lazy iterable: drive(body) calls body(value) for every item."""
    __slots__ = 'drive', 'seqf'

    def __init__(self, drive, seqf=None):
        self.drive = drive
        self.seqf = seqf          # optional: () -> Seq, random access


class SuperV(Val):
    __slots__ = 'cls', 'self'

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class MaybeUnbound(Val):
    __slots__ = 'cond', 'value'

    def __init__(self, cond, value):
        self.cond, self.value = cond, value


class Opaque(Val):
    """A value nothing is known about and that nothing may depend on, such
    as the text of an error message."""
    __slots__ = 'what',

    def __init__(self, what):
        self.what = what


MISSING = object()


def is_sym(v):
    return isinstance(v, Val)
