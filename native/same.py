"""Equality by structure, written independently of the library's __eq__."""


UNDEF = object()


def nat_eq(x, y):
    from datashape import coretypes as ct
    if x is UNDEF or y is UNDEF:
        return False
    if x is y:
        return True
    if isinstance(x, ct.Mono) and isinstance(y, ct.Mono):
        kx, ky = norm_ds(x), norm_ds(y)
        return len(kx) == len(ky) and all(comp_eq(a, b) for a, b in zip(kx, ky))
    if isinstance(x, ct.Mono) or isinstance(y, ct.Mono):
        f, o = (x, y) if isinstance(x, ct.Mono) else (y, x)
        return type(f) is ct.Fixed and isinstance(o, int) and f.val == o
    if type(x) is tuple and type(y) is tuple or type(x) is list and type(y) is list:
        return len(x) == len(y) and all(nat_eq(a, b) for a, b in zip(x, y))
    if type(x) is dict and type(y) is dict:
        return x.keys() == y.keys() and all(nat_eq(x[k], y[k]) for k in x)
    try:
        return bool(x == y)
    except Exception:
        return False


def norm_ds(x):
    """Dimensions followed by the measure."""
    from datashape import coretypes as ct
    if isinstance(x, ct.DataShape):
        return list(x._parameters)
    return [x]


def raw_params(x):
    sl = getattr(type(x), '__slots__', None)
    if sl is None:
        return x.__dict__.get('_parameters', ())
    return tuple(getattr(x, s) for s in ((sl,) if isinstance(sl, str) else sl))


def comp_eq(a, b):
    """Components of a datashape."""
    from datashape import coretypes as ct
    if a is b:
        return True
    if type(a) is not type(b):
        return nat_eq(a, b) if not isinstance(a, ct.Mono) or not isinstance(b, ct.Mono) \
            else False
    if not isinstance(a, ct.Mono):
        return nat_eq(a, b)
    p, q = raw_params(a), raw_params(b)
    return len(p) == len(q) and all(nat_eq(s, t) for s, t in zip(p, q))
