"""Comparison and small helpers shared by the property modules."""
import numpy as np

from .engine import Violation


def rs(seed):
    return np.random.RandomState(seed & 0x7fffffff)


def rel(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    if a.dtype == object or b.dtype == object:
        return 0.0 if a.tolist() == b.tolist() else np.inf
    a = a.astype(np.complex128)
    b = b.astype(np.complex128)
    na, nb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(na, nb):
        return np.inf
    if not na.all():
        if not np.array_equal(np.isnan(a), np.isnan(b)):
            return np.inf
        a = np.where(na, a, 0)
        b = np.where(nb, b, 0)
    d = float(np.max(np.abs(a - b)))
    s = max(float(np.max(np.abs(b))), float(np.max(np.abs(a))))
    if s < 1e-12:
        return 0.0
    return d / s


def same(what, got, want, tol=1e-9, kind='mismatch', sig=None):
    """Raise Violation unless the two values agree to a relative tolerance."""
    if got is None and want is None:
        return
    if (got is None) != (want is None):
        raise Violation(kind, '%s: %r versus %r' % (what, _s(got), _s(want)), sig)
    if isinstance(want, (tuple, list)) and isinstance(got, (tuple, list)):
        if len(got) != len(want):
            raise Violation(kind, '%s: length %d versus %d' % (what, len(got), len(want)), sig)
        for i, (g, w) in enumerate(zip(got, want)):
            same('%s[%d]' % (what, i), g, w, tol, kind, sig)
        return
    if np.shape(got) != np.shape(want):
        raise Violation(kind, '%s: shape %s, expected %s' % (what, np.shape(got), np.shape(want)), sig)
    r = rel(got, want)
    if not r <= tol:
        raise Violation(kind, '%s differs from the reference by %.3e relative (tolerance %.1e)' % (what, r, tol), sig)


def _s(x):
    return 'None' if x is None else 'array%s' % (np.shape(x),)


def snap(x):
    """Deep copy of a returned value."""
    if isinstance(x, tuple):
        return tuple(snap(v) for v in x)
    if isinstance(x, list):
        return [snap(v) for v in x]
    return np.array(x, copy=True)


SKIPF = ('Time',)


def stats(itstat, drop=SKIPF):
    """Iteration statistics as a list of (field, values) without times."""
    out = []
    for r in itstat:
        out.append({f: getattr(r, f) for f in r._fields if f not in drop})
    return out


def same_stats(what, got, want, tol=1e-9, kind='stats', drop=()):
    if len(got) != len(want):
        raise Violation(kind, '%s: %d statistics records, expected %d' % (what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        if list(g) != list(w):
            raise Violation(kind, '%s: record %d has fields %s, expected %s' % (what, i, list(g), list(w)))
        for f in w:
            if f in drop:
                continue
            a, b = g[f], w[f]
            if a is None or b is None:
                ok = a is None and b is None
            else:
                ok = close(a, b, tol)
            if not ok:
                raise Violation(kind, '%s: record %d field %s is %r, expected %r' % (what, i, f, a, b))


def close(a, b, tol):
    try:
        a, b = float(np.real(a)), float(np.real(b))
    except TypeError:
        return a == b
    if np.isnan(a) and np.isnan(b):
        return True
    if a == b:
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-13


def drop_each(lst):
    """Candidate sublists for shrinking: halves first, then single removals."""
    n = len(lst)
    if n > 3:
        yield lst[:n // 2]
        yield lst[n // 2:]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]


def with_(scn, **kw):
    import copy
    s = copy.deepcopy(scn)
    s.update(kw)
    return s
