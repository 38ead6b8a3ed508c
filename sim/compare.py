"""Comparison of ensembles by what a user can observe of them."""

import numpy as np

from . import zoo

RTOL = 1e-9


def _val(v):
    v = np.squeeze(np.asarray(v))
    if v.dtype.kind in "SUO":
        return np.array([x.decode() if isinstance(x, bytes) else str(x) for x in v.ravel().tolist()]).reshape(v.shape)
    return v.astype(float)


def diff_table(a, b, what, exact=False):
    ka, kb = sorted(a), sorted(b)
    if ka != kb:
        return f"{what}: columns {ka} != {kb}"
    for k in ka:
        x, y = (np.asarray(a[k]), np.asarray(b[k])) if exact else (_val(a[k]), _val(b[k]))
        if x.shape != y.shape:
            return f"{what}: column {k} has shape {x.shape} != {y.shape}"
        if exact and (x.dtype.kind != y.dtype.kind or x.dtype.itemsize != y.dtype.itemsize):
            return f"{what}: column {k} has type {x.dtype} != {y.dtype}"
        if x.dtype.kind in "SUO":
            if not np.array_equal(x, y):
                return f"{what}: column {k} differs"
        elif exact:
            if not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
                return f"{what}: column {k} differs"
        elif not np.allclose(x, y, rtol=RTOL, atol=1e-12, equal_nan=True):
            return f"{what}: column {k} differs by {np.nanmax(np.abs(x - y)):.3g}"
    return None


def diff(a, b, probe=True):
    """None if the ensembles a (got) and b (expected) are the same, or what differs."""
    if a.gen_class.name != b.gen_class.name:
        return f"representation {a.gen_class.name} != {b.gen_class.name}"
    if int(a.npdf) != int(b.npdf):
        return f"npdf {a.npdf} != {b.npdf}"
    d = diff_table(a.metadata(), b.metadata(), "metadata")
    if d:
        return d
    oa, ob = a.objdata(), b.objdata()
    d = diff_table(oa, ob, "data")
    if d:
        return d
    for k in oa:
        if np.shape(oa[k]) != np.shape(ob[k]):
            return f"data: column {k} has shape {np.shape(oa[k])} != {np.shape(ob[k])}"
    if (a.ancil is None) != (b.ancil is None):
        return f"ancil: {'missing' if a.ancil is None else 'unexpected'}"
    if a.ancil is not None:
        d = diff_table(a.ancil, b.ancil, "ancil", exact=True)
        if d:
            return d
    if probe:
        for name in ("pdf", "cdf"):
            x, y = getattr(a, name)(zoo.XS), getattr(b, name)(zoo.XS)
            if np.shape(x) != np.shape(y):
                return f"{name}: shape {np.shape(x)} != {np.shape(y)}"
            if not np.allclose(x, y, rtol=1e-8, atol=1e-10, equal_nan=True):
                return f"{name} differs by {np.nanmax(np.abs(x - y)):.3g}"
    return None


def snap(e):
    """Deep copy of everything an ensemble holds, for 'unchanged' checks (bitwise)."""

    def cp(t):
        return None if t is None else {k: np.array(v, copy=True) for k, v in t.items()}

    return (e.gen_class.name, int(e.npdf), cp(e.metadata()), cp(e.objdata()), cp(e.ancil))


def diff_snap(a, b):
    if a[:2] != b[:2]:
        return f"{a[:2]} != {b[:2]}"
    for what, x, y in zip(("metadata", "data", "ancil"), a[2:], b[2:]):
        if (x is None) != (y is None):
            return f"{what} appeared or vanished"
        if x is None:
            continue
        if list(sorted(x)) != list(sorted(y)):
            return f"{what}: columns {sorted(x)} != {sorted(y)}"
        for k in x:
            if x[k].shape != y[k].shape or x[k].dtype != y[k].dtype or x[k].tobytes() != y[k].tobytes():
                return f"{what}: column {k} changed"
    return None
