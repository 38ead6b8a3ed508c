"""Ensembles of every representation, made from row ids.

A representation's shared parameters are a function of (rep, shared); the parameters of one row are
a function of (rep, shared, id), and so are its ancillary values.  The reference model of an ensemble
is therefore (rep, shared, [ids], ancillary variant): plain data the simulator keeps on its side.
"""

import zlib

import numpy as np

import qp
from scipy.interpolate import BSpline, splrep

QUANT = ["piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"]
SCIPY = ["norm", "gamma", "uniform", "lognorm", "beta"]
ROWS = ["hist", "interp", "interp_irregular", "mixmod", "packed_lin", "packed_log", "spline", "sparse"] + ["quant_" + q for q in QUANT]
REPS = ROWS + SCIPY
# representations whose tables can be left to be built by the first evaluation
NOCHECK = ["interp_nc", "packed_lin_nc", "packed_log_nc"]
# ensembles made with a creation function that is not the default one of their representation, or of whole numbers
MADE = {"spline_xy": "xy", "spline_kde": "samples", "norm_int": None}
ALL = REPS + NOCHECK + list(MADE)
ANC = ["none", "basic", "mixed"]
ANC_ALL = ANC + ["wide", "special", "column", "ints"]
# the quantile function of these comes from a search per point: slow
SLOW_PPF = ["spline", "spline_xy", "spline_kde"]
# the moments of these come from scipy's generic integration: about a second per distribution
SLOW_MOMENT = SLOW_PPF + ["interp_irregular", "mixmod"] + ["quant_" + q for q in QUANT]

XS = np.array([0.13, 0.48, 0.77, 1.05, 1.61, 2.2, 2.93])
QS = np.array([0.07, 0.31, 0.5, 0.72, 0.94])


def _rng(*key):
    return np.random.default_rng([zlib.crc32(str(k).encode()) for k in key])


def pdf_class(rep):
    if rep.startswith("quant_"):
        return qp.quant_gen
    if rep.startswith("packed"):
        return qp.packed_interp_gen
    if rep.startswith("spline"):
        return qp.spline_gen
    return qp.stats[rep.split("_")[0] if rep in ("norm_int",) else rep.replace("_nc", "")]


TWIN = 6  # shared parameters number k + TWIN are as many as those number k, with the same ends, but others


def gen_shared(rng, n):
    """One of the first n sets of shared parameters, or its twin"""
    return rng.randrange(n) + (TWIN if rng.random() < 0.3 else 0)


def shared_data(rep, shared):
    """Parameters common to all rows of an ensemble."""
    if shared < TWIN:
        return _shared_data(rep, shared)
    out = _shared_data(rep, shared - TWIN)
    r = _rng("twin", rep, shared)
    for k in ("bins", "xvals", "quants"):
        if k in out:
            v = out[k]
            dx = np.diff(v)
            even = k == "bins" and not np.allclose(dx, dx[0])
            # bins: of equal widths instead of others; else the inner values are moved
            out[k] = np.linspace(v[0], v[-1], v.size) if even else np.concatenate([v[:1], v[1:-1] + 0.3 * r.uniform(-1, 1, v.size - 2) * np.minimum(dx[1:], dx[:-1]), v[-1:]])
    if "log_floor" in out:
        out["log_floor"] -= 0.5
    if "mu" in out:
        out.pop("xvals")
        out.update(xvals=np.linspace(0, 3, 41), mu=[0.3, 2.7], sig=[0.12, 0.5])
    return out


def _shared_data(rep, shared):
    r = _rng("shared", rep, shared)
    base = rep.replace("_nc", "")
    if base == "hist":
        n = int(r.integers(2, 9))
        if shared % 2:
            return dict(bins=np.linspace(0.0, 3.0, n + 1))
        return dict(bins=np.concatenate([[0.0], np.sort(r.uniform(0.2, 2.8, n - 1)), [3.0]]))
    if base == "interp":
        return dict(xvals=np.linspace(0, 3, int(r.integers(4, 12))))
    if base == "packed_lin":
        d = dict(xvals=np.linspace(0, 3, int(r.integers(5, 12))), packing_type=qp.PackingType.linear_from_rowmax)
        if r.random() < 0.5:
            d["log_floor"] = -float(np.round(r.uniform(2, 4.5), 1))
        return d
    if base == "packed_log":
        return dict(xvals=np.linspace(0, 3, int(r.integers(5, 12))), packing_type=qp.PackingType.log_from_rowmax, log_floor=-float(np.round(r.uniform(2, 4.5), 1)))
    if base == "sparse":
        return dict(xvals=np.linspace(0, 3, 41), mu=[0.2, 2.8], sig=[0.1, 0.6], dims=[6, 4, 2, 32001, 5])
    if base == "spline_kde":
        return dict(xvals=np.linspace(0, 3, int(r.integers(8, 14))))
    if base.startswith("quant_"):
        n = int(r.integers(5, 10))
        if base == "quant_dual_spline_average":
            n = max(n, 8)  # it takes two cubic splines, each through every other quantile
        q = np.linspace(0.06, 0.95, n)
        q[1:-1] += r.uniform(-0.02, 0.02, n - 2)
        if r.random() < 0.3:
            q[0], q[-1] = 0.0, 1.0
        return dict(quants=q, pdf_constructor_name=base[len("quant_"):])
    return {}


def _sizes(rep, shared):
    """Table lengths per row that all rows of an ensemble have to share."""
    shared %= TWIN
    return int(_rng("size", rep, shared).integers(5, 11)), int(_rng("ncomp", rep, shared).integers(1, 4))


def row_data(rep, shared, rid, sh):
    r = _rng("row", rep, shared, rid)
    base = rep.replace("_nc", "")
    npts, ncomp = _sizes(rep, shared)
    if base == "hist":
        v = r.uniform(0.05, 1, sh["bins"].size - 1)
        return dict(pdfs=v)
    if base == "interp":
        y = r.uniform(0.05, 1, sh["xvals"].size)
        if rep.endswith("_nc"):
            y = y / (0.5 * np.sum(np.diff(sh["xvals"]) * (y[1:] + y[:-1])))
        return dict(yvals=y)
    if base == "interp_irregular":
        x = np.cumsum(r.uniform(0.1, 0.6, npts))
        return dict(xvals=x - x[0] + r.uniform(0, 0.2), yvals=r.uniform(0.05, 1, npts))
    if base == "mixmod":
        return dict(means=r.uniform(0.3, 2.5, ncomp), stds=r.uniform(0.1, 0.5, ncomp), weights=r.uniform(0.1, 1, ncomp))
    if base.startswith("packed"):
        p = r.integers(20, 256, sh["xvals"].size).astype(np.uint8)
        m = r.uniform(0.5, 1, 1)
        if rep.endswith("_nc"):
            if base == "packed_lin":
                y = p / 255.0
            else:
                y = 10 ** (sh["log_floor"] * (1 - p / 255.0))
            m = np.array([1.0 / (0.5 * np.sum(np.diff(sh["xvals"]) * (y[1:] + y[:-1])))])
        return dict(ypacked=p, ymax=m)
    if base == "spline_kde":
        return dict(samples=r.normal(r.uniform(0.8, 2.2), 0.4, npts + 4))
    if base in ("spline", "spline_xy"):
        x = np.linspace(0, 3, npts + 4)
        y = 0.2 + np.exp(-0.5 * ((x - r.uniform(0.5, 2.5)) / r.uniform(0.3, 0.6)) ** 2)
        if base == "spline_xy":
            return dict(xvals=x, yvals=y)
        t, c, k = splrep(x, y)
        y = y / float(BSpline(t, c, k).integrate(0, 3))
        t, c, k = splrep(x, y)
        return dict(splx=t, sply=c, spln=np.array([k]))
    if base == "sparse":
        coef = np.concatenate([[32000], r.integers(2000, 32000, 4)])
        basis = r.choice(48, 5, replace=False)
        return dict(sparse_indices=(coef << 16) | basis)
    if base.startswith("quant_"):
        loc = np.cumsum(r.uniform(0.12, 0.5, sh["quants"].size))
        return dict(locs=loc - loc[0] + r.uniform(0, 0.5))
    if base == "norm_int":
        return dict(loc=r.integers(0, 4, 1), scale=r.integers(1, 3, 1))
    if base == "norm":
        return dict(loc=r.uniform(0.4, 2.4, 1), scale=r.uniform(0.2, 0.6, 1))
    if base == "gamma":
        return dict(a=r.uniform(1.2, 3, 1), loc=r.uniform(-0.2, 0.1, 1), scale=r.uniform(0.3, 0.7, 1))
    if base == "uniform":
        return dict(loc=r.uniform(0, 0.4, 1), scale=r.uniform(2.5, 3, 1))
    if base == "lognorm":
        return dict(s=r.uniform(0.3, 0.8, 1), scale=r.uniform(0.5, 1.5, 1))
    if base == "beta":
        return dict(a=r.uniform(1.2, 3, 1), b=r.uniform(1.2, 3, 1), scale=r.uniform(2.8, 3.2, 1))
    raise KeyError(rep)


def data(rep, shared, ids):
    """Constructor arguments, freshly allocated."""
    sh = shared_data(rep, shared)
    rows = [row_data(rep, shared, i, sh) for i in ids]
    out = dict(sh)
    for k in rows[0]:
        out[k] = np.vstack([r[k] for r in rows])
    if rep.endswith("_nc"):
        out["check_input"] = False
    return out


def ancil(anc, ids):
    if anc == "none":
        return None
    ids = np.array(ids)
    if anc == "column":
        # tables of one column that has two dimensions
        return dict(c=np.vstack([_rng("c", i).uniform(0, 3, 1) for i in ids]))
    out = dict(rid=ids.astype(np.int64), z=np.array([_rng("z", i).uniform(0, 3) for i in ids]))
    if anc == "ints":
        out["z"] = out["rid"] % 17  # elsewhere it has fractions
    if anc == "mixed":
        out["w"] = np.array([_rng("w", i).uniform(0, 3) for i in ids], dtype=np.float32)
        out["n"] = (ids * 7 % 251).astype(np.int32)
    if anc == "wide":
        out["w2"] = np.vstack([_rng("w2", i).uniform(0, 3, 2) for i in ids])
    if anc == "special":
        pick = [np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7e308, 0.1]
        out["s"] = np.array([pick[i % 7] for i in ids])
        out["big"] = np.array([2**53 + 1 + i for i in ids], dtype=np.int64)
        out["neg"] = np.array([-i - 1 for i in ids], dtype=np.int16)
    return out


def gen_func(rep):
    return pdf_class(rep).creation_method(MADE.get(rep))


def make(rep, shared, ids, anc="none"):
    return qp.Ensemble(gen_func(rep), data=data(rep, shared, ids), ancil=ancil(anc, ids))


# representations whose distribution objects, made without checking of the input, leave tables to the first evaluation
LAZY = ["hist", "interp_nc", "interp_irregular", "packed_lin_nc", "packed_log_nc"]


class Direct:
    """A distribution object outside of an ensemble, with the functions of points that an ensemble has"""

    def __init__(self, rep, shared, ids):
        self.gen_class = pdf_class(rep)
        self.dist = self.gen_class(**dict(data(rep, shared, ids), check_input=False))
        self.npdf = len(ids)

    def __getattr__(self, fn):
        if fn not in ("pdf", "cdf", "ppf", "sf", "isf", "logpdf"):
            raise AttributeError(fn)
        return lambda x: getattr(self.dist, fn)(x, np.arange(self.npdf)[:, None])
