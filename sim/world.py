"""The executable reference model - an ensemble is a list of rows - and the clients' operations on real ensembles.

Every operation is a JSON list, refers to ensembles by slot number and is a no-op when its slot is empty, so that any
sublist of a plan's operations is a plan as well.
"""

import copy
import os

import numpy as np

import qp

from . import calls, compare, zoo


class Model:
    """What an ensemble holds: shared parameters, and per row its parameters and ancillary values."""

    def __init__(self, gen_class, meta, rows, anc, vals=None):
        """vals: per row what pdf() and cdf() gave at zoo.XS, if it is known - the tables by themselves may lack something"""
        self.gen_class, self.meta, self.rows, self.anc, self.vals = gen_class, meta, rows, anc, vals

    def __getstate__(self):
        # classes of representations are made at run time: passed on by name
        return self.gen_class.name, self.meta, self.rows, self.anc, self.vals

    def __setstate__(self, state):
        name, self.meta, self.rows, self.anc, self.vals = state
        self.gen_class = qp.stats[name]

    @classmethod
    def of(cls, e, twin=None):
        """twin: an ensemble made of the same parameters, or e itself, that is asked for the values"""
        def rows(t, n):
            return [{k: np.array(np.asarray(v)[i], copy=True) for k, v in t.items()} for i in range(n)]

        n = int(e.npdf)
        meta = {k: np.array(v, copy=True) for k, v in e.metadata().items()}
        m = cls(e.gen_class, meta, rows(e.objdata(), n), None if e.ancil is None else rows(e.ancil, n))
        return m.answering(twin) if twin is not None else m

    def answering(self, e):
        """The model with the values that the ensemble e gives"""
        try:
            vals = [np.array(getattr(e, f)(zoo.XS), dtype=float, copy=True) for f in ("pdf", "cdf")]
        except Exception:  # pylint: disable=broad-except
            # rows that the representation rejects (made by a conversion to repeated quantiles, say)
            return self
        if any(v.shape != (self.npdf, zoo.XS.size) for v in vals):
            return self
        return Model(self.gen_class, self.meta, self.rows, self.anc, [tuple(v[i] for v in vals) for i in range(self.npdf)])

    @property
    def npdf(self):
        return len(self.rows)

    def select(self, idx):
        return Model(self.gen_class, self.meta, [self.rows[i] for i in idx], None if self.anc is None else [self.anc[i] for i in idx], self.vals and [self.vals[i] for i in idx])

    @staticmethod
    def concat(ms):
        def joined(tables):
            """Rows of several ensembles, each column of the one type that holds all its values"""
            out = [dict(r) for t in tables for r in t]
            for k in out[0]:
                t = np.result_type(*[r[k].dtype for r in out])
                for r in out:
                    r[k] = r[k].astype(t)
            return out

        anc = None if any(m.anc is None for m in ms) else joined([m.anc for m in ms])
        vals = None if any(m.vals is None for m in ms) else sum([m.vals for m in ms], [])
        return Model(ms[0].gen_class, ms[0].meta, joined([m.rows for m in ms]), anc, vals)

    def with_anc(self, table):
        anc = None
        if table is not None:
            anc = [{k: np.array(np.asarray(v)[i], copy=True) for k, v in table.items()} for i in range(self.npdf)]
        return Model(self.gen_class, self.meta, self.rows, anc, self.vals)

    def add_anc(self, table):
        anc = [dict(r) for r in self.anc] if self.anc is not None else [{} for _ in self.rows]
        for i, r in enumerate(anc):
            for k, v in table.items():
                r[k] = np.array(np.asarray(v)[i], copy=True)
        return Model(self.gen_class, self.meta, self.rows, anc, self.vals)

    def table(self):
        return {k: np.array([r[k] for r in self.rows]) for k in self.rows[0]}

    def anc_table(self):
        return None if self.anc is None else {k: np.array([r[k] for r in self.anc]) for k in self.anc[0]}

    def data(self):
        """Arguments of the representation's own creation function."""
        d = {k: np.squeeze(v) for k, v in self.meta.items() if k not in ("pdf_name", "pdf_version")}
        d = copy.deepcopy(d)
        d.update(self.table())
        return d

    def fresh(self):
        """An ensemble with these contents that nothing was done with."""
        return qp.Ensemble(self.gen_class.create, data=self.data(), ancil=self.anc_table())

    def compatible(self, other):
        if self.gen_class.name != other.gen_class.name or sorted(self.meta) != sorted(other.meta):
            return False
        if not all(np.array_equal(np.ravel(self.meta[k]), np.ravel(other.meta[k])) for k in self.meta):
            return False
        return {k: v.shape for k, v in self.rows[0].items()} == {k: v.shape for k, v in other.rows[0].items()}

    def unlike(self, other):
        """Whether the shared parameters differ by far, so that no ensemble can hold the rows of both"""
        if self.gen_class.name != other.gen_class.name or sorted(self.meta) != sorted(other.meta):
            return True
        for k, v in self.meta.items():
            a, b = np.ravel(v), np.ravel(other.meta[k])
            if a.shape != b.shape or not (np.allclose(a, b, rtol=1e-3, atol=1e-3) if a.dtype.kind == b.dtype.kind == "f" else np.array_equal(a, b)):
                return True
        return False

    def same_ancil_columns(self, other):
        if self.anc is None or other.anc is None:
            return True
        return {k: v.shape for k, v in self.anc[0].items()} == {k: v.shape for k, v in other.anc[0].items()}


def diff_model(e, m, probe=True, order=False):
    """None, or how the ensemble e differs from its model."""
    if e.gen_class.name != m.gen_class.name:
        return f"representation {e.gen_class.name} != {m.gen_class.name}"
    if int(e.npdf) != m.npdf:
        return f"npdf {e.npdf} != {m.npdf}"
    d = compare.diff_table(e.metadata(), m.meta, "metadata")
    if d:
        return d
    got, want = e.objdata(), m.table()
    if sorted(got) != sorted(want):
        return f"data: columns {sorted(got)} != {sorted(want)}"
    for k in want:
        g, w = np.asarray(got[k]), want[k]
        if g.shape != w.shape:
            return f"data: column {k} has shape {g.shape} != {w.shape}"
        if not np.allclose(g.astype(float), w.astype(float), rtol=compare.RTOL, atol=1e-12, equal_nan=True):
            bad = np.nonzero(~np.isclose(g.astype(float), w.astype(float), rtol=compare.RTOL, atol=1e-12, equal_nan=True).reshape(m.npdf, -1).all(axis=1))[0]
            return f"data: column {k} differs in rows {bad.tolist()}"
    anc = m.anc_table()
    if (e.ancil is None) != (anc is None):
        return f"ancil: {'missing' if e.ancil is None else 'unexpected'}"
    if anc is not None:
        d = compare.diff_table(e.ancil, anc, "ancil", exact=True)
        if d:
            return d
    if probe:
        try:
            f = m.fresh()
            want = {name: getattr(f, name)(zoo.XS) for name in ("pdf", "cdf")}
        except Exception:  # pylint: disable=broad-except
            # the representation rejects such rows (made by a conversion to repeated quantiles, say)
            want = {}
        if m.vals is not None:
            want = {name: np.array([v[i] for v in m.vals]) for i, name in enumerate(("pdf", "cdf"))}
        for name, y in want.items():
            x = getattr(e, name)(zoo.XS)
            if np.shape(x) != np.shape(y):
                return f"{name}: shape {np.shape(x)} != {np.shape(y)}"
            if not np.allclose(x, y, rtol=1e-8, atol=1e-10, equal_nan=True):
                return f"{name} differs by {np.nanmax(np.abs(x - y)):.3g}"
    return None


class Slot:
    def __init__(self, ens, model, args=None):
        self.ens, self.model = ens, model
        self.args = args or []  # arrays and dicts passed by the client, with a copy of each


def extra_columns(seed, n):
    r = zoo._rng("extra", seed)
    out = {f"c{seed % 3}": r.uniform(0, 9, n)}
    if seed % 4 == 0:
        out["rid"] = r.integers(0, 10**6, n)
    if seed % 7 == 3:
        out["z"] = r.integers(0, 99, n)  # elsewhere it has fractions
    if seed % 5 == 0:
        out["w2"] = r.uniform(0, 1, (n, 2))
    return out


# conversions: name -> (class, arguments)
def conversion(name):
    # as little rounded as the numbers of clients are
    g = np.linspace(0.0, 3.0, 31 if name == "sparse" else 32)
    table = {
        "hist": ("hist", dict(bins=np.linspace(0, 3, 14))),
        "hist_samples": ("hist", dict(bins=np.linspace(0, 3, 7), method="samples", size=150)),
        "interp": ("interp", dict(xvals=g)),
        "irregular": ("interp_irregular", dict(xvals=g)),
        "quant": ("quant", dict(quants=np.linspace(0.05, 0.95, 8))),
        "quant2": ("quant", dict(quants=np.linspace(0.1, 0.9, 5))),
        "mixmod": ("mixmod", dict(ncomps=2, nsamples=200)),
        "packed_lin": ("packed_interp", dict(xvals=g, packing_type=qp.PackingType.linear_from_rowmax)),
        "packed_log": ("packed_interp", dict(xvals=g, packing_type=qp.PackingType.log_from_rowmax, log_floor=-3.0)),
        "spline_xy": ("spline", dict(xvals=g, method="xy")),
        "spline_samples": ("spline", dict(xvals=g, method="samples", samples=100)),
        "sparse": ("sparse", dict(xvals=g, nvals=5)),
    }
    return table[name]


def do_convert(src, name, lib=False, args=None):
    cls, kw = conversion(name)
    if args is not None:
        args.append(kw)
    if lib:
        return qp.convert(src, cls, **kw)
    return src.convert_to(qp.stats[cls], **kw)


def select_key(op):
    """('pick', i) or ('slice', a, b, c) -> key and list semantics"""
    return op[1] if op[0] == "pick" else slice(op[1], op[2], op[3])
