"""Representations which exist in several releases, and simulated nodes which run one release each.

A family has a current encoding, the one of a base representation of qp, and older ones.  Release r of a family is a
class with version r which reads files of older releases through the converters registered with it.
"""

import os
import pickle
import signal

import numpy as np

import qp
from qp.pdf_gen import Pdf_rows_gen
from scipy import stats as sps

from . import compare, interrupt, zoo
from .pristine import _write


def hist0(d):
    return dict(bins=np.asarray(d["edges"]), pdfs=np.asarray(d["heights"]))


def hist1(d):
    # the probability of each bin, under the name which later has the density
    return dict(bins=np.asarray(d["bins"]), pdfs=np.asarray(d["pdfs"]) / np.diff(d["bins"]))


def norm0(d):
    # the variance, under the name which later has the standard deviation
    return dict(loc=d["loc"], scale=np.sqrt(d["scale"]))


def interp0(d):
    # a grid given by its start, step and length
    return dict(xvals=d["z0"] + d["dz"] * np.arange(int(d["nz"])), yvals=d["yvals"])


def interp1(d):
    # the grid in units of a thousandth
    return dict(xvals=np.asarray(d["xvals"]) / 1000.0, yvals=np.asarray(d["yvals"]))


def mix0(d):
    # (npdf, 3 * ncomps): weights, means, stds side by side
    w, m, s = np.split(np.asarray(d["pars"]), 3, axis=-1)
    return dict(weights=w, means=m, stds=s)


# family: (base representation, {old version: reader}, current version)
FAMILIES = {
    "simhist": ("hist", {0: hist0, 1: hist1}, 2),
    "simnorm": ("norm", {0: norm0}, 1),
    "siminterp": ("interp", {0: interp0, 1: interp1}, 2),
    "simmix": ("mixmod", {0: mix0}, 1),
}


def encode(family, version, data):
    """Arguments in the current encoding -> (metadata, columns) of a file of that version"""
    base, _, current = FAMILIES[family]
    if family == "simhist":
        bins, pdfs = data["bins"], data["pdfs"]
        if version == 0:
            return dict(edges=bins), dict(heights=pdfs)
        if version == 1:
            return dict(bins=bins), dict(pdfs=pdfs * np.diff(bins))
        return dict(bins=bins), dict(pdfs=pdfs)
    if family == "simnorm":
        return {}, dict(loc=data["loc"], scale=data["scale"] ** 2 if version == 0 else data["scale"])
    if family == "siminterp":
        x, y = data["xvals"], data["yvals"]
        if version == 0:
            return dict(z0=x[0], dz=x[1] - x[0], nz=x.size), dict(yvals=y)
        return dict(xvals=x * 1000.0 if version == 1 else x), dict(yvals=y)
    if version == 0:
        return {}, dict(pars=np.hstack([data["weights"], data["means"], data["stds"]]))
    return {}, {k: data[k] for k in ("weights", "means", "stds")}


class Encoded(Pdf_rows_gen):
    """What an old release has: it holds the arrays of its own encoding"""

    meta_names, col_names = (), ()

    def __init__(self, *args, **kwargs):
        # scipy makes the distribution once more, with arguments of its own besides
        table = {k: np.asarray(kwargs[k]) for k in self.col_names}
        meta = {k: kwargs[k] for k in self.meta_names}
        super().__init__(shape=next(iter(table.values())).shape[:-1])
        for k, v in meta.items():
            self._addmetadata(k, v)
        for k, v in table.items():
            self._addobjdata(k, v)
        self._ctor = dict(meta, **table)

    def _pdf(self, x, row):
        return np.zeros_like(np.asarray(x, dtype=float))

    def _updated_ctor_param(self):
        return dict(super()._updated_ctor_param(), **self._ctor)

    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        return {k: ((npdf, *np.shape(v)[1:]), np.asarray(v).dtype) for k, v in kwargs.items() if k in cls.col_names}

    @classmethod
    def add_mappings(cls):
        cls._add_creation_method(cls.create, None)


class Style:
    """How the authors of a release wrote its readers"""

    def __init__(self, style, calls):
        self.style, self.calls = style, calls

    def reader(self, family, version, f):
        def convert(data):
            self.calls.append((family, version))
            assert "pdf_name" not in data and "pdf_version" not in data
            out = f(data)
            if self.style == "inplace":
                data.clear()
                data.update(out)
                return data
            return out

        return convert

    def default(self, family):
        """One reader for all versions, which tells them apart by what they hold"""
        base, readers, _ = FAMILIES[family]

        def convert(data):
            self.calls.append((family, None))
            for probe, v in (("edges", 0), ("z0", 0), ("pars", 0)):
                if probe in data:
                    return readers[v](data)
            return data

        return convert


def add_release(family, version, style):
    """The class of a family as of one release, known to qp afterwards"""
    base, readers, current = FAMILIES[family]
    if version == current:
        bases = (qp.stats[base],)
        body = dict(name=family, version=version)
    else:
        bases = (Encoded,)
        meta, table = encode(family, version, zoo.data(base, 0, [1]))
        body = dict(name=family, version=version, meta_names=tuple(meta), col_names=tuple(table))
    cls = type(f"{family}_v{version}", bases, body)
    qp.stats.add_class(cls)
    if version == current:
        if style.style == "default":
            cls._add_reader_method(style.default(family), None)
        else:
            for v, f in readers.items():
                cls._add_reader_method(style.reader(family, v, f), v)
    return cls


def current_data(e):
    base, shared, ids, anc = e
    return zoo.data(base, shared, ids)


def make(family, version, e):
    """The ensemble e = [base, shared, ids, anc] as release `version` makes it"""
    meta, table = encode(family, version, current_data(e))
    return qp.Ensemble(qp.stats[family].creation_method(None), data=dict(meta, **table), ancil=zoo.ancil(e[3], e[2]))


def told(e):
    """What an ensemble holds, as plain data"""
    cp = lambda t: None if t is None else {k: np.array(v) for k, v in t.items()}
    out = dict(name=e.gen_class.name, version=int(e.gen_class.version), npdf=int(e.npdf), meta=cp(e.metadata()), data=cp(e.objdata()), anc=cp(e.ancil))
    if not isinstance(e.gen_obj, Encoded):
        out["pdf"] = np.array(e.pdf(zoo.XS))
        out["cdf"] = np.array(e.cdf(zoo.XS))
    return out


class Node:
    """A process which runs one release of every family, until it is stopped"""

    def __init__(self, releases, style):
        self.releases = releases
        down_r, self.down = os.pipe()
        self.up, up_w = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(down_r)
            os.close(up_w)
            self.wf, self.rf = os.fdopen(self.down, "wb"), os.fdopen(self.up, "rb")
            return
        try:
            os.close(self.down)
            os.close(self.up)
            rf, wf = os.fdopen(down_r, "rb"), os.fdopen(up_w, "wb")
            calls = []
            st = Style(style, calls)
            for family, version in releases.items():
                add_release(family, version, st)
            kept = {}
            while True:
                f, args, cut = pickle.load(rf)
                if f is None:
                    break
                del calls[:]
                try:
                    if cut is None:
                        out = ("ok", f(kept, *args))
                    else:
                        k, kind = cut
                        with interrupt.Interrupt(k, interrupt.KINDS[kind]) as i:
                            try:
                                out = ("ok", f(kept, *args))
                            except BaseException as x:  # pylint: disable=broad-except
                                if not i.fired:
                                    raise
                                out = ("cut", i.where)
                except Exception as x:  # pylint: disable=broad-except
                    out = ("raises", f"{type(x).__name__}: {x}")
                pickle.dump((*out, list(calls)), wf)
                wf.flush()
        finally:
            os._exit(0)

    def call(self, f, *args, cut=None):
        """-> ("ok", result, readers called), ("raises", text, ..) or ("cut", where, ..)"""
        pickle.dump((f, args, cut), self.wf)
        self.wf.flush()
        return pickle.load(self.rf)

    def stop(self, kill=False):
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        else:
            pickle.dump((None, None, None), self.wf)
            self.wf.flush()
        self.wf.close()
        self.rf.close()
        os.waitpid(self.pid, 0)
