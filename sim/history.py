"""Clients' histories on ensembles in memory: every operation acts on the real ensembles and on their models.

Operations are JSON lists and refer to ensembles by slot; one that does not apply to the slots' contents is skipped, so
any sublist of a plan's operations is a plan.
"""

import copy
import os

import numpy as np

import qp

from . import calls, compare, pristine, zoo
from .fileworld import gen_ids
from .world import Model, Slot, diff_model, do_convert, extra_columns

CONVS = ["hist", "interp", "irregular", "quant", "packed_lin", "packed_log", "spline_xy", "hist_samples", "mixmod", "spline_samples"]
SAMPLING = ["hist_samples", "mixmod", "spline_samples"]


def too_slow(rep, conv):
    """Splines find each quantile by a search"""
    return rep == "spline" and conv in SAMPLING + ["quant", "quant2"]
RT = ["hdf5", "pq", "fits", "h5"]


def owned_copy(v):
    if isinstance(v, dict):
        return {k: owned_copy(x) for k, x in v.items()}
    return np.array(v, copy=True) if isinstance(v, np.ndarray) else v


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    return a is b or a == b


class Owned(list):
    """Objects about to be passed to the library"""

    def __init__(self, world, what):
        super().__init__()
        self.world, self.what = world, what

    def append(self, obj):
        super().append(self.world.own(self.what, obj))


class World:
    def __init__(self, ctx):
        self.ctx, self.slots, self.args, self.nfile, self.prefix = ctx, {}, [], 0, ""
        self.results = []  # of evaluations
        self.witness = None
        self.call = lambda f: f()  # every call of the library under test goes through here

    # -------------------------------------------------------- the client's own arrays

    def own(self, what, obj):
        """Remember an object passed to the library, to see that it is not modified."""
        self.args.append((what, obj, owned_copy(obj)))
        return obj

    def check_args(self):
        for what, obj, cp in self.args:
            if not same(obj, cp):
                self.ctx.fail("argument-modified", what)

    # -------------------------------------------------------- operations

    def do(self, op):
        """(text, slots changed)"""
        f = getattr(self, "op_" + op[0])
        for s in self.uses(op):
            if s not in self.slots:
                return "skip", []
        r = f(*op[1:])
        if r is None:
            return "skip", []
        return r

    @staticmethod
    def uses(op):
        k = op[0]
        if k in ("make", "seed"):
            return []
        if k == "concat":
            return op[2]
        if k in ("pick", "slice", "take", "conv", "rt", "remake", "iter", "rows"):
            return [op[2]]
        if k in ("append", "anc_from"):
            return op[1:3]
        return [op[1]]

    def op_make(self, d, rep, shared, ids, anc):
        data, table = zoo.data(rep, shared, ids), zoo.ancil(anc, ids)
        self.own(f"data of {rep}", data)
        self.own("ancil", table)
        e = self.call(lambda: qp.Ensemble(zoo.gen_func(rep), data=data, ancil=table))
        self.slots[d] = Slot(e, Model.of(e, zoo.make(rep, shared, ids)).with_anc(table), (data, table))
        self.slots[d].origin = (rep, shared)
        self.ctx.hit(f"rep {rep}")
        return f"{rep} n={len(ids)} {anc}", [d]

    def op_remake(self, d, s):
        """A second ensemble from the very same arrays and dictionaries"""
        src = self.slots[s]
        if not src.args:
            return None
        data, table = src.args
        rep, _ = src.origin
        e = self.call(lambda: qp.Ensemble(zoo.gen_func(rep), data=data, ancil=table))
        twin = qp.Ensemble(zoo.gen_func(rep), data=copy.deepcopy(data))
        self.slots[d] = Slot(e, Model.of(e, twin).with_anc(table), (data, table))
        self.slots[d].origin = src.origin
        return "ok", [d]

    def op_pick(self, d, s, i, npint=0):
        src = self.slots[s]
        n = src.model.npdf
        if not -n <= i < n:
            return None
        key = [int, np.int64, np.int32, np.int16, np.intp][npint](i)
        self.slots[d] = Slot(self.call(lambda: src.ens[key]), src.model.select([range(n)[i]]))
        return f"row {i} of {n}", [d]

    def op_slice(self, d, s, a, b, c):
        src = self.slots[s]
        key = slice(a, b, c)
        rows = range(src.model.npdf)[key]
        if not rows:
            return None
        self.slots[d] = Slot(self.call(lambda: src.ens[key]), src.model.select(list(rows)))
        return f"rows {a}:{b}:{c} of {src.model.npdf}", [d]

    def op_take(self, d, s, rows, how):
        """Rows chosen one by one"""
        src = self.slots[s]
        n = src.model.npdf
        rows = [r % n for r in rows]
        key = rows
        if how == "mask":
            rows = sorted(set(rows))
            key = np.isin(np.arange(n), rows)
        elif how == "array":
            key = self.own("indices", np.array([r - n if i % 2 else r for i, r in enumerate(rows)]))
        self.slots[d] = Slot(self.call(lambda: src.ens[key]), src.model.select(rows))
        return f"{how} of {len(rows)} rows of {n}", [d]

    def refused(self, f, why):
        """An operation that has no right result"""
        try:
            f()
        except Exception:  # pylint: disable=broad-except
            return "refused", []
        return self.ctx.fail("accepted", f"{why} with other shared parameters did not raise")

    def op_concat(self, d, ss):
        srcs = [self.slots[s] for s in ss]
        if any(srcs[0].model.unlike(x.model) for x in srcs):
            return self.refused(lambda: qp.concatenate([x.ens for x in srcs]), "concatenating ensembles")
        if not all(srcs[0].model.compatible(x.model) and srcs[0].model.same_ancil_columns(x.model) for x in srcs):
            return None
        if any(x.model.anc is None for x in srcs):
            pass
        elif not all(x.model.same_ancil_columns(y.model) for x in srcs for y in srcs):
            return None
        self.slots[d] = Slot(self.call(lambda: qp.concatenate([x.ens for x in srcs])), Model.concat([x.model for x in srcs]))
        if sum(x.model.npdf for x in srcs) > 400:
            self.slots.pop(d)
        return f"{len(srcs)} ensembles", [d]

    def op_append(self, d, s):
        a, b = self.slots[d], self.slots[s]
        if a.model.unlike(b.model):
            return self.refused(lambda: a.ens.append(b.ens), "appending an ensemble")
        if not (a.model.compatible(b.model) and a.model.same_ancil_columns(b.model)) or a.model.npdf + b.model.npdf > 400:
            return None
        self.call(lambda: a.ens.append(b.ens))
        a.model = Model.concat([a.model, b.model])
        a.args = None
        return f"n={a.model.npdf}", [d]

    def op_rt(self, d, s, fmt):
        src = self.slots[s]
        self.nfile += 1
        path = os.path.join(self.ctx.dir, f"{self.prefix}rt{self.nfile}.{fmt}")
        self.call(lambda: src.ens.write_to(path))
        self.slots[d] = Slot(self.call(lambda: qp.read(path)), src.model)
        return fmt, [d]

    def op_iter(self, d, s, chunk):
        """Written, and read back in chunks which are put together again"""
        src = self.slots[s]
        self.nfile += 1
        path = os.path.join(self.ctx.dir, f"{self.prefix}it{self.nfile}.hdf5")
        src.ens.write_to(path)
        parts = [e for _, _, e in qp.iterator(path, chunk_size=chunk)]
        self.slots[d] = Slot(qp.concatenate(parts), src.model)
        return f"{len(parts)} chunks", [d]

    def op_rows(self, d, s):
        """Iterated over row by row, and put together again"""
        src = self.slots[s]
        parts = list(self.call(lambda: list(src.ens)))
        self.ctx.check(None if len(parts) == src.model.npdf else f"{len(parts)} rows instead of {src.model.npdf}", "rows-differ", "iterating over an ensemble")
        self.slots[d] = Slot(self.call(lambda: qp.concatenate(parts)), src.model)
        return f"{len(parts)} rows", [d]

    def op_conv(self, d, s, name, lib=0, seed=0):
        src = self.slots[s]
        if src.model.npdf > 12 or too_slow(src.model.gen_class.name, name):
            return None
        args = Owned(self, "arguments of a conversion")
        e = self.alike(src, lambda e: do_convert(e, name, lib, args), seed)
        if e is None:
            return "raises", []
        self.slots[d] = Slot(e, Model.of(e))
        return f"{src.model.gen_class.name} to {name}", [d]

    def op_ancil(self, s, anc, seed=0):
        sl = self.slots[s]
        table = self.own("ancil", zoo.ancil(anc, [seed + i for i in range(sl.model.npdf)]))
        self.call(lambda: sl.ens.set_ancil(table))
        sl.model = sl.model.with_anc(table)
        sl.args = None
        return anc, [s]

    def op_anc_from(self, d, s):
        a, b = self.slots[d], self.slots[s]
        if a.model.npdf != b.model.npdf:
            return None
        self.call(lambda: a.ens.set_ancil(b.ens.ancil))
        a.model = a.model.with_anc(b.model.anc_table())
        return "ok", [d]

    def op_addanc(self, s, seed):
        sl = self.slots[s]
        table = self.own("columns to add", extra_columns(seed, sl.model.npdf))
        self.call(lambda: sl.ens.add_to_ancil(table))
        sl.model = sl.model.add_anc(table)
        return ",".join(table), [s]

    def op_update(self, s, shared, ids, anc):
        """New contents of the same representation, as for a new ensemble"""
        sl = self.slots[s]
        if not getattr(sl, "origin", None):
            return None
        rep = sl.origin[0]
        data, table = self.own("data", zoo.data(rep, shared, ids)), self.own("ancil", zoo.ancil(anc, ids))
        twin = zoo.make(rep, shared, ids)
        want = Model.of(twin, twin).with_anc(table)
        self.call(lambda: sl.ens.update(data, table))
        sl.model, sl.args, sl.origin = want, None, (rep, shared)
        return f"{rep} n={len(ids)} {anc}", [s]

    def op_updobj(self, s, ids, anc):
        """New rows with the shared parameters kept"""
        sl = self.slots[s]
        if not getattr(sl, "origin", None):
            return None
        rep, shared = sl.origin
        twin = zoo.make(rep, shared, ids)
        fresh = Model.of(twin, twin)
        if sorted(fresh.rows[0]) != sorted(sl.model.rows[0]) or not all(np.array_equal(np.ravel(sl.model.meta[k]), np.ravel(fresh.meta[k])) for k in fresh.meta):
            return None
        data, table = self.own("objdata", fresh.table()), self.own("ancil", zoo.ancil(anc, ids))
        self.call(lambda: sl.ens.update_objdata(data, table))
        sl.model, sl.args = fresh.with_anc(table), None
        return f"n={len(ids)} {anc}", [s]

    def op_eval(self, s, call, scribble=0):
        sl = self.slots[s]
        if sl.model.npdf > 20 and call["fn"] not in calls.POINT + ["gridded", "mode"]:
            return None
        rep = sl.model.gen_class.name
        if rep in ("spline", "interp_irregular", "mixmod", "quant") and call["fn"] in ("mean", "std", "var", "moment", "stats"):
            return None
        if rep == "spline" and (call["fn"] == "rvs" and call["size"] > 2 or call["fn"] in ("ppf", "isf") and np.size(calls.points(call["x"], 1)) > 2):
            return None
        args = Owned(self, "points")
        got = self.alike(sl, lambda e: calls.invoke(e, call, args))
        if got is None:
            return "raises", []
        self.results.append(calls.copy_result(got))
        if self.witness:
            self.note(sl.model, call, self.results[-1])
        if scribble and call["fn"] in calls.POINT:
            for g in got:
                if isinstance(g, np.ndarray) and g.flags.writeable and not any(np.shares_memory(g, a) for a in args if isinstance(a, np.ndarray)):
                    g[...] = -7.0
        return calls.name(call), []

    def note(self, model, call, got):
        # the grid for a mixture's quantiles takes sums over all components: no more than rounding
        self.witness.note(pristine.invoked, (model, call), lambda want: calls.diff(got, want, 1e-8, 1e-10), "depends-on-history", f"{call} of {model.npdf} {model.gen_class.name}")

    def final_probes(self):
        """Values of the ensembles in the end are asked again, too"""
        for s in sorted(self.slots):
            sl = self.slots[s]
            try:
                got = [np.array(getattr(sl.ens, fn)(zoo.XS), copy=True) for fn in ("pdf", "cdf")]
            except Exception as x:  # pylint: disable=broad-except
                # as it has to be for some (made by a conversion to repeated quantiles, say)
                got = f"{type(x).__name__}: {x}"
            self.witness.note(pristine.probed, (sl.model,), lambda want, got=got: got if isinstance(got, str) else calls.diff(got, want, 1e-8, 1e-10), "depends-on-history", f"pdf and cdf of ensemble {s}, {sl.model.npdf} {sl.model.gen_class.name}")

    def op_write(self, s, fmt):
        sl = self.slots[s]
        self.nfile += 1
        path = os.path.join(self.ctx.dir, f"{self.prefix}w{self.nfile}.{fmt}")
        self.call(lambda: sl.ens.write_to(path))
        return fmt, []

    def alike(self, slot, f, seed=0):
        """f(ensemble), or None if it raises for an ensemble with these contents that nothing was done with, too"""
        np.random.seed(seed)
        try:
            return self.call(lambda: f(slot.ens))
        except MemoryError:
            raise
        except Exception as x:  # pylint: disable=broad-except
            try:
                np.random.seed(seed)
                f(slot.model.fresh())
            except Exception:  # pylint: disable=broad-except
                return None
            return self.ctx.fail("raises-after-history", f"{type(x).__name__}: {x}")

    # -------------------------------------------------------- checks

    def check_slot(self, s, sig, why, probe=True):
        sl = self.slots.get(s)
        if sl is not None:
            self.ctx.check(diff_model(sl.ens, sl.model, probe), sig, f"ensemble {s} {why}")

    def state(self, op, s):
        sl = self.slots.get(s)
        if sl is not None:
            self.ctx.state(op[0], sl.model.gen_class.name, min(sl.model.npdf, 4), sl.model.anc is None)


FILLS = ["make", "remake", "pick", "slice", "take", "concat", "rt", "iter", "rows", "conv"]


def gen_make(rng, d, reps=zoo.REPS + zoo.NOCHECK, shareds=2, anc=zoo.ANC_ALL):
    return ["make", d, rng.choice(reps), zoo.gen_shared(rng, shareds), gen_ids(rng, 0.02, 300), rng.choice(anc)]


def used(rng, ops):
    """A slot which the operations so far have (most likely) filled"""
    return rng.choice(sorted({o[1] for o in ops if o[0] in FILLS}))


def gen_slice(rng, d, s):
    if rng.random() < 0.2:
        return ["take", d, s, [rng.randrange(8) for _ in range(rng.choice([1, 1, 2, 3, 5]))], rng.choice(["list", "array", "mask"])]
    c = rng.choice([1, 1, 2, -1, -2, 3, None])
    a = rng.choice([None, 0, 0, 1, 2, -1, -3])
    b = rng.choice([None, None, 1, 2, 5, -1, 40])
    return ["slice", d, s, a, b, c]
