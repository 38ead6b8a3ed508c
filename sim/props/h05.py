"""H05: a value does not depend on what else is asked, before or in the same call."""

import numpy as np

from sim import calls, compare, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.history import World, gen_slice, used
from sim.pristine import Witness
from sim.world import Model

FN = ["pdf", "cdf", "ppf", "sf", "isf", "logpdf"]
SAMPLE = 14  # entries of each result that are compared with the value asked alone


def support(m):
    """Points that matter: knots, bin edges, table ends."""
    out = [0.0, 3.0]
    for t in [m.meta] + m.rows[:3]:
        for k in ("bins", "xvals", "locs", "splx"):
            if k in t:
                out += [float(v) for v in np.ravel(t[k])[:40]]
    return np.unique(np.array(out))


def lone(model, fn, x):
    return float(np.ravel(getattr(model.fresh(), fn)(x))[0])


def agree(g, want, tol):
    return (np.isnan(g) and np.isnan(want)) or g == want or abs(g - want) <= tol * max(abs(want), 1.0)


class Scenario(Base):
    pid = "H05"
    runs = {"quick": 700, "thorough": 60000}
    rule = "a run is a seeded sequence of several clients' evaluation calls on an ensemble, its selections and its enlargements; sampled entries of every result are compared with the value of the same distribution alone in a fresh ensemble at that point alone; non-trivial if at least one call held several points for several distributions"
    state_measure = "distinct (function, representation, shape class of the points, size class of the ensemble, points sorted / repeated) met"
    stub = "none"
    technique = "seeded splits and orders of evaluation requests against a one-request-at-a-time oracle"
    assumptions = ["ensembles of shape (n,)", "quantiles strictly between 0 and 1", "mixture quantiles compared to 1 % of the ensemble's range"]

    def gen(self, rng, tier, index):
        rep = rng.choice(zoo.ALL)
        slow = rep in zoo.SLOW_PPF
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 30])
        ops = [["make", 0, rep, rng.randrange(2 * zoo.TWIN), [rng.randrange(500) for _ in range(n)], "none"]]
        ops.append(["make", 1, rep, rng.choice([ops[0][3], (ops[0][3] + zoo.TWIN) % (2 * zoo.TWIN)]), [rng.randrange(500) for _ in range(rng.choice([1, 2, 3]))], "none"])
        for _ in range(rng.randint(4, 10)):
            d, s = rng.randrange(3), used(rng, ops)
            k = rng.choices(["ask", "slice", "pick", "concat", "append", "eval", "rt"], [40, 4, 3, 3, 3, 6, 1])[0]
            if k in ("append", "anc_from"):
                d = used(rng, ops)
            if k == "ask":
                fn = rng.choice(FN[:4] if not slow else FN[:2] * 4 + FN[2:4]) if rng.random() < 0.8 else rng.choice(FN)
                q = fn in ("ppf", "isf")
                kind = rng.choice(["scalar", "list", "rand", "rand", "rand", "table", "table", "knots", "knots", "big", "dup", "out", "pylist", "zerod", "square", "column", "perm", "perm", "gaps", "gaps", "rows", "rows"])
                cnt = rng.choice([1, 2, 3, 4, 5, 7, 12]) if not (slow and q) else rng.choice([1, 2])
                if slow and q and kind in ("big", "knots", "out"):
                    kind = "table"
                ops.append([k, s, fn, dict(kind=kind, n=cnt, seed=rng.randrange(10**6), sorted=rng.randrange(3))])
            elif k == "slice":
                ops.append(gen_slice(rng, d, s))
            elif k == "pick":
                ops.append([k, d, s, rng.randrange(-3, 3), 0])
            elif k == "concat":
                ops.append([k, d, [used(rng, ops), used(rng, ops)]])
            elif k == "append":
                ops.append([k, d, s])
            elif k == "rt":
                ops.append([k, d, s, "hdf5"])
            else:
                ops.append(["eval", s, calls.gen_call(rng, rep), 0])
        return dict(ops=ops)

    def points(self, spec, m, q):
        r = zoo._rng("h05", spec["seed"])
        kind, n = spec["kind"], spec["n"]
        lo, hi = (0.02, 0.98) if q else (-0.3, 3.3)
        if kind in ("scalar", "zerod"):
            v = float(r.uniform(lo, hi))
            return np.array(v) if kind == "zerod" else v
        if kind == "table":
            v = r.uniform(lo, hi, (m.npdf, n))
        elif kind == "square":
            v = r.uniform(lo, hi, (m.npdf, m.npdf)) if spec["seed"] % 2 else r.uniform(lo, hi, m.npdf)
        elif kind == "column":
            v = r.uniform(lo, hi, (m.npdf, 1)) if spec["seed"] % 2 else r.uniform(lo, hi, (1, n))
        elif kind == "big":
            v = r.uniform(lo, hi, 200 + n * 40)
        elif kind == "dup":
            v = r.choice(r.uniform(lo, hi, 3), n + 2)
            if spec["seed"] % 2:
                v = np.tile(v, (m.npdf, 1))
        elif kind == "perm":
            # the same points for each distribution, in another order for some
            v = np.tile(np.round(r.uniform(lo, hi, min(n, 4)), 2), (m.npdf, 1))
            for i in range(m.npdf):
                if r.random() < 0.4:
                    v[i] = r.permutation(v[i])
            return v
        elif kind == "gaps":
            # few points, repeated, and some which have no value
            v = r.choice(np.round(r.uniform(lo, hi, int(r.integers(1, 4))), 2), (m.npdf, min(n, 4)))
            v[r.random(v.shape) < 0.3] = np.nan
            return v
        elif kind == "knots" and not q:
            s = support(m)
            v = r.permutation(np.concatenate([s, s[:2], r.uniform(lo, hi, 3)]))[: 3 + 4 * n]
        elif kind == "knots":
            s = np.ravel(m.meta.get("quants", np.array([0.25, 0.5])))
            v = r.permutation(np.concatenate([s[(s > 0.001) & (s < 0.999)], r.uniform(lo, hi, 2)]))
        elif kind == "out" and not q:
            v = r.choice(np.array([-5.0, -0.5, 3.5, 60.0, 1.0, 0.5, np.inf, -np.inf]), n)
        elif kind == "out":
            v = np.concatenate([r.uniform(lo, hi, n), [[0.0], [1.0], [0.0, 1.0]][spec["seed"] % 3]])
            v = r.permutation(v)
        else:
            v = r.uniform(lo, hi, n)
            if kind == "list":
                v = np.round(v, 1) if not q else np.round(v, 2).clip(0.02, 0.98)
        if spec["sorted"] == 1:
            v = np.sort(v, axis=-1)
        elif spec["sorted"] == 2 and v.ndim == 1:
            v = np.sort(v)[::-1]
        return v.tolist() if kind == "pylist" else v

    @staticmethod
    def pairs(spec, m, x):
        """points and the row for each: one by one, or of some rows in any order"""
        r = zoo._rng("pairs", spec["seed"])
        x = np.atleast_1d(x)
        if spec["seed"] % 3 == 0:
            return x, r.integers(0, m.npdf, (int(r.integers(1, 4)), 1))
        x = np.concatenate([x, r.choice(x, 2)])
        rows = r.integers(0, m.npdf, x.size)
        if spec["seed"] % 3 == 1:
            # points and rows which almost go together as products do
            x = np.tile(x[:2], x.size // 2)
            rows = np.sort(rows[: x.size]) if r.random() < 0.5 else rows[: x.size]
        return x, rows

    def run(self, plan, ctx):
        w = World(ctx)
        w.witness = Witness(12)
        for op in plan["ops"]:
            k = op[0]
            if k == "ask":
                _, s, fn, spec = op
                if s not in w.slots:
                    continue
                e, m = w.slots[s].ens, w.slots[s].model
                x = self.points(spec, m, fn in ("ppf", "isf"))
                keep = np.array(x, copy=True)
                rows = np.arange(m.npdf)[:, None]
                try:
                    if spec["kind"] == "rows" and "row" in e.kwds:
                        # single points of single distributions, asked of the object behind the ensemble
                        x, rows = self.pairs(spec, m, x)
                        keep = x.copy()
                        got = np.array(getattr(e.dist, fn)(x, rows.copy()), copy=True)
                    else:
                        got = np.array(getattr(e, fn)(x), copy=True)
                except Exception as ex:  # pylint: disable=broad-except
                    ctx.fail("raised", f"{op}: {type(ex).__name__}: {ex}")
                xa = np.atleast_1d(keep)
                rows = np.broadcast_to(rows, np.broadcast_shapes(rows.shape, xa.shape))
                ctx.check(None if np.array_equal(keep, np.asarray(x), equal_nan=True) else "the array of points", "points-modified", f"{op}")
                want_shape = rows.shape
                ctx.check(None if got.shape == want_shape else f"shape {got.shape}, not {want_shape}", "shape", f"{op}")
                table = np.broadcast_to(xa, want_shape)
                r = zoo._rng("pick", spec["seed"], m.npdf)
                idx = r.permutation(got.size)[:SAMPLE if fn not in ("ppf", "isf") or m.gen_class.name != "spline" else 3]
                tol = 1e-9
                if m.gen_class.name == "mixmod" and fn in ("ppf", "isf"):
                    tol = 0.03
                for c, j in enumerate([np.unravel_index(i, got.shape) for i in idx]):
                    if fn in ("ppf", "isf") and table[j] in (0.0, 1.0):
                        continue
                    one = m.select([int(rows[j])])
                    want = lone(one, fn, float(table[j]))
                    g = float(got[j])
                    text = f"{op}: {fn} of row {int(rows[j])} of {m.npdf} ({m.gen_class.name}) at {float(table[j])!r} is {g!r}"
                    if not agree(g, want, tol):
                        ctx.fail("depends-on-context", f"{text}, alone it is {want!r}")
                    if c < 4:
                        w.witness.note(lone, (one, fn, float(table[j])), lambda x, g=g, tol=tol: None if agree(g, x, tol) else f"{x!r} when asked alone", "depends-on-context", text)
                ctx.hit(fn)
                srt = xa.ndim == 1 and bool(np.all(np.diff(xa) >= 0))
                ctx.state(fn, m.gen_class.name, spec["kind"], min(m.npdf, 4), srt, np.unique(xa).size < xa.size)
                if got.size > 1 and got.shape[0] > 1:
                    ctx.nontrivial = True
                ctx.log(*op[:3], spec["kind"], got.shape)
                continue
            try:
                done, _ = w.do(op)
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
            if k == "make":
                # parameters do not depend on the company either
                _, d, rep, shared, ids, _ = op
                m = w.slots[d].model
                for i in zoo._rng("alone", *ids).permutation(len(ids))[:3]:
                    alone = Model.of(zoo.make(rep, shared, [ids[i]]))
                    ctx.check(compare.diff_table(alone.table(), m.select([i]).table(), "data"), "construction-depends-on-context", f"row {i} of {op}")
            ctx.log(*op[:3], done)
        w.witness.settle(ctx)
