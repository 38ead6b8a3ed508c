"""M02: streaming point statistics and PIT approximate the one-shot result."""

import os

import numpy as np

import qp
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import point_estimate_metric_classes as pm
from qp.metrics.factory import MetricFactory

from sim import cluster, compare, interrupt, sched, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.props.p05 import Chunks, gen_chunks
from sim.world import Model

KINDS = dict(iqr="point_stats_iqr", bias="point_bias", outlier="point_outlier_rate", mad="point_stats_sigma_mad")
HOW = ["slice", "slice", "fresh", "rows", "iter", "reuse", "refill", "concat"]
BINS = 4001
# distributions whose cdf is quick for many rows
MANY = ["norm", "uniform", "hist", "interp", "gamma"]


def resolution(compression, n):
    """Bound of the error in rank of a digest of n values: twice what was measured of pytdigest alone (see DESIGN.md)"""
    return 12.0 / compression + 2.0 / n


def points(shape, n, seed):
    r = np.random.default_rng([11, seed])
    ref = r.uniform(0.1, 3.0, n)
    if shape == "normal":
        ez = 0.05 * r.standard_normal(n) + 0.02
    elif shape == "heavy":
        ez = 0.03 * r.standard_t(2, n)
    elif shape == "narrow":  # the least cut of the outlier rate applies
        ez = 0.005 * r.standard_normal(n) + r.choice([0, 0.3], n, p=[0.9, 0.1])
    elif shape == "sorted":
        ez = np.sort(0.2 * r.standard_normal(n))
    elif shape == "two":
        ez = np.where(np.arange(n) < n // 3, 1.0, 0.0) + 0.1 * r.standard_normal(n)
    else:
        ez = r.uniform(-1, 1, n)
    return ref + ez * (1 + ref), ref


SHAPES = ["normal", "heavy", "narrow", "sorted", "two", "flat"]


class Data:
    """The empirical distribution of all values"""

    def __init__(self, x, eps):
        self.s, self.n = np.sort(x), len(x)
        # a digest goes gradually from the values of a group of equal ones to the next
        j = np.searchsorted(self.s, self.s + 1e-6, "right") - np.arange(self.n)
        self.eps = eps + (j.max() - 1) / self.n

    def value(self, q):
        """Bounds of the value at rank q"""
        lo, hi = np.floor((q - self.eps) * self.n) - 1, np.ceil((q + self.eps) * self.n)
        tiny = 1e-9 * (1 + np.abs(self.s).max())
        return self.s[int(np.clip(lo, 0, self.n - 1))] - tiny, self.s[int(np.clip(hi, 0, self.n - 1))] + tiny

    def below(self, v):
        """Bounds of the fraction of values below v"""
        tiny = 1e-9 * (1 + abs(v))
        return np.searchsorted(self.s, v - tiny, "left") / self.n - self.eps, np.searchsorted(self.s, v + tiny, "right") / self.n + self.eps

    def within(self, v, bounds, what):
        a, b = bounds
        return None if a <= v <= b else f"{what} {v!r} is not within {a!r} .. {b!r}, as all {self.n} values have it"

    def check(self, kind, got):
        """None, or how a statistic obtained from digests misses the data"""
        if not np.isscalar(got) and np.ndim(got):
            return f"not a number: {got!r}"
        if not np.isfinite(got):
            return f"not finite: {got!r}"
        m, a, b = self.value(0.5), self.value(0.25), self.value(0.75)
        iqr = np.array([b[0] - a[1], b[1] - a[0]]) / 1.349
        if kind == "bias":
            return self.within(got, m, "the median")
        if kind == "iqr":
            return self.within(got, iqr, "the width")
        if kind == "outlier":
            cut = np.maximum(0.06, 3 * iqr)
            lo = self.below(-cut[1])[0] + 1 - self.below(cut[1])[1]
            hi = self.below(-cut[0])[1] + 1 - self.below(cut[0])[0]
            return self.within(got, (lo, hi), "the rate")
        d = got / 1.4826
        blur = m[1] - m[0] + 2 * (self.s[-1] - self.s[0]) / BINS
        dist = [np.abs(self.s - c) for c in m]
        most = np.mean(np.minimum(*dist) <= d + blur) + 4 * self.eps
        least = np.mean(np.maximum(*dist) < d - blur) - 4 * self.eps
        return self.within(0.5, (least, most), f"half of the values lie within {d!r} of the median, but the fraction")


class Scenario(Base):
    pid = "M02"
    runs = {"quick": 800, "thorough": 80000}
    rule = "a run is a simulated cluster whose workers digest chunks of seeded sizes of point estimates (and of distributions and true values) - chunks made in seven ways or delivered by a file - while messages with the digests are delayed, reordered, lost, repeated and converted, and workers crash, stall and are interrupted; or threads sharing the metric objects; or one call with a stream of the chunks; non-trivial if at least two digests were combined"
    state_measure = "distinct (statistic, way the chunks were delivered, compression, form of the digest, number of chunks) met, and places at which threads were switched"
    stub = "the network, the driver of the job and the workers' processes are simulated; the operating system's choice of the thread that runs"
    technique = "seeded schedules and faults of a simulated cluster against the data's order statistics"
    lists = ("ops", "faults", "switches")
    assumptions = ["a digest's error in rank is at most 12/compression + 2/n", "values without large groups of equal ones", "at least five values"]

    def gen(self, rng, tier, index):
        kind = rng.choice(["iqr", "bias", "outlier", "mad", "all", "pit", "pit", "pit"])
        comp = rng.choice([None, None, 1000, 300, 100, 40])
        n = rng.choice([5, 8, 20, 60, 150, 400, 1000])
        mode = rng.choices(["cluster", "threads", "stream"], [55, 15, 30 if kind != "pit" else 0])[0]
        chunks = []
        for c in gen_chunks(rng, n):
            if c not in chunks:
                chunks.append(c)
        deal = "chunks"
        rep = rng.choice(zoo.ALL) if n <= 60 else rng.choice(MANY)
        if kind == "pit" and rng.random() < 0.25:
            size, ranks = rng.randint(1, n), rng.choice([1, 2, 3])
            deal, chunks = "file", [[r, size, ranks] for r in range(ranks)]
            chunks = chunks if n // size < 60 else [[r, n // 8, ranks] for r in range(ranks)]
        if deal == "chunks" and len(chunks) > 60:
            size = n // 17
            chunks = [[a, min(n, a + size)] for a in range(0, n, size)]
            rng.shuffle(chunks)
        how = [rng.choice(HOW if kind == "pit" and n <= 60 else ["slice"]) for _ in chunks]
        return dict(
            mode=mode, kind=kind, deal=deal, comp=comp, n=n, shape=rng.choice(SHAPES), seed=rng.randrange(1000), ens=[rep, zoo.gen_shared(rng, 4), rng.randrange(400)],
            grid=rng.choice([None, 5, 11, 40]), ops=[[*c, h] for c, h in zip(chunks, how)], obj=rng.choice(["own", "shared", "factory"]),
            stream=rng.choice(["list", "tuple", "iterator", "arrays"]), switches=sched.gen_switches(rng) if mode == "threads" else [], first=rng.randrange(2),
            **cluster.gen_cluster(rng, len(chunks)),
        )

    def simplify(self, plan):
        if plan["workers"] > 1:
            yield dict(plan, workers=1)
        if plan["form"] != "pickle":
            yield dict(plan, form="pickle")
        if plan["kind"] == "pit" and plan["ens"][0] != "norm":
            yield dict(plan, ens=["norm", *plan["ens"][1:]])

    def metric(self, plan, kind, how):
        kw = {} if plan["comp"] is None else dict(tdigest_compression=plan["comp"])
        if kind == "mad":
            kw["num_bins"] = BINS
        if kind == "pit":
            if plan["grid"]:
                kw["eval_grid"] = np.linspace(0, 1, plan["grid"])
            return MetricFactory.create_metric("pit", **kw) if how == "factory" else cm.PITMetric(**kw)
        if how == "factory":
            return MetricFactory.create_metric(KINDS[kind], **kw)
        return dict(iqr=pm.PointSigmaIQR, bias=pm.PointBias, outlier=pm.PointOutlierRate, mad=pm.PointSigmaMAD)[kind](**kw)

    def run(self, plan, ctx):
        n, pit = plan["n"], plan["kind"] == "pit"
        kinds = ["iqr", "bias", "outlier", "mad"] if plan["kind"] == "all" else [plan["kind"]]
        eps = resolution(plan["comp"] or 1000, n)
        e = m = source = None
        if pit:
            rep, sh, first = plan["ens"]
            e = zoo.make(rep, sh, range(first, first + n), "none")
            m = Model.of(e)
            source = os.path.join(ctx.dir, "in.hdf5")
            e.write_to(source)
            r = np.random.default_rng([13, plan["seed"]])
            ref = r.uniform(0.4, 2.2, n)
            if plan["shape"] in ("normal", "sorted"):
                ref = np.squeeze(e.ppf(r.uniform(0.02, 0.98, n)[:, None])) if rep not in zoo.SLOW_PPF + ["mixmod"] else ref
            est = None
            snap = compare.snap(e)
        else:
            est, ref = points(plan["shape"], n, plan["seed"])
        keep = [None if v is None else v.copy() for v in (est, ref)]
        shared = {k: self.metric(plan, k, plan["obj"]) for k in kinds}
        if plan["first"]:
            for k in kinds:
                shared[k].evaluate(e if pit else est, ref)
        rows = {}
        tasks = list(range(len(plan["ops"])))
        fork = plan["mode"] == "threads"

        def start(w):
            ms = shared if plan["obj"] == "shared" else {k: self.metric(plan, k, plan["obj"]) for k in kinds}
            return dict(metrics=ms, chunks=Chunks(e if plan["obj"] == "shared" else m.fresh(), m, source) if pit else None)

        def parts_of(state, op):
            if not pit:
                yield op[0], op[1], est[op[0] : op[1]]
            elif len(op) == 4:
                yield from qp.iterator(source, chunk_size=op[1], rank=op[0], parallel_size=op[2])
            else:
                yield op[0], op[1], state["chunks"].get(*op)

        def do(state, task, stop):
            op = plan["ops"][task]
            out, mine = [], []
            try:
                for a, b, c in parts_of(state, op):
                    if stop is not None:
                        with interrupt.Interrupt(stop % 60, KeyboardInterrupt):
                            for k in kinds:
                                state["metrics"][k].accumulate(c, ref[a:b])
                        continue
                    got = [state["metrics"][k].accumulate(c, ref[a:b]) for k in kinds]
                    mine.append((a, b))
                    out.append(got if fork else [cluster.ship(g, plan["form"]) for g in got])
            except KeyboardInterrupt:
                return None
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"accumulate of {op}: {type(x).__name__}: {x}")
            rows[task] = mine
            return out

        if plan["mode"] == "stream":
            self.run_stream(plan, ctx, est, ref, kinds, shared, eps)
        else:
            if fork:
                results, order = {}, []

                def program(w):
                    state = start(w)

                    def run():
                        for k in tasks[w :: plan["workers"]]:
                            results[k] = do(state, k, None)
                            order.append(k)

                    return run

                s = sched.Scheduler([program(w) for w in range(plan["workers"])], plan["switches"], ctx, [interrupt.ROOT])
                s.run()
                ctx.hit("hand-overs", s.nswitch)
                ctx.steps += s.steps
                ctx.log("threads", order, s.nswitch)
                for x in s.where:
                    ctx.state(x)
                extra = []
            else:
                c = cluster.Cluster(plan["workers"], plan["delays"], plan["faults"], ctx, start, do)
                c.run(tasks)
                order, results, extra = c.order, c.results, c.extra
            for k, out in extra:
                same = all(np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float), rtol=1e-9, atol=1e-12) if np.shape(x) == np.shape(y) else False for p, q in zip(out, results[k]) for x, y in zip(p, q))
                ctx.check(None if same else "other centroids", "not-reproducible", f"the digest of {plan['ops'][k]}")
            parts = [(a, b, p) for k in order for (a, b), p in zip(rows[k], results[k])]
            if not parts:
                return
            ctx.nontrivial |= len(parts) > 1
            ctx.hit("digests", len(parts) * len(kinds))
            covered = sorted(i for a, b, _ in parts for i in range(a, b))
            for j, k in enumerate(kinds):
                ps = [p[j] for *_, p in parts]
                ctx.state(k, plan["deal"], plan["comp"], plan["form"], min(len(ps), 4), plan["mode"])
                self.final(plan, ctx, k, shared[k], ps, e, m, est, ref, covered, eps)
        for v, w in zip((est, ref), keep):
            ctx.check(None if v is None or np.array_equal(v, w) else "changed", "points-changed", "the values passed in")
        if pit:
            ctx.check(compare.diff_snap(snap, compare.snap(e)), "ensemble-changed", "the ensemble")

    def final(self, plan, ctx, k, metric, ps, e, m, est, ref, covered, eps):
        """The finalised result against all values at once"""
        if plan["seed"] % 2:
            # the same object finished a job of one chunk before
            try:
                metric.finalize(ps[-1:])
            except Exception:  # pylint: disable=broad-except
                pass  # of too few values
        try:
            got = metric.finalize(ps)
            again = metric.finalize(ps)
        except Exception as x:  # pylint: disable=broad-except
            ctx.fail("raised", f"finalize of {k}: {type(x).__name__}: {x}")
        rows = np.array(covered)
        n = len(rows)
        eps = resolution(plan["comp"] or 1000, n)
        one = self.metric(plan, k, "own")
        if k != "pit":
            ez = pm.PointStatsEz().evaluate(est[rows], ref[rows])
            d = Data(ez, eps)
            ctx.check(d.check(k, got), "result-differs", f"{k} from {len(ps)} digests")
            ctx.check(d.check(k, one.evaluate(est[rows], ref[rows])), "one-shot-differs", f"{k} of all values")
            ctx.check(None if got == again else f"{got!r} then {again!r}", "finalize-not-repeatable", k)
            ctx.log(k, repr(float(got)))
            return
        if n < 5:
            return
        x = np.squeeze(m.select(covered).fresh().cdf(ref[rows][:, None]))
        d = Data(x, eps)
        for what, p in (("from digests", got), ("of all values", one.evaluate(m.select(covered).fresh(), ref[rows]))):
            ctx.check(self.check_pit(plan, d, p, n), "pit-differs" if p is got else "one-shot-differs", f"{what}, {len(ps)} chunks")
        ctx.check(compare.diff(again, got), "finalize-not-repeatable", k)
        ctx.log(k, np.round(got.cdf(zoo.QS), 9).tolist())

    @staticmethod
    def check_pit(plan, d, p, n):
        if int(p.npdf) != 1:
            return f"{p.npdf} distributions"
        q, x = np.ravel(p.metadata()["quants"]), np.ravel(p.objdata()["locs"])
        if q.shape != x.shape:
            return f"{q.size} quantiles at {x.size} places"
        for a, b in zip(q, x):
            if a <= 0 or a >= 1:
                continue  # qp.quant extrapolates to the ends
            bad = d.within(b, d.value(a), f"the quantile {a:.6g}")
            if bad:
                return bad
        inside = np.unique(d.s[(d.s > 1e-6) & (d.s < 1 - 1e-6)])
        size = min(plan["grid"] or 100, n)
        if len(inside) == n and len(q) < size - 2:
            return f"{len(q)} quantiles left of {size}"
        return None

    def run_stream(self, plan, ctx, est, ref, kinds, shared, eps):
        """All chunks in one call"""
        ops = plan["ops"]
        if not ops:
            return
        make = dict(list=list, tuple=tuple, iterator=iter, arrays=lambda v: v)[plan["stream"]]
        if plan["stream"] == "arrays" and len({b - a for a, b, _ in ops}) == 1:
            make = np.array
        elif plan["stream"] == "arrays":
            make = list
        rows = np.concatenate([np.arange(a, b) for a, b, _ in ops])
        d = Data(pm.PointStatsEz().evaluate(est[rows], ref[rows]), resolution(plan["comp"] or 1000, len(rows)))
        ctx.nontrivial |= len(ops) > 1
        for k in kinds:
            try:
                got = shared[k].eval_from_iterator(make([est[a:b] for a, b, _ in ops]), make([ref[a:b] for a, b, _ in ops]))
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"eval_from_iterator of {k}: {type(x).__name__}: {x}")
            ctx.check(d.check(k, got), "stream-differs", f"{k} from {len(ops)} chunks")
            ctx.log(k, repr(float(got)))
            ctx.state(k, plan["stream"], plan["comp"], min(len(ops), 4))
