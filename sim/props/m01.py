"""M01: streaming scores equal the one-shot score for any split of the data."""

import os

import numpy as np

import qp
from qp.metrics import concrete_metric_classes as cm
from qp.metrics.factory import MetricFactory

from sim import cluster, compare, interrupt, sched, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.pristine import Pristine
from sim.props.p05 import Chunks, gen_chunks
from sim.world import Model

HOW = ["slice", "slice", "fresh", "rows", "iter", "reuse", "refill", "concat"]
RTOL, ATOL = 1e-8, 1e-10


def gen_metric(rng):
    if rng.random() < 0.5:
        lo, hi = rng.choice([(0.0, 3.0), (-0.5, 3.5), (0.25, 2.0), (0.0, 1.0)])
        return ["brier", lo, hi, rng.choice([0.01, 0.05, 0.13, 0.2])]
    lo, hi = rng.choice([(0.0, 3.0), (0.0, 2.5), (-0.5, 4.0)])
    return ["cdeloss", lo, hi, rng.choice([2, 12, 40, 120])]


def make_metric(spec, how):
    """A metric object, made directly or by name"""
    k, lo, hi, arg = spec
    if k == "brier":
        kw = dict(limits=(lo, hi), dx=arg)
    else:
        g = np.linspace(0, 1, arg)
        kw = dict(eval_grid=lo + (hi - lo) * g**1.3)
    if how == "factory":
        return MetricFactory.create_metric(k, **kw)
    return (cm.BrierMetric if k == "brier" else cm.CDELossMetric)(**kw)


def truths(spec, n, seed):
    r = np.random.default_rng([7, seed])
    _, lo, hi, _ = spec
    t = r.uniform(lo, hi, n)
    if spec[0] == "cdeloss":
        t = r.uniform(lo - 0.2, hi + 0.2, n)  # the nearest point of the grid is taken
    if seed % 10 == 3:
        t[:] = t[0]
    if seed % 5 == 0:
        t[: n // 2] = t[0]
    elif seed % 5 == 1:
        # few distinct values
        t = r.choice(t[: 1 + seed % 3], n)
    elif seed % 5 == 2:
        # the same at the ends of pieces of equal length
        t[:: 1 + seed % 4] = t[0]
    return t


def job(spec, model, t):
    """The score of all distributions at once"""
    return float(make_metric(spec, "own").evaluate(model.fresh(), t))


def differ(got, want, scale=1.0):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return f"shape {got.shape} != {want.shape}"
    if not np.allclose(got, want, rtol=RTOL, atol=ATOL * scale, equal_nan=True):
        return f"{got!r} != {want!r}"
    return None


class Scenario(Base):
    pid = "M01"
    runs = {"quick": 700, "thorough": 70000}
    rule = "a run is a simulated cluster whose workers accumulate a score over the chunks of an ensemble - chunks of seeded sizes made in seven ways or delivered by a file - while messages with the partial results are delayed, reordered, lost, repeated and converted, and workers crash, stall and are interrupted; or threads which share the metric object; the finalised score is compared with the score of all distributions at once; non-trivial if at least two partial results were combined"
    state_measure = "distinct (metric, representation, way the chunk was made, form of the partial result, rows of the chunk: one or more) met, and places at which threads were switched"
    stub = "the network, the driver of the job and the workers' processes are simulated; the operating system's choice of the thread that runs"
    technique = "seeded schedules and faults of a simulated cluster against the one-shot evaluation"
    lists = ("ops", "faults", "switches")
    assumptions = ["true values of the Brier score lie within its limits", "ensembles of shape (n,)"]

    def gen(self, rng, tier, index):
        rep = rng.choice(zoo.ALL)
        n = rng.choice([1, 2, 3, 5, 8, 13, 30, 60]) if rng.random() > 0.03 else rng.choice([300, 1100])
        ens = [rep, zoo.gen_shared(rng, 4), [rng.randrange(500) for _ in range(n)], rng.choice(["none", "basic"])]
        if rng.random() < 0.15:
            # chunks with the same contents
            ens[2] = (ens[2][: rng.choice([1, 1, 2])] * n)[:n]
        if rng.random() < 0.3:
            # a rank's share of the chunks of a file, for all ranks
            size, ranks = rng.randint(1 + n // 60, n + 1), rng.choice([1, 2, 3])
            chunks = [[r, size, ranks] for r in range(ranks)]
            deal = "file"
        else:
            chunks = [[a, b] for a, b in gen_chunks(rng, n)]
            seen = []
            chunks = [c for c in chunks if c not in seen and not seen.append(c)]
            deal = "chunks"
        mode = "threads" if rng.random() < 0.25 else "cluster"
        return dict(
            mode=mode, deal=deal, ens=ens, metric=gen_metric(rng), truth=rng.randrange(100), ops=[[*c, rng.choice(HOW)] for c in chunks],
            obj=rng.choice(["own", "shared", "factory"]), pass_=rng.choice(["view", "copy", "list"]), switches=sched.gen_switches(rng) if mode == "threads" else [],
            first=rng.randrange(2), **cluster.gen_cluster(rng, len(chunks)),
        )

    def simplify(self, plan):
        if plan["ens"][0] != "norm":
            yield dict(plan, ens=["norm", *plan["ens"][1:]])
        if plan["workers"] > 1:
            yield dict(plan, workers=1)
        if plan["form"] != "pickle":
            yield dict(plan, form="pickle")

    def part(self, chunks, source, op):
        """[(start, end, ensemble)] of a task"""
        if len(op) == 3:
            a, b, how = op
            return [(a, b, chunks.get(a, b, how))]
        r, size, ranks, _ = op
        return qp.iterator(source, chunk_size=size, rank=r, parallel_size=ranks)

    def run(self, plan, ctx):
        spec = plan["metric"]
        pristine = Pristine()
        e = zoo.make(*plan["ens"])
        m = Model.of(e)
        t = truths(spec, m.npdf, plan["truth"])
        t0, snap = t.copy(), compare.snap(e)
        source = os.path.join(ctx.dir, "in.hdf5")
        e.write_to(source)
        tasks = list(range(len(plan["ops"])))
        rows = {}  # the rows that each task covers, from the iterator or from the plan
        shared = make_metric(spec, plan["obj"])
        given = dict(view=lambda a, b: t[a:b], copy=lambda a, b: t[a:b].copy(), list=lambda a, b: t[a:b].tolist())[plan["pass_"]]
        if plan["first"]:
            # the one-shot score with the same object beforehand
            shared.evaluate(e, t)
        fork = plan["mode"] == "threads"

        def start(w):
            metric = shared if plan["obj"] == "shared" else make_metric(spec, plan["obj"])
            return dict(metric=metric, chunks=Chunks(e if plan["obj"] == "shared" else m.fresh(), m, source))

        def do(state, task, stop):
            op = plan["ops"][task]
            out = []
            mine = []
            try:
                for a, b, c in self.part(state["chunks"], source, op):
                    if stop is not None:
                        with interrupt.Interrupt(stop % 150, KeyboardInterrupt):
                            state["metric"].accumulate(c, given(a, b))
                        continue
                    got = state["metric"].accumulate(c, given(a, b))
                    mine.append((a, b))
                    out.append(got if fork else cluster.ship(got, plan["form"]))
                    ctx.state(spec[0], plan["ens"][0], op[-1] if len(op) == 3 else "file", plan["form"], b - a > 1)
            except KeyboardInterrupt:
                return None
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"accumulate of {op}: {type(x).__name__}: {x}")
            rows[task] = mine
            return out

        if fork:
            results, done = {}, []

            def program(w):
                state = start(w)

                def run():
                    for k in tasks[w :: plan["workers"]]:
                        results[k] = do(state, k, None)
                        done.append(k)

                return run

            s = sched.Scheduler([program(w) for w in range(plan["workers"])], plan["switches"], ctx, [interrupt.ROOT])
            s.run()
            ctx.hit("hand-overs", s.nswitch)
            ctx.steps += s.steps
            ctx.log("threads", done, s.nswitch)
            for x in s.where:
                ctx.state(x)
            order, extra = done, []
        else:
            c = cluster.Cluster(plan["workers"], plan["delays"], plan["faults"], ctx, start, do)
            c.run(tasks)
            order, results, extra = c.order, c.results, c.extra
        for k, out in extra:
            # done twice: by another worker, or the message was repeated
            ctx.check(differ(out, results[k]), "not-reproducible", f"the partial results of {plan['ops'][k]}")
        parts = [(k, a, b, p) for k in order for (a, b), p in zip(rows[k], results[k])]
        covered = sorted(i for _, a, b, _ in parts for i in range(a, b))
        if not covered:
            return
        ctx.nontrivial |= len(parts) > 1
        ctx.hit(f"metric {spec[0]}")
        ctx.hit("partial results", len(parts))
        again = shared if plan["obj"] == "shared" else make_metric(spec, plan["obj"])

        def finalize(ps):
            try:
                return again.finalize(np.array(ps) if plan["form"] == "array" else ps)
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"finalize: {type(x).__name__}: {x}")

        got = finalize([p for *_, p in parts])
        # a minimised plan covers some rows only
        rowset = m if covered == list(range(m.npdf)) else m.select(covered)
        asked = [(job, (spec, rowset, t[covered]))] + [(job, (spec, m.select(range(a, b)), t[a:b])) for _, a, b, _ in parts[:6]]
        # another job with the same metric object
        model2, t2 = m.select(range(m.npdf)[::-1]), truths(spec, m.npdf, plan["truth"] + 5)
        t2[0], t2[-1] = t[0], t[-1]
        asked += [(job, (spec, model2, t2)), (job, (spec, m, t))]
        wants = []
        for how, x in pristine.ask(asked):
            ctx.check(None if how == "ok" else x, "raised", "the score of all at once")
            wants.append(x)
        ctx.check(differ(got, wants[0]), "score-differs", f"{spec} over {len(parts)} chunks")
        ctx.check(differ(finalize([p for *_, p in parts]), got), "finalize-not-repeatable", f"{spec}")
        for (k, a, b, p), one in zip(parts[:6], wants[1:]):
            ctx.check(differ(finalize([p]), one), "chunk-score-differs", f"{spec} of the rows {a}:{b} alone, made by {plan['ops'][k]}")
        for metric, text in ((again, "the object that finalised"), (shared, "the object that was shared")):
            if metric is again:
                # the whole job at once, then one as large
                ctx.check(differ(metric.finalize([metric.accumulate(m.fresh(), t)]), wants[-1]), "next-job-differs", f"{spec} by {text}, the same job")
                mm = [(model2.fresh(), t2)]
            else:
                half = (m.npdf + 1) // 2
                mm = [(model2.select(r).fresh(), t2[list(r)]) for r in (range(half), range(half, m.npdf)) if len(r)]
            ctx.check(differ(metric.finalize([metric.accumulate(*x) for x in mm]), wants[-2]), "next-job-differs", f"{spec} by {text}")
        ctx.check(differ(shared.evaluate(e, t), wants[-1]), "one-shot-differs", "of the ensemble that was in use")
        ctx.check(None if np.array_equal(t, t0) else "changed", "truth-changed", "the true values")
        ctx.check(compare.diff_snap(snap, compare.snap(e)), "ensemble-changed", "the ensemble")
        ctx.log(repr(float(got)))
