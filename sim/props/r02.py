"""R02: only unseeded sampling touches the process's random state."""

import io
import os
import random

import numpy as np
import pandas  # noqa: F401  pylint: disable=unused-import
import pyarrow.parquet  # noqa: F401  pylint: disable=unused-import
import sklearn.mixture  # noqa: F401  pylint: disable=unused-import
import tables  # noqa: F401  pylint: disable=unused-import
from astropy.io import fits  # noqa: F401  pylint: disable=unused-import
from astropy.table import Table  # noqa: F401  pylint: disable=unused-import

import qp
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import metrics as qm
from qp.metrics import point_estimate_metric_classes as pm
from qp.metrics.factory import MetricFactory

from sim import calls, interrupt, sched, userdraws, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.history import CONVS, RT, SAMPLING, World, gen_make, gen_slice, used
from sim.props.r01 import make_state

# The libraries above are imported by qp when first needed, and importing them draws from
# random's generator: they are loaded before, because that is no operation of qp's.

METRICS = ["moment", "kld", "rmse", "rbpe", "brier", "outlier", "cde", "pit", "gof", "points", "stream", "factory"]


def position():
    s = np.random.get_state()
    return repr((s[0], s[1].tobytes(), s[2:], random.getstate()))


def metric(kind, e, seed, extra):
    n = int(e.npdf)
    r = np.random.default_rng(seed)
    truth = r.uniform(0.3, 2.7, n)
    if kind == "moment":
        return cm.MomentMetric(1, (0.0, 3.0), 0.1).evaluate(e)
    if kind in ("kld", "rmse"):
        return getattr(qm, f"calculate_{kind}")(e, e[::-1], (0.1, 2.9), 0.1)
    if kind == "rbpe":
        return qm.calculate_rbpe(e[0], (0.5, 1.5))
    if kind == "brier":
        m = cm.BrierMetric((0.0, 3.0), 0.1)
        return m.evaluate(e, truth), m.finalize([m.accumulate(e, truth)])
    if kind == "outlier":
        return cm.OutlierMetric().evaluate(e)
    if kind == "cde":
        m = cm.CDELossMetric(np.linspace(0, 3, 40))
        return m.evaluate(e, truth), m.finalize([m.accumulate(e, truth)])
    if kind == "pit":
        p = qp.metrics.pit.PIT(e, truth, np.linspace(0, 1, 5))
        m = cm.PITMetric(np.linspace(0, 1, 5))
        return p.pit_samps, m.evaluate(e, truth), m.finalize([m.accumulate(e, truth)]), p.evaluate_PIT_KS(), p.evaluate_PIT_CvM()
    if kind == "gof":
        return [qm.calculate_goodness_of_fit(e, e, f, 4, make_state(extra, seed)) for f in ("ks", "cvm", "ad")]
    est, ref = r.normal(1, 0.2, 300), r.uniform(0.5, 1.5, 300)
    ms = [pm.PointSigmaIQR(), pm.PointBias(), pm.PointOutlierRate(), pm.PointSigmaMAD(num_bins=1000), pm.PointStatsEz()]
    if kind == "points":
        return [m.evaluate(est, ref) for m in ms]
    if kind == "stream":
        return [m.eval_from_iterator(np.split(est, 5), np.split(ref, 5)) for m in ms[:4]]
    MetricFactory.update_metrics()
    return [MetricFactory.create_metric(k) for k in MetricFactory.list_metrics() if k in ("brier", "pit", "ks", "cdeloss", "moment", "rmse")]


class Scenario(Base):
    pid = "R02"
    runs = {"quick": 450, "thorough": 60000}
    rule = "a run is a seeded history of every kind of operation that is not unseeded sampling - some failing, some interrupted at a seeded line - with the state of the global generators of numpy and Python compared before and after each; or threads with such operations next to one that draws a sequence of its own from the global generators, under a seeded schedule; non-trivial if at least five operations were compared, or one hand-over happened in the middle of one"
    state_measure = "distinct (operation, representation, ended how) met, and places at which threads were switched"
    stub = "asynchronous exceptions are raised by a trace hook; the operating system's choice of the thread that runs"
    technique = "seeded histories, faults and thread schedules with a monitor of the random state"
    lists = ("ops", "switches")
    assumptions = ["ensembles of shape (n,)", "the global generators are numpy.random's and random's"]

    def gen(self, rng, tier, index):
        mode = "threads" if rng.random() < 0.3 else "history"
        reps = rng.sample(zoo.ALL, 2)
        anc = ["none", "basic"]
        ops = [gen_make(rng, d, reps, 2, anc) for d in range(2)]
        ops = [[*o[:4], o[4][:5], o[5]] for o in ops]
        for _ in range(rng.randint(6, 20) if mode == "history" else rng.randint(2, 6)):
            d, s = rng.randrange(4), used(rng, ops)
            k = rng.choices(
                ["eval", "metric", "conv", "rvs", "slice", "pick", "rows", "append", "concat", "update", "updobj", "addanc", "ancil", "rt", "iter", "write", "bad", "make", "tables", "mixseed"],
                [26, 16, 10, 10, 5, 3, 3, 3, 3, 4, 3, 2, 2, 5, 3, 2, 5, 3, 3, 3],
            )[0]
            if k == "eval":
                op = [k, s, calls.gen_call(rng, rng.choice(reps)), 0]
            elif k == "metric":
                op = [k, s, rng.choice(METRICS), rng.randrange(99), rng.choice(["int", "legacy", "generator"])]
            elif k == "conv":
                op = [k, d, s, rng.choice([c for c in CONVS if c not in SAMPLING]), rng.randrange(2), 0]
            elif k in ("rvs", "mixseed"):
                op = [k, s, rng.choice(["int", "npint", "legacy", "generator"]), rng.randrange(99)]
            elif k == "slice":
                op = gen_slice(rng, d, s)
            elif k == "pick":
                op = [k, d, s, rng.randrange(-3, 4), 0]
            elif k == "rows":
                op = [k, d, s]
            elif k == "append":
                op = [k, used(rng, ops), s]
            elif k == "concat":
                op = [k, d, [used(rng, ops), used(rng, ops)]]
            elif k == "update":
                op = [k, s, zoo.gen_shared(rng, 2), [rng.randrange(500) for _ in range(rng.choice([1, 2, 3]))], "none"]
            elif k == "updobj":
                op = [k, s, [rng.randrange(500) for _ in range(2)], "none"]
            elif k == "addanc":
                op = [k, s, rng.randrange(20)]
            elif k == "ancil":
                op = [k, s, rng.choice(zoo.ANC_ALL), rng.randrange(50)]
            elif k == "rt":
                op = [k, d, s, rng.choice(RT)]
            elif k == "iter":
                op = [k, d, s, rng.randint(1, 4)]
            elif k == "write":
                op = [k, s, rng.choice(RT)]
            elif k == "make":
                op = gen_make(rng, d, reps, 2, anc)
            else:
                op = [k, s, rng.randrange(5)]
            if mode == "history" and rng.random() < 0.2:
                op = ["stop", rng.randrange(10 ** rng.randint(1, 3)), op]
            ops.append(op)
        return dict(mode=mode, ops=ops, switches=sched.gen_switches(rng) if mode == "threads" else [], seed=rng.randrange(100))

    def other(self, w, op):
        """Operations that World does not have"""
        k, s = op[:2]
        if s not in w.slots:
            return "skip"
        sl = w.slots[s]
        e, rep = sl.ens, sl.model.gen_class.name
        if sl.model.npdf > 24 or rep == "spline" and (k in ("rvs", "mixseed") or k == "metric" and op[2] in ("gof", "rbpe")):
            return "skip"
        if k == "metric":
            metric(op[2], e, op[3], op[4])
        elif k == "rvs":
            e.rvs(size=3, random_state=make_state(op[2], op[3]))
        elif k == "mixseed":
            e.convert_to(qp.mixmod_gen, ncomps=2, nsamples=60, random_state=make_state(op[2], op[3]))
        elif k == "tables":
            e.build_tables()
            repr(e), str(e)
            qp.stats.pretty_print(io.StringIO())
            e.gen_obj.moment, e.gen_class.creation_method(None), e.gen_class.extraction_method(None)
            [e.metadata(), e.objdata(), e.npdf, e.shape, e.ndim, e.kwds, e.dist, e.frozen]
        else:
            [
                lambda: e.pdf("x"), lambda: e[99], lambda: e.rvs(size="many", random_state=3), lambda: e.set_ancil(dict(z=np.zeros(99))),
                lambda: qp.read(os.path.join(w.ctx.dir, "nothing.hdf5")),
            ][op[2]]()
        return "ok"

    def do(self, w, op):
        if op[0] in ("metric", "rvs", "mixseed", "tables", "bad"):
            return self.other(w, op)
        return w.do(op)[0]

    def run(self, plan, ctx):
        if plan["mode"] == "threads":
            return self.run_threads(plan, ctx)
        w = World(ctx)
        w.alike = self.alike(w)
        n = 0
        np.random.seed(plan["seed"])
        random.seed(plan["seed"])
        mine = userdraws.draw(1, [])
        for op in plan["ops"]:
            stop = None
            inner = op
            if op[0] == "stop":
                _, at, inner = op
                stop = interrupt.Interrupt(at, KeyboardInterrupt)
            before = position()
            end = "ok"
            try:
                if stop:
                    with stop:
                        end = self.do(w, inner)
                else:
                    end = self.do(w, inner)
            except Violation:
                raise
            except KeyboardInterrupt:
                end = "interrupted"
                ctx.fault("interrupted")
            except Exception as x:  # pylint: disable=broad-except
                end = type(x).__name__
            ctx.check(None if position() == before else "the global random state is another one", "random-state-changed", f"by {op} ({end})")
            ctx.log(*inner[:3], end)
            ctx.hit(inner[0])
            if end != "skip":
                n += 1
                s = inner[1]
                ctx.state(inner[0], w.slots[s].model.gen_class.name if s in w.slots else None, end if end != "skip" else "", inner[2] if inner[0] == "metric" else "")
            userdraws.draw(1, mine)
        self.compare(plan, ctx, mine)
        ctx.nontrivial |= n >= 5

    @staticmethod
    def alike(w):
        """Without seeding, which World does before requests that may sample"""

        def f(slot, request, seed=0):
            return w.call(lambda: request(slot.ens))

        return f

    def compare(self, plan, ctx, mine):
        np.random.seed(plan["seed"])
        random.seed(plan["seed"])
        want = userdraws.draw(len(mine) // 3, [])
        ctx.check(None if mine == want else "other numbers than without the operations in between", "sequence-differs", "the user's own sequence")

    def run_threads(self, plan, ctx):
        ops = plan["ops"]
        makes = [o for o in ops[:2] if o[0] == "make"]
        worlds = []
        for t in range(2):
            w = World(ctx)
            w.prefix = f"t{t}"
            w.alike = self.alike(w)
            for o in makes:
                w.do(o)
            worlds.append(w)
        np.random.seed(plan["seed"])
        random.seed(plan["seed"])
        mine = []

        def user():
            userdraws.draw(12, mine)

        def client(w):
            def run():
                for o in ops:
                    if o in makes:
                        continue
                    try:
                        self.do(w, o)
                    except Violation:
                        raise
                    except Exception:  # pylint: disable=broad-except
                        pass

            return run

        s = sched.Scheduler([client(worlds[0]), user, client(worlds[1])], plan["switches"], ctx, [interrupt.ROOT, userdraws.__file__])
        s.run()
        ctx.nontrivial = s.nswitch > 0
        ctx.hit("hand-overs", s.nswitch)
        ctx.log("steps", s.steps, "hand-overs", s.nswitch)
        ctx.steps += s.steps
        for x in s.where:
            ctx.state(x)
        self.compare(plan, ctx, mine)
