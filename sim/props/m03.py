"""M03: metrics do not depend on what was computed before on the same ensembles."""

import numpy as np

from qp.metrics import concrete_metric_classes as cm
from qp.metrics import metrics as qm
from qp.metrics import pit as qpit
from qp.metrics import point_estimate_metric_classes as pm
from qp.metrics.factory import MetricFactory

from sim import calls, compare, interrupt, sched, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.history import CONVS, RT, SAMPLING, World, gen_make, gen_slice, owned_copy, same, used
from sim.pristine import Pristine

GRIDS = [(0.0, 3.0), (0.0, 3.0), (0.5, 2.5), (0.1, 2.9), (-0.4, 1.6)]
KINDS = ["moment", "moment", "kld", "kld", "rmse", "rmse", "brier", "brier", "cde", "cde", "outlier", "rbpe", "pit", "pit", "pitm", "gof", "points"]
NEW = dict(moment=cm.MomentMetric, kld=cm.KLDMetric, rmse=cm.RMSEMetric, rbpe=cm.RBPEMetric, brier=cm.BrierMetric, outlier=cm.OutlierMetric, cde=cm.CDELossMetric, pitm=cm.PITMetric)
TWO = ["kld", "rmse", "gof"]
TRUE = ["brier", "cde", "pit", "pitm"]


def gen_metric(rng):
    """[name, arguments, seed of the true values, how it is called]"""
    k = rng.choice(KINDS)
    lim, dx = rng.choice(GRIDS), rng.choice([0.05, 0.1, 0.2])
    if k == "moment":
        arg = dict(moment_order=rng.randrange(4), limits=lim, dx=dx)
    elif k in ("kld", "rmse", "brier"):
        arg = dict(limits=lim, dx=dx)
    elif k == "cde":
        arg = dict(eval_grid=rng.choice([None, [0.0, 3.0, 31], [0.0, 2.0, 31], [0.2, 2.6, 7]]))
    elif k == "outlier":
        arg = dict(cdf_limits=rng.choice([(0.0001, 0.9999), (0.3, 2.5), (0.7, 1.9)]))
    elif k == "rbpe":
        arg = dict(limits=rng.choice([(0.5, 1.5), (0.2, 2.6)]))
    elif k == "gof":
        arg = dict(fit=rng.choice(["ks", "cvm"]), num=rng.choice([3, 6]), seed=rng.randrange(9))
    elif k == "points":
        arg = dict(n=rng.choice([7, 40]))
    else:
        arg = dict(eval_grid=rng.choice([None, [0.0, 1.0, 5], [0.1, 0.9, 5], [0.0, 1.0, 12]]))
    arg = {a: list(v) if isinstance(v, tuple) else v for a, v in arg.items()}
    return [k, arg, rng.randrange(6), rng.choice(["function", "object", "object", "factory"])]


def key_of(m):
    return repr(m[:2])


def arguments(k, arg):
    out = {}
    for a, v in arg.items():
        if v is None:
            continue
        out[a] = np.linspace(*v) if a == "eval_grid" else tuple(v) if isinstance(v, list) else v
    return out


def truth(m, n):
    k, arg, seed, _ = m
    r = np.random.default_rng([17, seed])
    lo, hi = arg.get("limits") or (0.2, 2.5)
    return r.uniform(lo, hi, n)


def flat(p):
    """A PIT as arrays"""
    return [np.ravel(p.metadata()["quants"]), np.ravel(p.objdata()["locs"])]


def compute(m, e, q, t, kw, objects=None):
    """The metric m of the ensemble e (and q, and true values t); objects: metric objects made before"""
    k, arg, _, how = m
    n = int(e.npdf)
    if k == "gof":
        return [qm.calculate_goodness_of_fit(e, q, arg["fit"], arg["num"], arg["seed"])]
    if k == "points":
        est, ref = t[: arg["n"]], t[arg["n"] : 2 * arg["n"]]
        ms = objects.setdefault("points", [pm.PointSigmaIQR(), pm.PointBias(), pm.PointOutlierRate(), pm.PointSigmaMAD(num_bins=1000), pm.PointStatsEz()]) if objects is not None else [pm.PointSigmaIQR(), pm.PointBias(), pm.PointOutlierRate(), pm.PointSigmaMAD(num_bins=1000), pm.PointStatsEz()]
        return [x.evaluate(est, ref) for x in ms] + [x.finalize([x.accumulate(est, ref)]) for x in ms[:4]]
    if k == "pit":
        p = qpit.PIT(e, t, **kw)
        out = [p.pit_samps] + flat(p.pit)
        if n > 1:
            ks, cvm = p.evaluate_PIT_KS(), p.evaluate_PIT_CvM()
            out += [np.array([ks.statistic, ks.pvalue, cvm.statistic, cvm.pvalue])]
        return out
    if how == "function" and k in ("moment", "kld", "rmse", "rbpe", "brier", "outlier"):
        if k == "moment":
            return [qm.calculate_moment(e, kw["moment_order"], kw["limits"], kw["dx"])]
        if k in ("kld", "rmse"):
            return [getattr(qm, f"calculate_{k}")(e, q, kw["limits"], kw["dx"])]
        if k == "rbpe":
            return [qm.calculate_rbpe(e, kw["limits"])]
        if k == "brier":
            s, c = qm.calculate_brier_for_accumulation(e, t, kw["limits"], kw["dx"])
            return [qm.calculate_brier(e, t, kw["limits"], kw["dx"]), s / c]
        return [qm.calculate_outlier_rate(e, *kw["cdf_limits"])]
    key = key_of(m)
    obj = None if objects is None else objects.get(key)
    if obj is None:
        if how == "factory":
            obj = MetricFactory.create_metric(NEW[k].metric_name, **kw)
        else:
            obj = NEW[k](**kw)
        if objects is not None and how == "object":
            objects[key] = obj
    if k in TWO:
        out = [obj.evaluate(e, q)]
    elif k in TRUE:
        out = [obj.evaluate(e, t)]
        if k == "pitm":
            out = flat(out[0])
            if n > 1:
                out += flat(obj.finalize([obj.accumulate(e, t)]))
        else:
            out.append(obj.finalize([obj.accumulate(e, t)]))
    else:
        out = [obj.evaluate(e)]
    return out


def alone(m, model, other):
    """In a process of its own"""
    e = model.fresh()
    n = model.npdf
    t = truth(m, n) if m[0] != "points" else truth(m, 2 * m[1]["n"])
    return calls.copy_result(compute(m, e, None if other is None else other.fresh(), t, arguments(*m[:2])))


class Scenario(Base):
    pid = "M03"
    runs = {"quick": 350, "thorough": 70000}
    rule = "a run is a seeded history of metric computations by several clients over shared ensembles and shared metric objects - by function, by object, by name, repeated, some failing, some interrupted at a seeded line - between evaluations, selections, changes, conversions and file round trips; or threads that compute metrics of the same ensembles under a seeded schedule; every value is compared with that of a process in which nothing was done before; non-trivial if at least three metrics were computed, or one hand-over happened in the middle of one"
    state_measure = "distinct (metric, representation, how it was called, operation before it) met, and places at which threads were switched"
    stub = "asynchronous exceptions are raised by a trace hook; the operating system's choice of the thread that runs"
    technique = "seeded histories and thread schedules against answers from pristine processes"
    lists = ("ops", "switches")
    assumptions = ["ensembles of shape (n,)", "true values within the limits"]

    def gen(self, rng, tier, index):
        mode = "threads" if rng.random() < 0.3 else "history"
        reps = rng.sample(zoo.ALL, 2)
        ids = rng.choice([1, 2, 2, 3, 5, 8, 14])
        sizes = [ids, ids, rng.choice([ids, ids, 2, 4, 14])]
        ops = [["make", d, reps[d % 2] if rng.random() < 0.7 else reps[0], zoo.gen_shared(rng, 2), [rng.randrange(500) for _ in range(sizes[d])], "none"] for d in range(3)]
        ms = [gen_metric(rng) for _ in range(rng.choice([2, 3, 5]))]
        # the same metric with other arguments
        for m in list(ms[:2]):
            for _ in range(20):
                x = gen_metric(rng)
                if x[0] == m[0]:
                    ms.append(x)
                    break
        for _ in range(rng.randint(5, 16) if mode == "history" else rng.randint(2, 6)):
            d, s = rng.randrange(4), used(rng, ops)
            k = rng.choices(["metric", "eval", "slice", "pick", "rows", "append", "update", "updobj", "conv", "rt", "bad", "make"], [58, 8, 5, 2, 2, 3, 7, 4, 3, 3, 3, 3] if mode == "history" else [88, 8, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0])[0]
            if k == "metric":
                op = [k, s, used(rng, ops), rng.choice(ms)]
                if mode == "history" and rng.random() < 0.2:
                    op = ["stop", *op[1:], rng.randrange(10 ** rng.randint(1, 3))]
            elif k == "eval":
                op = [k, s, calls.gen_call(rng, rng.choice(reps)), 0]
            elif k == "slice":
                op = gen_slice(rng, d, s)
            elif k == "pick":
                op = [k, d, s, rng.randrange(-3, 4), 0]
            elif k == "rows":
                op = [k, d, s]
            elif k == "append":
                op = [k, used(rng, ops), s]
            elif k == "update":
                op = [k, s, zoo.gen_shared(rng, 2), [rng.randrange(500) for _ in range(rng.choice([ids, ids, 1, 2]))], "none"]
            elif k == "updobj":
                op = [k, s, [rng.randrange(500) for _ in range(ids)], "none"]
            elif k == "conv":
                op = [k, d, s, rng.choice([c for c in CONVS if c not in SAMPLING]), 0, 0]
            elif k == "rt":
                op = [k, d, s, rng.choice(RT)]
            elif k == "make":
                op = gen_make(rng, d, reps, 2, ["none"])
            else:
                op = [k, s, rng.randrange(3)]
            ops.append(op)
        return dict(mode=mode, ops=ops, switches=sched.gen_switches(rng) if mode == "threads" else [])

    @staticmethod
    def applies(w, m, s, q):
        if s not in w.slots or q not in w.slots:
            return False
        k = m[0]
        a, b = w.slots[s].model, w.slots[q].model
        names = (a.gen_class.name, b.gen_class.name)
        if a.npdf > 24 or k in ("kld", "rmse") and a.npdf != b.npdf or k == "gof" and (b.npdf not in (1, a.npdf) or "spline" in names or b.npdf > 24):
            return False
        if k == "rbpe":
            return a.npdf <= 2 and names[0] in ("norm", "uniform", "hist", "interp")
        return True

    def metric(self, w, op, objects, seen, ctx, lock=None):
        """Compute, and remember what is to come out"""
        _, s, q, m = op[:4]
        sl, other = w.slots[s], w.slots[q] if op[3][0] in TWO else None
        n = sl.model.npdf
        t = truth(m, n) if m[0] != "points" else truth(m, 2 * m[1]["n"])
        kw = arguments(*m[:2])
        kept = [(v, owned_copy(v)) for v in (t, *kw.values())]
        try:
            got = compute(m, sl.ens, None if other is None else other.ens, t, kw, objects)
            got = ("ok", got, calls.copy_result(got))
        except Violation:
            raise
        except Exception as x:  # pylint: disable=broad-except
            got = ("raises", f"{type(x).__name__}: {x}", None)
        for v, c in kept:
            ctx.check(None if same(v, c) else "changed", "argument-changed", f"those of {m}")
        seen.append((m, sl.model, None if other is None else other.model, got))
        return got[0]

    def run(self, plan, ctx):
        pristine = Pristine()
        done = False
        defaults = [owned_copy(cm.PITMetric.default_eval_grid), owned_copy(cm.CDELossMetric.default_eval_grid), owned_copy(qpit.DEFAULT_QUANTS)]
        seen = []
        try:
            if plan["mode"] == "threads":
                self.run_threads(plan, ctx, seen)
            else:
                self.run_history(plan, ctx, seen)
            now = [cm.PITMetric.default_eval_grid, cm.CDELossMetric.default_eval_grid, qpit.DEFAULT_QUANTS]
            for a, b in zip(now, defaults):
                ctx.check(None if same(a, b) else "changed", "default-changed", "the grid that is used by default")
            done = True
            want = pristine.ask([(alone, x[:3]) for x in seen])
        finally:
            if not done:
                pristine.close()
        for (m, model, other, got), (how, val) in zip(seen, want):
            text = f"{m} of {model.npdf} {model.gen_class.name}"
            if how != got[0]:
                ctx.fail("depends-on-history", f"{text}: {got[0]} {got[1] if got[0] == 'raises' else ''} instead of {how} {val if how == 'raises' else ''}")
            ctx.log(m[0], m[3], how)
            ctx.hit(f"{m[0]} {how}")
            if how == "raises":
                continue
            atol = 1e-8 * max([1.0] + [float(np.nanmax(np.abs(v))) for v in map(np.asarray, val) if v.size and np.isfinite(v).any()])
            ctx.check(calls.diff(got[2], val, 1e-7, min(atol, 1e-6)), "depends-on-history", text)
            now = calls.copy_result(got[1])
            ctx.check(calls.diff(now, got[2], 0, 0), "result-changed", f"{text}, at the end")

    def run_history(self, plan, ctx, seen):
        w = World(ctx)
        objects, before = {}, "start"
        for op in plan["ops"]:
            k = op[0]
            if k in ("metric", "stop"):
                m = op[3]
                if not self.applies(w, m, op[1], op[2]):
                    continue
                snaps = [compare.snap(w.slots[s].ens) for s in op[1:3]]
                if k == "stop":
                    try:
                        with interrupt.Interrupt(op[4], KeyboardInterrupt) as i:
                            self.metric(w, op, objects, [], ctx)
                    except KeyboardInterrupt:
                        ctx.fault("interrupted")
                    end = i.where
                else:
                    end = self.metric(w, op, objects, seen, ctx)
                for s, x in zip(op[1:3], snaps):
                    ctx.check(compare.diff_snap(x, compare.snap(w.slots[s].ens)), "ensemble-changed", f"ensemble {s} by {op}")
                ctx.log(*op[:4], end)
                ctx.state(m[0], w.slots[op[1]].model.gen_class.name, m[3], before)
                before = m[0]
                continue
            if k == "bad":
                self.bad(w, op, objects, seen)
                before = k
                continue
            try:
                end, _ = w.do(op)
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
            ctx.log(*op[:3], end)
            before = k
        ctx.nontrivial |= len(seen) >= 3

    @staticmethod
    def bad(w, op, objects, seen):
        """Requests that fail"""
        if op[1] not in w.slots:
            return
        e = w.slots[op[1]].ens
        n = int(e.npdf)
        f = [
            lambda: qm.calculate_brier(e, np.full(n, 9.0), (0.0, 3.0), 0.1),
            lambda: qm.calculate_kld(e, e, (0.0, 3.0), 5.0),
            lambda: cm.CDELossMetric(np.linspace(0, 3, 31)).evaluate(e, np.zeros(n + 1)),
        ][op[2]]
        try:
            f()
        except Exception:  # pylint: disable=broad-except
            pass

    def run_threads(self, plan, ctx, seen):
        w = World(ctx)
        for o in plan["ops"]:
            if o[0] == "make":
                w.do(o)
        todo = [o for o in plan["ops"] if o[0] in ("metric", "eval")]
        objects = {}
        n = 3
        snaps = {s: compare.snap(sl.ens) for s, sl in w.slots.items()}

        def client(c):
            def run():
                for i, o in enumerate(todo):
                    if i % n != c:
                        continue
                    if o[0] == "metric" and self.applies(w, o[3], o[1], o[2]):
                        self.metric(w, o, objects, seen, ctx)
                    elif o[0] == "eval" and o[1] in w.slots:
                        try:
                            calls.invoke(w.slots[o[1]].ens, o[2])
                        except Exception:  # pylint: disable=broad-except
                            pass

            return run

        s = sched.Scheduler([client(c) for c in range(n)], plan["switches"], ctx, [interrupt.ROOT])
        s.run()
        ctx.nontrivial = s.nswitch > 0
        ctx.hit("hand-overs", s.nswitch)
        ctx.log("steps", s.steps, "hand-overs", s.nswitch)
        ctx.steps += s.steps
        for x in s.where:
            ctx.state(x)
        for k, x in snaps.items():
            ctx.check(compare.diff_snap(x, compare.snap(w.slots[k].ens)), "ensemble-changed", f"ensemble {k}")
