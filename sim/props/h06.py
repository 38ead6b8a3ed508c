"""H06: an interrupted evaluation leaves the ensemble as good as new."""

import json

import numpy as np

from qp.metrics import metrics as qm

from sim import alloc, calls, compare, interrupt, zoo
from sim.core import Scenario as Base
from sim.history import CONVS, too_slow
from sim.pristine import Pristine
from sim.world import Model, diff_model, do_convert

METRICS = ["moment", "kld", "rmse", "brier", "outlier", "gof"]


def gen_request(rng, rep):
    k = rng.choices(["call", "conv", "slice", "pick", "metric", "rows"], [70, 8, 6, 4, 10, 3])[0]
    if k == "call":
        return [k, calls.gen_call(rng, rep, ("point", "point", "grid", "moment", "other"))]
    if k == "conv":
        return [k, rng.choice([c for c in CONVS if not too_slow(rep, c)]), rng.randrange(2), rng.randrange(99)]
    if k == "slice":
        return [k, rng.choice([None, 0, 1]), rng.choice([None, 1, 2]), rng.choice([1, -1, 2])]
    if k == "pick":
        return [k, rng.randrange(2)]
    if k == "metric":
        return [k, rng.choice(METRICS[:5] if rep in zoo.SLOW_PPF else METRICS), rng.choice([[0.0, 3.0], [0.1, 2.0]]), rng.choice([0.1, 0.25])]
    return [k]


def request(e, r):
    """Carry out a request; the result as a list of arrays (or the ensembles it gives, as snapshots)."""
    k = r[0]
    if k == "call":
        return calls.invoke(e, r[1])
    if k == "metric":
        _, kind, lim, dx = r
        if kind == "moment":
            return [qm.calculate_moment(e, 1, lim, dx)]
        if kind in ("kld", "rmse"):
            return [getattr(qm, f"calculate_{kind}")(e, e[::-1], lim, dx)]
        if kind == "brier":
            return [qm.calculate_brier(e, np.linspace(lim[0], lim[1], int(e.npdf)), lim, dx)]
        if kind == "outlier":
            return [qm.calculate_outlier_rate(e, 0.3, 2.5)]
        return [qm.calculate_goodness_of_fit(e, e[0], "ks", 8, 3)]
    if k == "conv":
        np.random.seed(r[3])
        out = do_convert(e, r[1], r[2])
    elif k == "slice":
        out = e[slice(*r[1:])]
    elif k == "pick":
        out = e[min(r[1], int(e.npdf) - 1)]
    else:
        return [x for row in e for x in (row.pdf(zoo.XS), row.cdf(zoo.XS))]
    t = out.objdata()
    return [np.asarray(t[c], dtype=float) for c in sorted(t)] + [out.pdf(zoo.XS)]


FINAL = [
    dict(fn="pdf", x=dict(k="list", v=list(zoo.XS))),
    dict(fn="cdf", x=dict(k="list", v=list(zoo.XS))),
    dict(fn="ppf", x=dict(k="list", v=list(zoo.QS[:2]))),
    dict(fn="gridded", x=dict(k="list", v=[0.5, 1.0, 2.0])),
]


def build(make):
    what, _, rep, shared, ids, anc = make
    return zoo.Direct(rep, shared, ids) if what == "direct" else zoo.make(rep, shared, ids, anc)


def alone(make, r):
    """(result, lines of qp executed, allocations)"""
    e = build(make)
    out = []
    lines = interrupt.lines(lambda: out.append(calls.copy_result(request(e, r))))
    e = build(make)
    with alloc.AllocFail(None) as c:
        request(e, r)
    return out[0], lines, c.count


class Scenario(Base):
    pid = "H06"
    runs = {"quick": 1600, "thorough": 80000}
    rule = "a run is a seeded sequence of requests on one ensemble (or one distribution object), some of them interrupted at a seeded line of qp or by a failing allocation, or one request interrupted at several places in turn on ensembles of the same contents; every later result is compared with that of a fresh ensemble; non-trivial if at least one interrupt arrived"
    state_measure = "distinct (function of qp that was interrupted, representation, kind of exception) met"
    stub = "asynchronous exceptions are raised by a trace hook at a chosen line of qp, failing allocations by a profile hook"
    technique = "seeded injection of asynchronous exceptions and allocation failures"
    lists = ("ops",)
    assumptions = ["asynchronous exceptions arrive between source lines"]

    def gen(self, rng, tier, index):
        # in some runs the distribution object by itself
        what = rng.choice(["make"] * 3 + ["direct"])
        rep = rng.choice(zoo.REPS + zoo.NOCHECK * 2 + list(zoo.MADE) if what == "make" else zoo.LAZY)
        n = rng.choice([1, 2, 3, 5])
        make = [what, 0, rep, zoo.gen_shared(rng, 4), [rng.randrange(500) for _ in range(n)], rng.choice(["none", "basic"])]
        ops = []
        for _ in range(rng.randint(1, 6)):
            r = gen_request(rng, rep) if what == "make" else ["call", calls.gen_call(rng, rep, ("point",))]
            if rng.random() < 0.25:
                # the same request on new ensembles, interrupted at places all over it
                k = rng.choice([4, 12])
                how = rng.choice(["interrupt", "interrupt", "memory", "alloc"])
                # with something asked beforehand, often of the same kind
                same = rng.choice([("point",), ("grid",)]) if what == "make" else ("point",)
                kinds, warm = ("point", "grid", "moment") if what == "make" else ("point",), None
                if rng.random() < 0.5:
                    r, kinds = ["call", calls.gen_call(rng, rep, same)], same
                if rng.random() < 0.7:
                    warm = ["call", calls.gen_call(rng, rep, kinds)]
                places = [[how, (i + rng.randrange(1000) / 1000) / k, r, warm] for i in range(k)]
                ops = places if k == 12 and r[0] == "call" else ops + places
                if k == 12:
                    break
            elif rng.random() < 0.6:
                how = rng.choice(["interrupt", "interrupt", "memory", "timeout", "alloc"])
                ops.append([how, rng.random(), r])
            else:
                ops.append(["plain", 0, r])
        return dict(make=make, ops=ops)

    def run(self, plan, ctx):
        direct = plan["make"][0] == "direct"
        e = build(plan["make"])
        before = None if direct else compare.snap(e)

        final = FINAL[:3] if direct else FINAL

        # what a fresh ensemble answers, in a process in which nothing was interrupted: None when it raises
        asked = [op[2] for op in plan["ops"]] + [["call", c] for c in final]
        answers = {}
        for r in asked:
            answers.setdefault(json.dumps(r), r)
        found = Pristine().ask([(alone, (plan["make"], r)) for r in answers.values()])
        answers = {k: v if how == "ok" else None for k, (how, v) in zip(answers, found)}

        def answer(r):
            a = answers[json.dumps(r)]
            return a and a[0]

        def verify(r, why):
            want = answer(r)
            if want is None:
                return
            try:
                got = calls.copy_result(request(e, r))
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("broken-afterwards", f"{why}: {r}: {type(x).__name__}: {x}")
            ctx.check(calls.diff(got, want, 1e-10, 1e-12), "wrong-afterwards", f"{why}: {r}")

        last = "no interrupt so far"
        for op in plan["ops"]:
            how, frac, r = op[:3]
            if len(op) > 3:
                e, last = build(plan["make"]), "nothing"
                if op[3]:
                    try:
                        request(e, op[3])
                    except Exception:  # pylint: disable=broad-except
                        continue
            if how == "plain":
                verify(r, last)
                ctx.log(*op[:2], r[0], "ok")
                continue
            want = answer(r)
            if want is None:
                ctx.log(*op[:2], r[0], "raises")
                continue
            if how == "alloc":
                hook = alloc.AllocFail(int(frac * answers[json.dumps(r)][2]))
            else:
                hook = interrupt.Interrupt(int(frac * answers[json.dumps(r)][1]), interrupt.KINDS[how])
            got = None
            try:
                with hook:
                    got = calls.copy_result(request(e, r))
                done = "completed"
            except (KeyboardInterrupt, MemoryError, TimeoutError) as x:
                done = f"{type(x).__name__} in {hook.where}"
            except Exception as x:  # pylint: disable=broad-except
                done = f"{type(x).__name__} instead, in {hook.where}"
                if not hook.fired:
                    ctx.fail("broken-afterwards", f"{last}: {r}: {type(x).__name__}: {x}")
            if hook.fired:
                ctx.fault(how)
                ctx.state(hook.where, e.gen_class.name, how)
                last = f"after {r[0]} was interrupted ({done})"
            if got is not None:
                ctx.check(calls.diff(got, want, 1e-10, 1e-12), "wrong-afterwards", f"{last}: {r}")
            if not direct:
                ctx.check(compare.diff_snap(before, compare.snap(e)), "contents-changed", last)
            verify(r, last)
            if len(op) > 3:
                for c in final:
                    verify(["call", c], last)
            ctx.log(*op[:2], r[0], done)
        for c in final:
            verify(["call", c], last)
        if not direct:
            # evaluating is what may build the tables of e, so the reference is made from the input again
            ctx.check(diff_model(e, Model.of(build(plan["make"]))), "wrong-afterwards", last)
