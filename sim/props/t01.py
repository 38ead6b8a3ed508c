"""T01: threads sharing an ensemble get the answers they would get alone."""

import os

import numpy as np

import qp

from sim import calls, compare, interrupt, sched, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.pristine import Pristine
from sim.props import h06
from sim.world import Model, diff_model

SCOPES = {"qp": [interrupt.ROOT], "scipy": [interrupt.ROOT, __import__("scipy.stats").stats._distn_infrastructure.__file__, __import__("scipy.interpolate").interpolate._interpolate.__file__]}


def gen_focused(rng, rep, kinds, fn):
    """A call of the function fn, if there is one"""
    for _ in range(60 if fn else 1):
        call = calls.gen_call(rng, rep, kinds)
        if call["fn"] == fn:
            break
    return call


def gen_program(rng, rep, kinds=("point", "point", "point", "moment", "other"), fn=None):
    """Requests of one thread"""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choices(["call", "slice", "pick", "rows"], [80, 8, 6, 3])[0] if not fn else "call"
        if k == "call":
            out.append([k, gen_focused(rng, rep, kinds, fn)])
        elif k == "slice":
            out.append([k, rng.choice([None, 0, 1]), rng.choice([None, 1, 2]), rng.choice([1, -1, 2])])
        elif k == "pick":
            out.append([k, rng.randrange(2)])
        else:
            out.append([k])
    return out


def build(plan, top, name):
    _, _, rep, shared, ids, anc = plan["make"]
    if plan["origin"] == "direct":
        return zoo.Direct(rep, shared, ids)
    e = zoo.make(rep, shared, ids, anc)
    if plan["origin"] == "slice":
        e = e[:]
    elif plan["origin"] == "read":
        p = os.path.join(top, name + ".hdf5")
        e.write_to(p)
        e = qp.read(p)
    elif plan["origin"] == "conv":
        e = e.convert_to(qp.interp_gen, xvals=np.linspace(0, 3, 9))
    return e


def alone(plan, top, i):
    """The answer to a request with nobody else about"""
    return calls.copy_result(h06.request(build(plan, top, f"w{i}"), plan["ops"][i][1]))


class Scenario(Base):
    pid = "T01"
    runs = {"quick": 1200, "thorough": 200000}
    rule = "a run is two to four threads' requests on one ensemble (or one distribution object), under about fifteen seeded schedules of hand-overs at source lines (many, or a few cuts at steps chosen among all of them or among those at which a thread meets a line for the first time), sometimes with an exception raised in one of them; non-trivial if at least one hand-over happened while another thread was inside the library"
    state_measure = "distinct (function and module the running thread was in, function the resumed thread was in) at hand-overs"
    stub = "the operating system's choice of the thread that runs"
    technique = "seeded thread schedules at line granularity"
    lists = ("cuts", "ops", "faults", "switches")
    ncuts = 14
    direct = True
    assumptions = ["threads are switched between source lines of qp (and, in some runs, of scipy's distribution and interpolation modules), not inside C code"]
    kinds = ("point", "point", "point", "moment", "other")
    focus = ["pdf", "pdf", "cdf", "ppf", "sf", "rvs"]

    def gen_threads(self, rng, rep):
        n = rng.choice([2, 2, 3, 4])
        same = rng.random() < 0.5
        # in many runs all threads are in the same function, or each in one of its own, most of the time
        how = rng.choice(["any", "one", "each"])
        fn = rng.choice(self.focus)
        progs = [gen_program(rng, rep, self.kinds, {"any": None, "one": fn, "each": rng.choice(self.focus)}[how]) for _ in range(n)]
        if same and how != "each":
            progs = [progs[0]] * n
        return [[i, r] for i, p in enumerate(progs) for r in p]

    def gen(self, rng, tier, index):
        rep = rng.choice(zoo.REPS + list(zoo.MADE) + zoo.NOCHECK * 5 + zoo.ROWS)
        make = ["make", 0, rep, zoo.gen_shared(rng, 4), [rng.randrange(500) for _ in range(rng.choice([1, 2, 3, 5]))], rng.choice(["none", "basic"])]
        faults = []
        if rng.random() < 0.2:
            faults = [[rng.randrange(2), rng.randrange(120), rng.choice(["interrupt", "memory"])]]
        origin = rng.choice(["new"] * (12 if rep in zoo.NOCHECK else 5) + ["slice", "read", "conv"])
        ops = self.gen_threads(rng, rep)
        if self.direct and rng.random() < 0.2:
            # the distribution object by itself, with one or two evaluations per thread
            origin, make[2] = "direct", rng.choice(zoo.LAZY)
            ops = [[t, ["call", gen_focused(rng, make[2], ("point",), rng.choice(["pdf", "pdf", "cdf", "ppf", "sf"]))]] for t in range(rng.choice([2, 2, 3])) for _ in range(rng.choice([1, 1, 2]))]
        return dict(make=make, origin=origin, ops=ops, switches=sched.gen_switches(rng), cuts=sched.gen_cuts(rng, self.ncuts), faults=faults, warm=rng.choice([0, 0, 1]), scope=rng.choice(["qp", "qp", "qp", "scipy"]))

    def run(self, plan, ctx):
        # what each request gives in a process in which nothing else was asked, nor built beforehand
        found = Pristine().ask([(alone, (plan, ctx.dir, i)) for i in range(len(plan["ops"]))])
        want = {i: v if how == "ok" else None for i, (how, v) in enumerate(found)}
        # several schedules, each on an ensemble made anew
        first = self.round(plan, ctx, want, plan["switches"], "shared")
        for i, cuts in enumerate(plan["cuts"]):
            self.round(plan, ctx, want, sched.placed(cuts, first), f"shared{i}")

    def round(self, plan, ctx, want, switches, name):
        e = build(plan, ctx.dir, name)
        if plan["warm"]:
            e.pdf(zoo.XS)
            e.cdf(zoo.XS)
        before = None if plan["origin"] == "direct" else compare.snap(e)
        n = 1 + max([o[0] for o in plan["ops"]] + [0])
        results = {}

        def program(t):
            def run():
                for i, (tt, r) in enumerate(plan["ops"]):
                    if tt != t or want[i] is None:
                        continue
                    try:
                        results[i] = calls.copy_result(h06.request(e, r))
                        ctx.log(t, i, "done")
                    except (KeyboardInterrupt, MemoryError) as x:
                        if "simulated" not in str(x):
                            raise
                        results[i] = None
                        ctx.log(t, i, type(x).__name__)
                    except Exception as x:  # pylint: disable=broad-except
                        results[i] = None
                        if not plan["faults"]:
                            raise Violation("raised", f"thread {t}, request {i} {r}: {type(x).__name__}: {x}") from x
                        results[i] = x

            return run

        faults = [[t, k, interrupt.KINDS[x]] for t, k, x in plan["faults"]]
        s = sched.Scheduler([program(t) for t in range(n)], switches, ctx, SCOPES[plan["scope"]], faults)
        s.run()
        ctx.nontrivial |= s.nswitch > 0
        ctx.hit("hand-overs", s.nswitch)
        ctx.steps += s.steps
        ctx.log("steps", s.steps, "hand-overs", s.nswitch)
        for w in s.where:
            ctx.state(w)
        for i, (t, r) in enumerate(plan["ops"]):
            if want[i] is None or results.get(i) is None:
                continue
            if isinstance(results[i], Exception):
                ctx.fail("raised", f"thread {t}, request {i} {r}: {type(results[i]).__name__}: {results[i]}")
            ctx.check(calls.diff(results[i], want[i], 1e-10, 1e-12), "wrong-answer", f"thread {t}, request {i} {r}")
        if before is not None:
            ctx.check(compare.diff_snap(before, compare.snap(e)), "contents-changed", "the shared ensemble")
        # and afterwards, one at a time
        for i, (t, r) in enumerate(plan["ops"]):
            if want[i] is not None:
                ctx.check(calls.diff(calls.copy_result(h06.request(e, r)), want[i], 1e-10, 1e-12), "wrong-afterwards", f"request {i} {r}")
        if before is not None:
            ctx.check(diff_model(e, Model.of(build(plan, ctx.dir, name + "final"))), "wrong-afterwards", "the shared ensemble")
        return s
