"""T03: threads working on separate ensembles do not influence each other."""

import json
import os

import numpy as np
import tables_io

import qp

from sim import calls, compare, interrupt, sched, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.fileworld import gen_ids
from sim.history import CONVS, RT, SAMPLING, World, gen_slice, too_slow
from sim.pristine import Pristine
from sim.world import Model, Slot, diff_model

TABLES_IO = os.path.dirname(os.path.abspath(tables_io.__file__)) + os.sep
SCOPES = {"qp": [interrupt.ROOT], "io": [interrupt.ROOT, TABLES_IO]}
# file names that differ by little
PREFIXES = ["a", "a.", "ameta", "A"]


def setting(plan, top, where):
    """The common source, with the client's arrays it was made from"""
    _, _, rep, shared, ids, anc = plan["common"]
    d = os.path.join(top, where)
    os.makedirs(d)
    data, table = zoo.data(rep, shared, ids), zoo.ancil(anc, ids)
    src = qp.Ensemble(zoo.gen_func(rep), data=data, ancil=table)
    if plan["warm"]:
        src.pdf(zoo.XS)
        src.gridded(zoo.XS)
    return d, data, table, src


def program(plan, t, at, out, hit=lambda *a: None):
    """What thread t does"""
    d, data, table, src = at
    _, _, rep, shared, _, _ = plan["common"]

    class Sub:
        dir = d
        log = staticmethod(lambda *a: None)
        state = staticmethod(lambda *a: None)

        @staticmethod
        def fail(sig, msg):
            raise Violation(sig, msg)

        @staticmethod
        def check(msg, sig, where=""):
            if msg:
                raise Violation(sig, f"{where}: {msg}")

    Sub.hit = staticmethod(hit)
    w = World(Sub)
    w.prefix = PREFIXES[t]
    out[t] = w
    w.errors = []

    def begin():
        kind, rep2, shared2, ids2, anc2 = plan["starts"][t]
        if kind == "slice":
            e = src[:]
        elif kind == "pick":
            e = src[0]
        elif kind == "concat":
            e = qp.concatenate([src, src])
        elif kind == "same":
            e = qp.Ensemble(zoo.gen_func(rep), data=data, ancil=table)
        else:
            e = zoo.make(rep2, shared2, ids2, anc2)
        w.slots[0] = Slot(e, None)
        w.slots[0].origin = (rep, shared) if kind != "own" else (rep2, shared2)
        w.slots[0].model = Model.of(e)

    def run():
        try:
            begin()
            for i, (tt, o) in enumerate(plan["ops"]):
                if tt != t or "iter" == o[0] and o[2] in w.slots and w.slots[o[2]].model.npdf > 20:
                    continue
                try:
                    done, _ = w.do(o)
                except Violation:
                    raise
                except Exception as x:  # pylint: disable=broad-except
                    w.errors.append((i, f"{o}: {type(x).__name__}: {x}"))
                    return
                w.results.append((i, done))
        except Violation as v:
            w.errors.append((-1, str(v)))

    return run


def alone(plan, top, t):
    """(results, errors, models of the ensembles in the end) of thread t with nobody else about"""
    out = {}
    program(plan, t, setting(plan, top, f"alone{t}"), out)()
    return out[t].results, out[t].errors, {k: Model.of(sl.ens, sl.ens) for k, sl in out[t].slots.items()}


class Scenario(Base):
    pid = "T03"
    runs = {"quick": 800, "thorough": 60000}
    rule = "a run is two to four threads, each with a history on ensembles of its own - made anew, from the same arrays or from one common source by each thread; in every other run all ask for one function of one representation, each pair in turn - under several seeded schedules of hand-overs at source lines of qp (and in some runs of tables_io); non-trivial if at least one hand-over happened while another thread was inside the library"
    state_measure = "distinct (function and module the running thread was in, function the resumed thread was in) at hand-overs"
    real = "all of qp, tables_io, h5py/HDF5, PyTables, pandas, pyarrow, astropy.io.fits"
    stub = "the operating system's choice of the thread that runs"
    technique = "seeded thread schedules at line granularity"
    lists = ("cuts", "ops", "switches")
    assumptions = [
        "threads are switched between source lines of qp and tables_io, not inside other libraries or C code",
        "no thread samples from the process's global random generator (conversions by sampling are left out)",
        "the common source is only read: selecting from it and concatenating it are what the threads do with it",
    ]

    def gen(self, rng, tier, index):
        if index % 2:
            return self.gen_pair(rng, index // 2)
        n = rng.choice([2, 2, 3, 4])
        reps = rng.sample(zoo.ALL, 2)
        common = ["make", 0, reps[0], zoo.gen_shared(rng, 2), gen_ids(rng, 0), rng.choice(["none", "basic", "mixed"])]
        ops = []
        alike = rng.random() < 0.4
        kinds = rng.choices(["slice", "concat", "same", "own", "pick"], [4, 3, 4, 3, 1], k=n)
        starts = [[k, rng.choice([reps[0], reps[1]]), zoo.gen_shared(rng, 2), gen_ids(rng, 0), rng.choice(zoo.ANC_ALL)] for k in kinds]
        # in many runs all threads do the same kind of thing to different ensembles of one representation
        focused = rng.random() < 0.5
        if focused:
            rep = rng.choice(zoo.ROWS * 2 + zoo.ALL)
            starts = [["own", rep, zoo.gen_shared(rng, 4), gen_ids(rng, 0), rng.choice(zoo.ANC_ALL)] for _ in range(n)]
        elif alike:
            starts = [starts[0]] * n
        progs = [self.gen_program(rng, reps) for _ in range(n)]
        if focused:
            op = self.gen_program(rng, [rep, rep], 1)[0]
            while op[0] in ("make", "addanc", "ancil"):
                op = self.gen_program(rng, [rep, rep], 1)[0]
            progs = []
            for _ in range(n):
                prog = [self.similar(rng, rep, op) for _ in range(rng.choice([1, 1, 2]))]
                progs.append(prog)
        elif alike and rng.random() < 0.5:
            progs = [progs[0]] * n
        ops = [[t, o] for t, p in enumerate(progs) for o in p]
        return dict(common=common, starts=starts, ops=ops, switches=sched.gen_switches(rng), cuts=sched.gen_cuts(rng, 4), scope=rng.choice(["qp", "io"]), warm=rng.randrange(2))

    def gen_pair(self, rng, k):
        """All threads in one function of one representation: every pair of them in turn"""
        rep, fn = calls.turn(k, zoo.ROWS + ["norm"])
        common = ["make", 0, "norm", 0, [1], "none"]
        n = rng.choice([2, 2, 3])
        starts = [["own", rep, zoo.gen_shared(rng, 4), [rng.randrange(500) for _ in range(rng.choice([1, 2, 3]))], "none"] for _ in range(n)]
        ops = [[t, self.similar(rng, rep, ["eval", 0, dict(fn=fn), 0], 1)] for t in range(n) for _ in range(rng.choice([1, 1, 2]))]
        return dict(common=common, starts=starts, ops=ops, switches=sched.gen_switches(rng), cuts=sched.gen_cuts(rng, 8), scope="qp", warm=0)

    def similar(self, rng, rep, op, p=0.7):
        """The operation, on the thread's first ensemble, with other arguments"""
        op = json.loads(json.dumps(op))
        k = op[0]
        if k in ("slice", "pick", "append", "rows", "conv", "rt", "iter"):
            op[1], op[2] = 1, 0
        elif k == "concat":
            op[1:] = [1, [0, 0]]
        elif k in ("eval", "update", "updobj"):
            op[1] = 0
        if k == "eval" and rng.random() < p:
            op[2] = calls.gen_of(rng, rep, op[2]["fn"])
        elif k == "update":
            op[2:4] = [zoo.gen_shared(rng, 2), gen_ids(rng, 0)]
        return op

    def gen_program(self, rng, reps, n=None):
        out = []
        for _ in range(n or rng.randint(1, 5)):
            d, s = rng.randrange(2), rng.randrange(2)
            k = rng.choices(["slice", "pick", "concat", "append", "conv", "rt", "iter", "eval", "addanc", "ancil", "update", "updobj", "make", "rows"], [8, 4, 6, 6, 18, 8, 4, 22, 4, 3, 6, 3, 6, 2])[0]
            if k == "slice":
                out.append(gen_slice(rng, d, s))
            elif k == "pick":
                out.append([k, d, s, rng.randrange(-2, 3), 0])
            elif k == "concat":
                out.append([k, d, [rng.randrange(2) for _ in range(2)]])
            elif k in ("append", "rows"):
                out.append([k, d, s])
            elif k == "conv":
                out.append([k, d, s, rng.choice([c for c in CONVS if c not in SAMPLING]), rng.choice([0, 1, 1]), 0])
            elif k == "rt":
                out.append([k, d, s, rng.choice(RT)])
            elif k == "iter":
                out.append([k, d, s, rng.randint(1, 4)])
            elif k == "eval":
                out.append([k, s, calls.gen_call(rng, reps[0], ("point", "point", "grid", "moment", "other")), 0])
            elif k == "addanc":
                out.append([k, s, rng.randrange(20)])
            elif k == "ancil":
                out.append([k, s, rng.choice(zoo.ANC_ALL), rng.randrange(50)])
            elif k == "update":
                out.append([k, s, zoo.gen_shared(rng, 2), gen_ids(rng, 0), rng.choice(zoo.ANC_ALL)])
            elif k == "updobj":
                out.append([k, s, gen_ids(rng, 0), rng.choice(zoo.ANC_ALL)])
            else:
                out.append([k, d, rng.choice(reps), zoo.gen_shared(rng, 2), gen_ids(rng, 0), rng.choice(zoo.ANC_ALL)])
        return out

    def run(self, plan, ctx):
        n = len(plan["starts"])
        _, _, rep, shared, ids, anc = plan["common"]
        found = Pristine().ask([(alone, (plan, ctx.dir, t)) for t in range(n)])
        for how, x in found:
            ctx.check(None if how == "ok" else x, "raised", "a thread alone")
        first = self.round(plan, ctx, found, plan["switches"], "together")
        for i, cuts in enumerate(plan["cuts"]):
            self.round(plan, ctx, found, sched.placed(cuts, first), f"together{i}")

    def round(self, plan, ctx, found, switches, name):
        n = len(plan["starts"])
        _, _, rep, shared, ids, anc = plan["common"]
        together = {}
        at = setting(plan, ctx.dir, name)
        before = compare.snap(at[3])
        s = sched.Scheduler([program(plan, t, at, together, ctx.hit) for t in range(n)], switches, ctx, SCOPES[plan["scope"]])
        s.run()
        ctx.nontrivial |= s.nswitch > 0
        ctx.hit("hand-overs", s.nswitch)
        ctx.steps += s.steps
        ctx.log("steps", s.steps, "hand-overs", s.nswitch)
        for x in s.where:
            ctx.state(x)
        for t in range(n):
            (results, errors, models), b = found[t][1], together[t]
            ctx.log(t, len(results), len(b.results), errors, sorted(models))
            if [e[0] for e in errors] != [e[0] for e in b.errors]:
                ctx.fail("raised", f"thread {t}: {b.errors} instead of {errors}")
            if len(results) != len(b.results):
                ctx.fail("wrong-result", f"thread {t}: {len(b.results)} results instead of {len(results)}")
            for x, y in zip(results, b.results):
                if isinstance(x, tuple):
                    ctx.check(None if x == y else f"{y} instead of {x}", "wrong-result", f"thread {t}")
                else:
                    ctx.check(calls.diff(y, x, 1e-10, 1e-12), "wrong-answer", f"thread {t}")
            ctx.check(None if sorted(models) == sorted(b.slots) else "other ensembles", "wrong-result", f"thread {t}")
            for k in sorted(models):
                ctx.check(diff_model(b.slots[k].ens, models[k]), "wrong-result", f"thread {t}, ensemble {k}")
                b.check_slot(k, "wrong-result", f"of thread {t}")
            b.check_args()
        ctx.check(compare.diff_snap(before, compare.snap(at[3])), "source-changed", "the common source")
        ctx.check(diff_model(at[3], Model.of(zoo.make(rep, shared, ids, anc))), "source-changed", "the common source")
        return s
