"""H01: selecting, appending and concatenating act on rows like on a list."""

from sim import history, zoo
from sim.calls import gen_call
from sim.core import Scenario as Base
from sim.history import CONVS, RT, World, gen_make, gen_slice, used
from sim.pristine import Witness


class Scenario(Base):
    pid = "H01"
    runs = {"quick": 700, "thorough": 60000}
    rule = "a run is a seeded history of selections, appends, concatenations, file round trips and conversions by several clients over six ensembles; non-trivial if at least three operations of the list kind were carried out on results of earlier ones"
    state_measure = "distinct (operation, representation, size class, ancillary data or not) met"
    stub = "none"
    assumptions = ["ensembles of shape (n,)", "ancillary tables put together have the same columns"]

    def gen(self, rng, tier, index):
        # few representations and shared parameters, so that appending often applies
        reps = rng.sample(zoo.ALL, 2)
        if rng.random() < 0.08:
            reps = ["norm", "norm_int"]
        anc = ["basic", "ints"] if rng.random() < 0.15 else rng.sample(zoo.ANC_ALL, 2)
        ops = [gen_make(rng, d, reps[:1] if d < 2 else reps, 1, anc) for d in range(3)]
        for _ in range(rng.randint(6, 20)):
            d, s = rng.randrange(6), used(rng, ops)
            k = rng.choices(["pick", "slice", "append", "concat", "rt", "iter", "conv", "make", "eval", "ancil", "addanc", "rows"], [16, 20, 16, 16, 6, 3, 4, 6, 8, 3, 3, 3])[0]
            if k in ("append", "anc_from"):
                d = used(rng, ops)
            if k == "rows":
                ops.append([k, d, s])
            elif k == "pick":
                ops.append([k, d, s, rng.randrange(-3, 4), rng.choice([0, 0, 1, 1, 2, 3, 4])])
            elif k == "slice":
                ops.append(gen_slice(rng, d, s))
            elif k == "append":
                ops.append([k, d, s])
            elif k == "concat":
                ops.append([k, d, [used(rng, ops) for _ in range(rng.choice([1, 2, 2, 3, 4]))]])
            elif k == "rt":
                ops.append([k, d, s, rng.choice(RT)])
            elif k == "iter":
                ops.append([k, d, s, rng.randint(1, 5)])
            elif k == "conv":
                ops.append([k, d, s, rng.choice(CONVS), rng.randrange(2), rng.randrange(99)])
            elif k == "make":
                ops.append(gen_make(rng, d, reps, 1, anc))
            elif k == "eval":
                ops.append([k, s, gen_call(rng, reps[0], ("point", "grid")), 0])
            elif k == "ancil":
                ops.append([k, s, rng.choice(anc), rng.randrange(50)])
            else:
                ops.append([k, s, rng.randrange(20)])
        return dict(ops=ops)

    def run(self, plan, ctx):
        w = World(ctx)
        w.witness = Witness(5)
        n = 0
        for op in plan["ops"]:
            try:
                done, changed = w.do(op)
            except Exception as x:  # pylint: disable=broad-except
                if type(x).__name__ == "Violation":
                    raise
                ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
            ctx.log(*op[:3], done)
            for s in changed:
                w.check_slot(s, "rows-differ", f"after {op}: {done}")
                w.state(op, s)
            if changed and op[0] in ("pick", "slice", "take", "append", "concat", "rows"):
                n += 1
                ctx.hit(op[0])
        for s in sorted(w.slots):
            w.check_slot(s, "rows-differ", "at the end")
        w.final_probes()
        w.witness.settle(ctx)
        ctx.nontrivial = n >= 3
