"""H02: no operation changes another ensemble or the caller's data."""

from sim import calls, compare, zoo
from sim.calls import gen_call
from sim.core import Scenario as Base
from sim.core import Violation
from sim.fileworld import gen_ids
from sim.history import CONVS, RT, World, gen_make, gen_slice, used
from sim.pristine import Witness


class Scenario(Base):
    pid = "H02"
    runs = {"quick": 600, "thorough": 60000}
    rule = "a run is a seeded history of several clients' operations of every kind on up to six ensembles that share their origin, caches, arrays or dictionaries; after each one all other ensembles and all arrays passed in are compared bit for bit with what they were; non-trivial if at least three operations changed an ensemble while others of the same origin existed"
    state_measure = "distinct (operation, representation, size class, ancillary data or not) met"
    stub = "none"
    assumptions = ["ensembles of shape (n,)", "callers do not write into arrays returned by objdata, metadata, ancil or gridded"]

    def gen(self, rng, tier, index):
        reps = rng.sample(zoo.ALL, 2)
        anc = rng.sample(zoo.ANC_ALL, 2)
        rep, fn = calls.turn(index, zoo.ALL)
        reps[0] = rep
        ops = [gen_make(rng, d, [reps[d]], 1, anc) for d in range(2)]
        ops += [["eval", 0, calls.gen_of(rng, rep, fn), rng.randrange(2)] for _ in range(2)]
        for _ in range(rng.randint(8, 22)):
            d, s = rng.randrange(6), used(rng, ops)
            k = rng.choices(
                ["remake", "pick", "slice", "concat", "append", "anc_from", "addanc", "ancil", "update", "updobj", "eval", "conv", "write", "rt", "make"],
                [6, 6, 12, 8, 12, 5, 12, 5, 8, 8, 20, 6, 4, 2, 4],
            )[0]
            if k in ("append", "anc_from"):
                d = used(rng, ops)
            if k in ("remake", "append", "anc_from"):
                ops.append([k, d, s])
            elif k == "pick":
                ops.append([k, d, s, rng.randrange(-3, 4), rng.choice([0, 0, 1, 1, 2, 3, 4])])
            elif k == "slice":
                ops.append(gen_slice(rng, d, s))
            elif k == "concat":
                ops.append([k, d, [used(rng, ops) for _ in range(rng.choice([1, 2, 2, 3]))]])
            elif k == "addanc":
                ops.append([k, s, rng.randrange(20)])
            elif k == "ancil":
                ops.append([k, s, rng.choice(zoo.ANC_ALL), rng.randrange(50)])
            elif k == "update":
                ops.append([k, s, zoo.gen_shared(rng, 2), gen_ids(rng, top=300), rng.choice(anc)])
            elif k == "updobj":
                ops.append([k, s, gen_ids(rng, top=300), rng.choice(anc)])
            elif k == "eval":
                ops.append([k, s, gen_call(rng, rng.choice(reps)), rng.randrange(2)])
            elif k == "conv":
                ops.append([k, d, s, rng.choice(CONVS), rng.randrange(2), rng.randrange(99)])
            elif k in ("write",):
                ops.append([k, s, rng.choice(RT)])
            elif k == "rt":
                ops.append([k, d, s, rng.choice(RT)])
            else:
                ops.append(gen_make(rng, d, reps, 1, anc))
        return dict(ops=ops)

    def run(self, plan, ctx):
        w = World(ctx)
        w.witness = Witness(5)
        snaps, n = {}, 0
        for op in plan["ops"]:
            try:
                done, changed = w.do(op)
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
            ctx.log(*op[:3], done)
            ctx.hit(op[0] if done != "skip" else "skipped")
            for s in changed:
                w.check_slot(s, "wrong-result", f"after {op}: {done}")
                w.state(op, s)
            for s, old in snaps.items():
                if s in w.slots and s not in changed and old[0] is w.slots[s].ens:
                    ctx.check(compare.diff_snap(old[1], compare.snap(old[0])), "other-ensemble-changed", f"ensemble {s} by {op}")
            w.check_args()
            snaps = {s: (sl.ens, compare.snap(sl.ens)) for s, sl in w.slots.items()}
            if changed and len(w.slots) > 1:
                n += 1
        for s in sorted(w.slots):
            w.check_slot(s, "other-ensemble-changed", "at the end")
        w.check_args()
        w.final_probes()
        w.witness.settle(ctx)
        ctx.nontrivial = n >= 3
