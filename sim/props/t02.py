"""T02: threads asking for different grids each get values for their own grid."""

from sim import calls, sched, zoo
from sim.props import t01

LIMITS = [[0.0, 3.0], [0.0, 2.0], [0.1, 3.0], [0.5, 1.5]]


class Scenario(t01.Scenario):
    pid = "T02"
    direct = False
    runs = {"quick": 900, "thorough": 100000}
    rule = "a run is two to four threads' requests for values, modes, partial moments and metrics on a few grids, easily confused, of one ensemble, under seven seeded schedules of hand-overs at source lines; non-trivial if at least one hand-over happened while another thread was inside the library"

    def gen_threads(self, rng, rep):
        # few distinct requests, so that the cache is both hit and replaced
        menu = []
        for _ in range(rng.choice([2, 3, 4])):
            k = rng.choices(["call", "metric"], [75, 25])[0]
            if k == "call":
                menu.append([k, calls.gen_call(rng, rep, ("grid",))])
            else:
                menu.append([k, rng.choice(["moment", "kld", "rmse", "brier"]), rng.choice(LIMITS), rng.choice([0.1, 0.25])])
        n = rng.choice([2, 2, 3, 4])
        return [[t, rng.choice(menu)] for t in range(n) for _ in range(rng.choice([1, 2, 3, 4]))]

    def gen(self, rng, tier, index):
        plan = super().gen(rng, tier, index)
        if rng.random() < 0.7:
            # few steps: fine schedules
            plan["switches"] = []
            step = 0
            p = rng.choice([0.7, 0.4, 0.2, 0.05])
            for _ in range(120):
                step += 1 + int(rng.expovariate(p))
                plan["switches"].append([step, rng.randrange(3)])
        return plan
