"""H04: gridded values and modes are those of the current ensemble and grid."""

import numpy as np

from qp.metrics import metrics as qm

from sim import calls, history, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.fileworld import gen_ids
from sim.history import World, gen_make, gen_slice, used
from sim.pristine import Witness

NGRID = 4
DX = [0.05, 0.1, 0.25]
LIMITS = [[0.0, 3.0], [0.1, 3.0], [0.0, 2.0], [0.5, 1.5]]


def ask(r, e, other=None):
    """Carry out a request"""
    k = r[0]
    if k == "mp":
        return calls.invoke(e, r[1])
    if k == "mode":
        return [e.mode(r[1])]
    if k == "gridded":
        return list(e.gridded(r[1]))
    _, kind, lim, dx = r
    if kind == "moment":
        return [qm.calculate_moment(e, 1, lim, dx)]
    if kind == "brier":
        return [qm.calculate_brier(e, np.linspace(lim[0], lim[1], int(e.npdf)), lim, dx)]
    return [getattr(qm, f"calculate_{kind}")(e, other, lim, dx)]


def fresh(r, model, other):
    return calls.copy_result(ask(r, model.fresh(), None if other is None else other.fresh()))


class Scenario(Base):
    pid = "H04"
    runs = {"quick": 2000, "thorough": 60000}
    rule = "a run is a seeded history of several clients' gridded evaluations, modes, partial moments and grid metrics on four grids which are easily confused, some changed in place by their owner, between updates and appends; non-trivial if at least four results were obtained after some change of grid or contents"
    state_measure = "distinct (operation, kind of change of grid or contents since the previous use, representation) met"
    stub = "none"
    assumptions = ["ensembles of shape (n,)", "callers do not write into the arrays gridded returns"]

    def gen(self, rng, tier, index):
        rep = rng.choice(zoo.ALL)
        ops = [gen_make(rng, d, [rep], 1, ["none", "basic"]) for d in range(2)]
        ops += [["grid", g, calls.gen_grid(rng)] for g in range(2)]
        for _ in range(rng.randint(8, 24)):
            d, s, g = rng.randrange(3), used(rng, ops), rng.randrange(NGRID)
            k = rng.choices(
                ["grid", "gridmut", "gridded", "mode", "mp", "metric", "update", "updobj", "append", "slice", "concat", "pdf", "aslist", "copygrid", "table"],
                [6, 12, 22, 14, 12, 10, 8, 8, 8, 3, 3, 3, 4, 4, 3],
            )[0]
            if k in ("append", "anc_from"):
                d = used(rng, ops)
            if k == "grid":
                ops.append([k, g, calls.gen_grid(rng)])
            elif k == "copygrid":
                ops.append([k, g, rng.randrange(NGRID)])
                if rng.random() < 0.4:
                    # the same ends, and often the same number of points, but other points between them
                    ops.append(["gridmut", g, "warp"])
            elif k == "gridmut":
                ops.append([k, g, rng.choice(["shift", "scale", "one", "reverse", "tiny", "zero", "warp", "warp", "swap"])])
            elif k in ("gridded", "mode", "aslist"):
                ops.append([k, s, g])
                if rng.random() < 0.35:
                    # the same request again after the grid, or a copy of it, was changed
                    if rng.random() < 0.5:
                        h = rng.randrange(NGRID)
                        ops.append(["copygrid", h, g])
                        g = h
                    ops.append(["gridmut", g, rng.choice(["shift", "scale", "one", "reverse", "warp", "swap"])])
                    ops.append([k, s, g])
            elif k == "table":
                ops.append([k, s, rng.randrange(99)])
            elif k == "mp":
                ops.append([k, s, rng.randrange(3), rng.choice(LIMITS), rng.choice(DX)])
            elif k == "metric":
                ops.append([k, s, d, rng.choice(["moment", "kld", "rmse", "brier"]), rng.choice(LIMITS), rng.choice(DX)])
            elif k == "update":
                ops.append([k, s, zoo.gen_shared(rng, 2), gen_ids(rng, top=300), "none"])
            elif k == "updobj":
                ops.append([k, s, gen_ids(rng, top=300), "none"])
            elif k == "append":
                ops.append([k, d, s])
            elif k == "slice":
                ops.append(gen_slice(rng, d, s))
            elif k == "concat":
                ops.append([k, d, [used(rng, ops), used(rng, ops)]])
            else:
                ops.append(["eval", s, dict(fn="pdf", x=calls.gen_grid(rng)), 0])
        return dict(ops=ops)

    def run(self, plan, ctx):
        w = World(ctx)
        w.witness = Witness(8)
        grids, last = {}, {}
        n = 0
        for op in plan["ops"]:
            k = op[0]
            done, changed = "ok", []
            what = None
            if k == "grid":
                grids[op[1]] = np.array(op[2]["v"])
                last = {s: v | {"grid"} for s, v in last.items()}
            elif k == "copygrid":
                if op[2] in grids:
                    grids[op[1]] = grids[op[2]].copy()
            elif k == "gridmut":
                g = grids.get(op[1])
                if g is None:
                    continue
                if op[2] == "shift":
                    g += 0.25
                elif op[2] == "scale":
                    g *= 0.9
                elif op[2] == "one":
                    g[len(g) // 2] += 0.01
                elif op[2] == "reverse":
                    g[:] = g[::-1].copy()
                elif op[2] == "tiny":
                    g += 1e-9
                elif op[2] == "warp":
                    g[1:-1] = g[0] + (g[-1] - g[0]) * np.linspace(0, 1, len(g))[1:-1] ** 1.5
                elif op[2] == "swap":
                    # the same values between the same ends
                    g[1:-1] = g[1:-1][::-1].copy()
                else:
                    g[:] = 0.5
                last = {s: v | {op[2]} for s, v in last.items()}
            elif k in ("gridded", "mode", "aslist", "table", "mp", "metric"):
                s = op[1]
                if s not in w.slots:
                    continue
                e, f = w.slots[s].ens, None
                m = w.slots[s].model
                f = m.fresh()
                models = (m, None)
                if k == "metric":
                    if op[2] not in w.slots:
                        continue
                    e2, f2 = w.slots[op[2]].ens, w.slots[op[2]].model.fresh()
                    kind, lim, dx = op[3:]
                    if e2.npdf != e.npdf and kind in ("kld", "rmse"):
                        continue
                    r = ["metric", kind, lim, dx]
                    models = (m, w.slots[op[2]].model)
                    what = (kind, lambda: ask(r, e, e2), lambda: ask(r, f, f2))
                elif k == "mp":
                    r = ["mp", dict(fn="moment_partial", n=op[2], limits=op[3], dx=op[4])]
                    what = (k, lambda: ask(r, e), lambda: ask(r, f))
                elif k == "table":
                    t = zoo._rng("table", op[2]).uniform(0, 3, (m.npdf, 4))
                    r = ["gridded", t.copy()]
                    what = (k, lambda: list(e.gridded(t)), lambda: list(f.gridded(t.copy())))
                else:
                    g = grids.get(op[2])
                    if g is None:
                        continue
                    if k == "mode":
                        r = ["mode", g.copy()]
                        what = (k, lambda: [e.mode(g)], lambda: [f.mode(g.copy())])
                    else:
                        a = g.tolist() if k == "aslist" else g
                        r = ["gridded", np.array(a)]
                        what = (k, lambda: list(e.gridded(a)), lambda: list(f.gridded(np.array(a))))
                keep = {i: v.copy() for i, v in grids.items()}
                try:
                    want = calls.copy_result(what[2]())
                except Exception:  # pylint: disable=broad-except
                    ctx.log(*op, "raises on a fresh ensemble")
                    continue
                try:
                    got = calls.copy_result(what[1]())
                except Exception as x:  # pylint: disable=broad-except
                    ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
                ctx.check(calls.diff(got, want, 1e-12, 1e-14), "stale-or-wrong", f"{op}")
                w.witness.note(fresh, (r, *models), lambda x, got=got: calls.diff(got, x, 1e-10, 1e-12), "stale-or-wrong", f"{op}")
                if k in ("gridded", "aslist"):
                    ctx.check(None if np.array_equal(got[0], g) else f"grid {got[0]} returned for {g}", "stale-or-wrong", f"{op}")
                    p = m.fresh().pdf(g.copy())
                    ctx.check(calls.diff(got[1:], [p], 1e-12, 1e-14), "stale-or-wrong", f"{op} against pdf()")
                for i, v in keep.items():
                    ctx.check(None if np.array_equal(v, grids[i]) else f"grid {i}", "grid-modified", f"{op}")
                if s in last and last[s]:
                    n += 1
                    ctx.hit("after " + "+".join(sorted(last[s]))[:40])
                ctx.state(k, sorted(last.get(s, ["first"])), m.gen_class.name)
                last[s] = set()
                done = what[0]
            else:
                try:
                    done, changed = w.do(op)
                except Violation:
                    raise
                except Exception as x:  # pylint: disable=broad-except
                    ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
                for s in changed:
                    last[s] = last.get(s, set()) | {k}
            ctx.log(*op[:3], done)
        w.witness.settle(ctx)
        ctx.nontrivial = n >= 4
