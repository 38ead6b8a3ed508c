"""R01: seeded sampling depends on the seed and the ensemble only."""

import numpy as np

import qp
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import metrics as qm

from sim import calls, interrupt, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.history import RT, World, gen_make, gen_slice, used
from sim.world import Model, do_convert, diff_model

STATES = ["int", "npint", "legacy", "generator", "global"]
GOF = ["ks", "cvm", "ad"]
CLASSES = dict(ks=cm.KSMetric, cvm=cm.CvMMetric, ad=cm.ADMetric)
SAMPLED = ["hist_samples", "mixmod", "spline_samples"]


def make_state(kind, seed):
    """What is passed as random_state"""
    if kind == "int":
        return seed
    if kind == "npint":
        return np.int64(seed)
    if kind == "legacy":
        return np.random.RandomState(seed)
    if kind == "generator":
        return np.random.default_rng(seed)
    np.random.seed(seed)
    return None


def position(state):
    """Where a generator stands"""
    if isinstance(state, np.random.RandomState):
        s = state.get_state()
        return repr((s[0], s[1].tobytes(), s[2:]))
    if isinstance(state, np.random.Generator):
        return repr(state.bit_generator.state)
    return None


def same_values(a, b, rtol=1e-9):
    return calls.diff([np.asarray(v, dtype=float) for v in a], [np.asarray(v, dtype=float) for v in b], rtol, 1e-12)


class Scenario(Base):
    pid = "R01"
    runs = {"quick": 550, "thorough": 70000}
    rule = "a run is a seeded history of several clients' draws, fits and conversions by sampling - with seeds, with generators of their own which live on from call to call, or after seeding the global generator - between unseeded draws, evaluations, selections, changes, file round trips and draws that fail or are interrupted; every seeded result, and the generator after it, is compared with the same request to a fresh ensemble; non-trivial if at least three seeded draws followed other operations"
    state_measure = "distinct (operation, representation, kind of random state, operation before it) met"
    stub = "the global random generator is seeded by the simulator; asynchronous exceptions are raised by a trace hook"
    technique = "seeded histories of random draws against a replay on fresh ensembles"
    assumptions = ["ensembles of shape (n,)"]

    def gen(self, rng, tier, index):
        reps = rng.sample(zoo.ALL, 2)
        anc = ["none", "basic"]
        ops = [gen_make(rng, d, reps, 2, anc) for d in range(2)]
        ops = [[*o[:4], o[4][:6], o[5]] for o in ops]
        for _ in range(rng.randint(6, 18)):
            d, s = rng.randrange(4), used(rng, ops)
            k = rng.choices(
                ["draw", "mine", "gof", "unseeded", "seedglobal", "conv", "eval", "slice", "pick", "append", "update", "rt", "concat", "bad", "stop", "again"],
                [26, 12, 10, 8, 4, 6, 10, 6, 3, 3, 4, 5, 3, 3, 6, 12],
            )[0]
            seed, size = rng.randrange(5) if rng.random() < 0.5 else rng.randrange(10**6), rng.choice([1, 2, 3, 7])
            if k == "draw":
                ops.append([k, s, rng.choice(STATES), seed, size])
            elif k == "mine":
                # the client's own generator, made at the first use
                ops.append([k, s, rng.randrange(2), rng.choice(["legacy", "generator"]), size])
            elif k == "gof":
                ops.append([k, s, used(rng, ops), rng.choice(GOF), rng.choice(STATES), seed, rng.choice([2, 3, 8]), rng.randrange(3)])
            elif k in ("unseeded", "bad"):
                ops.append([k, s, size])
            elif k == "seedglobal":
                ops.append([k, 0, seed])
            elif k == "conv":
                ops.append([k, s, rng.choice(SAMPLED + ["mixmod_seed"] * 2), rng.choice(STATES[:4]), seed])
            elif k == "eval":
                ops.append([k, s, calls.gen_call(rng, rng.choice(reps)), 0])
            elif k == "slice":
                ops.append(gen_slice(rng, d, s))
            elif k == "pick":
                ops.append([k, d, s, rng.randrange(-3, 4), 0])
            elif k == "append":
                ops.append([k, used(rng, ops), s])
            elif k == "update":
                ops.append([k, s, zoo.gen_shared(rng, 2), [rng.randrange(500) for _ in range(rng.choice([1, 2, 3]))], "none"])
            elif k == "rt":
                ops.append([k, d, s, rng.choice(RT)])
            elif k == "concat":
                ops.append([k, d, [used(rng, ops), used(rng, ops)]])
            elif k == "stop":
                ops.append([k, s, rng.choice(STATES), seed, size, rng.randrange(40)])
            else:
                asked = [o for o in ops if o[0] in ("draw", "gof")]
                if asked:
                    ops.append(rng.choice(asked))
        return dict(ops=ops)

    def run(self, plan, ctx):
        w = World(ctx)
        mine, metrics = {}, {}
        n, before = 0, "start"
        kept = []
        np.random.seed(4711)
        for op in plan["ops"]:
            k = op[0]
            if k == "seedglobal":
                np.random.seed(op[2])
                before = k
                continue
            if k in ("draw", "mine", "gof", "unseeded", "conv", "bad", "stop"):
                s = op[1]
                if s not in w.slots or k == "gof" and op[2] not in w.slots:
                    continue
                m = w.slots[s].model
                rep = m.gen_class.name
                if m.npdf > 24 or rep == "spline" and m.npdf > 3:
                    continue
                size = min(op[-1] if k in ("mine", "unseeded", "bad") else op[4] if k in ("draw", "stop") else 2, 2 if rep == "spline" else 99)
                done = getattr(self, "do_" + k)(ctx, w, op, m, size, mine, metrics, kept)
                ctx.log(*op[:5], done)
                ctx.hit(k)
                ctx.state(k, rep, op[2] if k in ("draw", "mine") else op[3] if k == "conv" else op[4] if k == "gof" else "", before)
                n += k in ("draw", "mine", "gof", "conv") and before != "start"
                before = k
                continue
            try:
                done, changed = w.do(op)
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
            ctx.log(*op[:3], done)
            before = k
        for got, cp, op in kept:
            ctx.check(same_values([got], [cp]), "samples-changed", f"those of {op}, at the end")
        ctx.nontrivial |= n >= 3

    # -------------------------------------------------------- operations

    def compare(self, ctx, op, kind, seed, f, e, fresh, own=None):
        """f(ensemble, random state), of the ensemble with a history and of a fresh one"""
        outside = np.random.get_state()
        st1 = own[0] if own else make_state(kind, seed)
        try:
            got = f(e, st1)
        except Exception as x:  # pylint: disable=broad-except
            got = x
        after_global = position(np.random.mtrand._rand)
        if kind != "global":
            before_global = repr((outside[0], outside[1].tobytes(), outside[2:]))
            ctx.check(None if before_global == after_global else "the global generator advanced", "other-generator-used", f"{op}")
        # the fresh one is asked in another global state, unless that is what was seeded
        np.random.seed(99 if kind != "global" else seed)
        st2 = own[1] if own else make_state(kind, seed)
        try:
            want = f(fresh, st2)
        except Exception as x:  # pylint: disable=broad-except
            want = x
        end2 = position(np.random.mtrand._rand) if kind == "global" else None
        if kind != "global":
            np.random.set_state(outside)
        if isinstance(got, Exception) or isinstance(want, Exception):
            if isinstance(got, Exception) != isinstance(want, Exception):
                ctx.fail("raised", f"{op}: {got!r:.200} instead of {want!r:.200}")
            return None
        if isinstance(got, qp.Ensemble):
            ctx.check(diff_model(got, Model.of(want)), "depends-on-history", f"{op}")
        else:
            if op[0] == "gof" and op[3] == "ad":
                # it has the logarithm of what is left of 1: where that is next to nothing, so is what it tells
                clear = np.isfinite(want) & (np.abs(want) < 5 * op[6])
                got_, want_ = np.where(clear, got, 0), np.where(clear, want, 0)
                ctx.check(same_values([got_], [want_], 1e-4), "depends-on-history", f"{op}")
            else:
                ctx.check(same_values([got], [want]), "depends-on-history", f"{op}")
        ctx.check(None if position(st1) == position(st2) else "the generator passed in stands elsewhere than after the same call to a fresh ensemble", "generator-position", f"{op}")
        if kind == "global":
            ctx.check(None if after_global == end2 else "the global generator stands elsewhere than after the same call to a fresh ensemble", "generator-position", f"{op}")
        return got

    def do_draw(self, ctx, w, op, m, size, mine, metrics, kept):
        _, s, kind, seed, _ = op
        got = self.compare(ctx, op, kind, seed, lambda e, st: e.rvs(size=size, random_state=st), w.slots[s].ens, m.fresh())
        if got is not None:
            ctx.check(None if np.shape(got) == (m.npdf, size) else f"shape {np.shape(got)}", "shape", f"{op}")
            if seed % 3 == 0 and getattr(got, "flags", None) is not None and got.flags.writeable:
                got[...] = -77.0  # the samples are the client's, who may do with them what it likes
            else:
                kept.append((got, np.array(got, copy=True), op))
        return "ok" if got is not None else "raises"

    def do_mine(self, ctx, w, op, m, size, mine, metrics, kept):
        _, s, c, kind, _ = op
        if (c, kind) not in mine:
            mine[c, kind] = (make_state(kind, c), make_state(kind, c))
        got = self.compare(ctx, op, kind, None, lambda e, st: e.rvs(size=size, random_state=st), w.slots[s].ens, m.fresh(), mine[c, kind])
        return "ok" if got is not None else "raises"

    def do_gof(self, ctx, w, op, m, size, mine, metrics, kept):
        _, s, r, fit, kind, seed, num, how = op
        ref = w.slots[r].model
        if ref.npdf not in (1, m.npdf) or "spline" in (m.gen_class.name, ref.gen_class.name):
            return "skip"
        other = {id(w.slots[s].ens): w.slots[r].ens}

        def f(e, st):
            q = other.get(id(e)) or ref.fresh()
            if how == 0:
                return qm.calculate_goodness_of_fit(e, q, fit, num, st)
            if how == 1:
                return CLASSES[fit](num_samples=num, _random_state=st).evaluate(e, q)
            # one metric object for the whole history
            key = (fit, num) if e is w.slots[s].ens else None
            obj = metrics.setdefault(key, CLASSES[fit](num_samples=num)) if key else CLASSES[fit](num_samples=num)
            obj.random_state = st
            return obj.evaluate(e, q)

        got = self.compare(ctx, op, kind, seed, f, w.slots[s].ens, m.fresh())
        return "ok" if got is not None else "raises"

    def do_conv(self, ctx, w, op, m, size, mine, metrics, kept):
        _, s, name, kind, seed = op
        if m.gen_class.name == "spline" or m.npdf > 8:
            return "skip"

        def f(e, st):
            if name == "mixmod_seed":
                return e.convert_to(qp.mixmod_gen, ncomps=2, nsamples=100, random_state=st)
            return do_convert(e, name)

        got = self.compare(ctx, op, kind if name == "mixmod_seed" else "global", seed, f, w.slots[s].ens, m.fresh())
        return "ok" if got is not None else "raises"

    def do_unseeded(self, ctx, w, op, m, size, mine, metrics, kept):
        at = np.random.get_state()
        got = np.array(w.slots[op[1]].ens.rvs(size=size), copy=True)
        end = np.random.get_state()
        np.random.set_state(at)
        ctx.check(same_values([got], [m.fresh().rvs(size=size)]), "depends-on-history", f"{op}, from the same global state")
        np.random.set_state(end)
        return "ok"

    def do_bad(self, ctx, w, op, m, size, mine, metrics, kept):
        """Draws that are not possible"""
        st = np.random.RandomState(3)
        for f in (lambda e: e.rvs(size="many", random_state=st), lambda e: e.rvs(size=size, random_state="today"), lambda e: e.rvs(size=-1, random_state=5)):
            try:
                f(w.slots[op[1]].ens)
            except Exception:  # pylint: disable=broad-except
                pass
        return "ok"

    def do_stop(self, ctx, w, op, m, size, mine, metrics, kept):
        """A draw in the middle of which the client is interrupted"""
        _, s, kind, seed, _, at = op
        st = make_state(kind, seed)
        with interrupt.Interrupt(at, KeyboardInterrupt, (interrupt.ROOT, "_distn_infrastructure.py")) as i:
            try:
                w.slots[s].ens.rvs(size=size, random_state=st)
            except KeyboardInterrupt:
                pass
        if i.fired:
            ctx.fault("interrupted draw")
        return i.where
