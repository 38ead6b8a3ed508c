"""H07: conversions depend only on the distributions and arguments."""

import os

import numpy as np

import qp

from sim import calls, compare, history, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.history import CONVS, RT, SAMPLING, World, gen_make, gen_slice, too_slow, used
from sim.pristine import Witness
from sim.world import Model, conversion, diff_model

VARIANTS = 6


def differ(a, b):
    return compare.diff_table(a.table(), b.table(), "data") or compare.diff_table(a.meta, b.meta, "metadata")


def bent(v, p):
    """As many values between the same ends"""
    return v[0] + (v[-1] - v[0]) * ((v - v[0]) / (v[-1] - v[0])) ** p


def arguments(name, variant):
    """(class name, arguments): other grids, explicit and default methods"""
    if name == "sparse":
        return "sparse", dict(nvals=[31, 41, 51, 41, 31, 51][variant])
    cls, kw = conversion(name)
    for k in ("xvals", "bins", "quants"):
        if k in kw and variant:
            v = kw[k]
            kw[k] = [None, v[::2], v[1:-1], np.concatenate([v[: len(v) // 2], v[len(v) // 2 + 1 :]]), bent(v, 1.2), bent(v, 0.9)][variant] if name not in ("hist_samples",) or variant != 3 else v[::2]
    if variant == 2 and name in ("hist", "interp", "irregular", "quant", "packed_lin"):
        kw["method"] = None
    return cls, kw


def convert(e, name, variant, lib, seed, keep=None):
    cls, kw = arguments(name, variant)
    if keep is not None:
        for k, v in kw.items():
            if isinstance(v, np.ndarray):
                keep.append((k, v, v.copy()))
    np.random.seed(seed)
    if lib:
        return qp.convert(e, cls, **kw)
    return e.convert_to(qp.stats[cls], **kw)


def fresh(model, name, variant, lib, seed):
    return Model.of(convert(model.fresh(), name, variant, lib, seed))


class Scenario(Base):
    pid = "H07"
    runs = {"quick": 700, "thorough": 60000}
    rule = "a run is a seeded history of conversions with varied arguments, through the ensemble and the library, between evaluations, changes, selections and file round trips; each result is compared with the same conversion of a fresh ensemble; non-trivial if at least two conversions followed other operations"
    state_measure = "distinct (source representation, conversion, variant of the arguments, operation before it) met"
    stub = "none"
    assumptions = ["ensembles of shape (n,)", "conversions by sampling start from a seeded global generator"]

    def gen(self, rng, tier, index):
        reps = rng.sample(zoo.ALL, rng.choice([1, 2]))
        # every conversion of every representation in turn
        reps[0], name = calls.in_turn(index, [(r, c) for c in CONVS for r in zoo.ALL])
        ops = [gen_make(rng, d, reps[:1] if d == 0 else reps, 2, ["none", "basic"]) for d in range(2)]
        ops = [[*o[:4], o[4][:8], o[5]] for o in ops]
        ops += [["cmp", 0, name, rng.randrange(VARIANTS), rng.randrange(2), rng.randrange(99)] for _ in range(2)]
        for _ in range(rng.randint(5, 14)):
            d, s = rng.randrange(4), used(rng, ops)
            k = rng.choices(["cmp", "again", "cmpsel", "keep", "eval", "update", "append", "slice", "rt", "remake", "addanc", "pretty"], [26, 14, 8, 8, 16, 7, 7, 8, 5, 3, 3, 2])[0]
            if k in ("append", "anc_from"):
                d = used(rng, ops)
            name = rng.choice(CONVS + ["sparse"])
            if k == "cmp":
                ops.append([k, s, name, rng.randrange(VARIANTS), rng.randrange(2), rng.randrange(99)])
            elif k == "again":
                # an earlier conversion, after what happened since
                asked = [o for o in ops if o[0] == "cmp"]
                if asked:
                    ops.append(rng.choice(asked))
            elif k == "cmpsel":
                ops.append([k, s, rng.choice([c for c in CONVS if c not in SAMPLING]), rng.randrange(VARIANTS), rng.choice([0, 1, None]), rng.choice([None, 2, 1]), rng.choice([1, -1, 2])])
            elif k == "keep":
                ops.append(["conv", d, s, rng.choice(CONVS), rng.randrange(2), rng.randrange(99)])
            elif k == "eval":
                ops.append([k, s, calls.gen_call(rng, rng.choice(reps)), 0])
            elif k == "update":
                ops.append([k, s, zoo.gen_shared(rng, 2), [rng.randrange(500) for _ in range(rng.choice([1, 2, 3]))], "none"])
            elif k in ("append", "remake"):
                if k == "append" and rng.random() < 0.3:
                    s = d
                ops.append([k, d, s])
            elif k == "slice":
                ops.append(gen_slice(rng, d, s))
            elif k == "rt":
                ops.append([k, d, s, rng.choice(RT)])
            elif k == "addanc":
                ops.append([k, s, rng.randrange(20)])
            else:
                ops.append([k, s])
            if k in ("update", "append") and rng.random() < 0.5:
                asked = [o for o in ops if o[0] == "cmp" and o[1] == ops[-1][1]]
                ops += [rng.choice(asked)] if asked else []
        return dict(ops=ops)

    def run(self, plan, ctx):
        w = World(ctx)
        w.witness = Witness(6)
        n, before = 0, "start"
        for op in plan["ops"]:
            k = op[0]
            if k in ("cmp", "cmpsel"):
                s, name, variant = op[1:4]
                if s not in w.slots:
                    continue
                e, m = w.slots[s].ens, w.slots[s].model
                rep = m.gen_class.name
                if m.npdf > 12 or too_slow(rep, name) or (name == "sparse" and (rep != "interp" or m.npdf > 4)):
                    ctx.log(*op, "skip")
                    continue
                snap, keep = compare.snap(e), []
                lib, seed = (op[4], op[5]) if k == "cmp" else (0, 0)
                if k == "cmpsel":
                    rows = list(range(m.npdf)[slice(*op[4:7])])
                    if not rows:
                        continue
                else:
                    rows = list(range(m.npdf))
                try:
                    ref = convert(m.select(rows).fresh(), name, variant, 1 - lib, seed)
                except Exception as x:  # pylint: disable=broad-except
                    ref = x
                try:
                    got = convert(e, name, variant, lib, seed, keep)
                    if k == "cmpsel":
                        got = got[slice(*op[4:7])]
                except Exception as x:  # pylint: disable=broad-except
                    if not isinstance(ref, Exception):
                        if k == "cmpsel":
                            ctx.log(*op, "raises for the whole")
                            continue
                        ctx.fail("raised", f"{op} after {before}: {type(x).__name__}: {x}")
                    got = x
                if not isinstance(ref, Exception) or k == "cmp":
                    if isinstance(ref, Exception):
                        ctx.check(None if isinstance(got, Exception) else "accepted although a fresh ensemble is rejected", "differs", f"{op}")
                    elif not (k == "cmpsel" and rep == "mixmod" and name == "quant"):
                        ctx.check(diff_model(got, Model.of(ref)), "differs", f"{op} after {before}")
                        w.witness.note(fresh, (m.select(rows), name, variant, lib, seed), lambda x, got=Model.of(got): differ(got, x), "differs", f"{op} after {before}")
                        ctx.check(None if got.ancil is None or k == "cmpsel" else "ancillary data appeared", "differs", f"{op}")
                ctx.check(compare.diff_snap(snap, compare.snap(e)), "source-changed", f"{op}")
                for what, a, b in keep:
                    ctx.check(None if np.array_equal(a, b) else what, "argument-modified", f"{op}")
                ctx.state(rep, name, variant, before)
                ctx.hit(f"to {name}")
                n += before != "start"
                ctx.log(*op, "raises" if isinstance(got, Exception) else "ok")
                continue
            if k == "pretty":
                import io

                qp.stats.pretty_print(io.StringIO())
                ctx.log(*op)
                continue
            try:
                done, changed = w.do(op)
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
            for s in changed:
                w.check_slot(s, "wrong-result", f"after {op}: {done}")
            ctx.log(*op[:3], done)
            before = k
        for s in sorted(w.slots):
            w.check_slot(s, "source-changed", "at the end")
        w.witness.settle(ctx)
        ctx.nontrivial = n >= 2
