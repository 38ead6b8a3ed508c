"""H03: an operation that fails changes nothing."""

import os

import numpy as np

import qp

from sim import alloc, calls, compare, zoo
from sim.calls import gen_call
from sim.core import Scenario as Base
from sim.core import Violation
from sim.fileworld import gen_ids
from sim.history import CONVS, World, gen_make, gen_slice, used

BAD = [
    "ancil_len", "ancil_len2", "ancil_scalar", "add_len", "add_len2", "append_rep", "append_shared", "append_ancil", "append_size", "append_junk",
    "concat_rep", "concat_shared", "concat_ancil", "concat_size", "update_missing", "update_len", "update_extra", "update_ancil", "update_none",
    "updobj_len", "updobj_extra", "updobj_ancil", "updobj_shape", "conv_name", "conv_args", "conv_extra", "conv_method", "pick", "pick_str",
    "write_ext", "write_dir", "write_exists", "eval_shape", "eval_str", "moment", "create", "make_ancil", "init_write",
]
from sim.pristine import Witness


def other_rep(rep):
    return "norm" if rep != "norm" else "gamma"


class Scenario(Base):
    pid = "H03"
    runs = {"quick": 700, "thorough": 60000}
    rule = "a run is a seeded history of several clients' valid operations, operations with invalid arguments of 38 kinds, and operations during which the k-th array allocation fails; non-trivial if at least two operations failed, or one met a failing allocation"
    state_measure = "distinct (failing operation, representation, ancillary data or not) met"
    stub = "numpy's allocations fail on demand (a profile hook raises MemoryError at the k-th one)"
    technique = "seeded histories with failing operations and injected allocation failures"
    assumptions = ["ensembles of shape (n,)", "an operation with invalid arguments that is accepted is outside the property"]

    def gen(self, rng, tier, index):
        reps = rng.sample(zoo.ALL, 2)
        anc = rng.sample(zoo.ANC_ALL, 2)
        ops = [gen_make(rng, d, reps, 1, anc) for d in range(3)]
        for _ in range(rng.randint(8, 22)):
            d, s = rng.randrange(4), used(rng, ops)
            r = rng.random()
            if r < 0.45:
                ops.append(["bad", rng.choice(BAD), s, rng.randrange(1000)])
                continue
            k = rng.choices(["pick", "slice", "concat", "append", "addanc", "ancil", "update", "updobj", "eval", "conv", "write", "remake", "make"], [5, 8, 10, 14, 8, 6, 10, 10, 14, 6, 4, 4, 4])[0]
            if k in ("append", "anc_from"):
                d = used(rng, ops)
            if k in ("append", "remake"):
                op = [k, d, s]
            elif k == "pick":
                op = [k, d, s, rng.randrange(-3, 4), 0]
            elif k == "slice":
                op = gen_slice(rng, d, s)
            elif k == "concat":
                op = [k, d, [used(rng, ops) for _ in range(rng.choice([2, 3]))]]
            elif k == "addanc":
                op = [k, s, rng.randrange(20)]
            elif k == "ancil":
                op = [k, s, rng.choice(anc), rng.randrange(50)]
            elif k == "update":
                op = [k, s, zoo.gen_shared(rng, 2), gen_ids(rng, top=300), rng.choice(anc)]
            elif k == "updobj":
                op = [k, s, gen_ids(rng, top=300), rng.choice(anc)]
            elif k == "eval":
                op = [k, s, gen_call(rng, rng.choice(reps)), 0]
            elif k == "conv":
                op = [k, d, s, rng.choice(CONVS), rng.randrange(2), rng.randrange(99)]
            elif k == "write":
                op = [k, s, rng.choice(["hdf5", "pq", "fits"])]
            else:
                op = gen_make(rng, d, reps, 1, anc)
            if r < 0.75:
                op = ["oom", int(rng.paretovariate(0.5)) - 1 if rng.random() < 0.5 else rng.randrange(40), op]
            ops.append(op)
        return dict(ops=ops)

    def bad(self, w, what, s, seed):
        """Carry out one operation that is to fail; the operation's text, or None if it can not be tried here.  Returns when it was accepted."""
        sl = w.slots[s]
        e, m = sl.ens, sl.model
        n = m.npdf
        r = np.random.default_rng(seed)
        rep, shared = getattr(sl, "origin", ("norm", 0))
        wrong = n + 1 + int(r.integers(3))
        verb, _, why = what.partition("_")
        cols = dict(zoo.ancil("basic", list(range(n))))
        if verb in ("append", "concat"):
            if why == "rep":
                o = zoo.make(other_rep(m.gen_class.name), 0, [1, 2])
            elif why == "shared":
                o = zoo.make(rep, shared + 5, [1, 2])
            elif why == "ancil":
                if m.anc is None:
                    return False
                o = m.fresh()
                o.set_ancil(dict(o.ancil, extra=np.arange(n)))
            elif why == "size":
                table = m.table()
                o = m.fresh()
                k = list(table)[int(r.integers(len(table)))]
                if table[k].ndim < 2 or table[k].shape[1] < 3:
                    return False
                try:
                    o = qp.Ensemble(m.gen_class.create, data=dict(m.data(), **{k: v[:, :-1] for k, v in table.items() if v.shape == table[k].shape}))
                except Exception:  # pylint: disable=broad-except
                    return False
            else:
                o = None
            if verb == "append":
                e.append(o)
            else:
                qp.concatenate([e, o] if r.random() < 0.5 else [e, e, o])
            return True
        if what == "ancil_len":
            e.set_ancil(dict(z=np.arange(wrong)))
        elif what == "ancil_len2":
            e.set_ancil(dict(cols, bad=np.arange(wrong)))
        elif what == "ancil_scalar":
            e.set_ancil(dict(cols, bad=3.0))
        elif what == "add_len":
            e.add_to_ancil(dict(z=np.arange(wrong)))
        elif what == "add_len2":
            e.add_to_ancil(dict(good=np.arange(n), bad=np.arange(wrong)))
        elif verb == "update":
            data = zoo.data(rep, shared, list(range(n + 1)))
            k = sorted(zoo.row_data(rep, shared, 0, zoo.shared_data(rep, shared)))[-1]
            if why == "missing":
                data.pop(k)
            elif why == "len":
                if len(zoo.row_data(rep, shared, 0, zoo.shared_data(rep, shared))) < 2:
                    data[k] = "junk"
                else:
                    data[k] = data[k][:-1]
            elif why == "extra":
                data["nonsense"] = np.arange(n + 1)
            elif why == "none":
                data[k] = None
            anc = dict(z=np.arange(n + 3)) if why == "ancil" else None
            e.update(data, anc)
        elif verb == "updobj":
            table = m.table()
            k = sorted(table)[int(r.integers(len(table)))]
            if why == "len":
                e.update_objdata({k: np.concatenate([table[k], table[k][:1]])} if len(table) > 1 else {k: "junk"})
            elif why == "extra":
                e.update_objdata(dict(nonsense=np.arange(n)))
            elif why == "shape":
                e.update_objdata({k: table[k][:, :-1]})
            else:
                e.update_objdata(table, dict(cols, bad=np.arange(wrong)))
        elif what == "conv_name":
            qp.convert(e, "nosuch", xvals=zoo.XS)
        elif what == "conv_args":
            e.convert_to([qp.hist_gen, qp.interp_gen, qp.quant_gen][int(r.integers(3))])
        elif what == "conv_extra":
            e.convert_to(qp.packed_interp_gen, xvals=np.linspace(0, 3, 5), packing_type="junk")
        elif what == "conv_method":
            e.convert_to(qp.hist_gen, bins=np.array([[1.0, "a"]], dtype=object), method="samples", size=3)
        elif what == "pick":
            e[n + int(r.integers(3))]
        elif what == "pick_str":
            e["nosuch"]
        elif what == "write_ext":
            e.write_to(os.path.join(w.ctx.dir, "x.nosuch"))
        elif what == "write_dir":
            e.write_to(os.path.join(w.ctx.dir, "nodir", "x." + ["hdf5", "pq", "fits"][int(r.integers(3))]))
        elif what == "write_exists":
            p = os.path.join(w.ctx.dir, "exists.fits")
            if not os.path.exists(p):
                e.write_to(p)
            e.write_to(p)
        elif what == "eval_shape":
            getattr(e, ["pdf", "cdf", "gridded", "ppf"][int(r.integers(4))])(np.full((n + 1, 3), 0.5) if n > 1 else np.full((2, 3, 4, 5), "a"))
        elif what == "eval_str":
            getattr(e, ["pdf", "cdf", "gridded", "mode"][int(r.integers(4))])(["a", "b"])
        elif what == "moment":
            e.moment_partial(1, (2.0, 2.0))
        elif what == "create":
            qp.create(m.gen_class.name, dict(nonsense=3))
        elif what == "make_ancil":
            qp.Ensemble(zoo.gen_func(rep), data=zoo.data(rep, shared, [1, 2]), ancil=dict(z=np.arange(7)))
        elif what == "init_write":
            e.initializeHdf5Write(os.path.join(w.ctx.dir, "nodir2", "x.hdf5"), 5)
        return True

    def run(self, plan, ctx):
        w = World(ctx)
        w.witness = Witness(5)
        nfail = nevents = 0
        for op in plan["ops"]:
            snaps = {s: (sl.ens, compare.snap(sl.ens)) for s, sl in w.slots.items()}
            failed = changed = None
            kind = op[0]
            if kind == "bad":
                _, what, s, seed = op
                if s not in w.slots:
                    ctx.log(*op, "skip")
                    continue
                try:
                    np.random.seed(seed)
                    r = self.bad(w, what, s, seed)
                    done = "accepted" if r else "skip"
                    if r:
                        # what it means then is up to the operation
                        del w.slots[s]
                except Violation:
                    raise
                except Exception as x:  # pylint: disable=broad-except
                    failed = f"{what}: {type(x).__name__}"
                    done = type(x).__name__
                    nfail += 1
                    ctx.fault("invalid " + what)
                    ctx.state(what, w.slots[s].model.gen_class.name, w.slots[s].model.anc is None)
            else:
                inner = op[2] if kind == "oom" else op
                fail = alloc.AllocFail(op[1]) if kind == "oom" else None
                if fail:

                    def call(f, fail=fail):
                        with fail:
                            return f()

                    w.call = call
                models = {s: (sl, sl.model, sl.args, getattr(sl, "origin", None)) for s, sl in w.slots.items()}
                try:
                    done, changed = w.do(inner)
                except Violation:
                    raise
                except Exception as x:  # pylint: disable=broad-except
                    if not (fail and fail.fired):
                        ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
                    failed = f"{inner[0]} out of memory"
                    done = f"{type(x).__name__} at allocation {fail.k}"
                    ctx.fault(f"allocation failure in {inner[0]}")
                    nevents += 1
                    for s, (sl, m, a, o) in models.items():
                        w.slots[s] = sl
                        sl.model, sl.args, sl.origin = m, a, o
                    for s in list(w.slots):
                        if s not in models:
                            del w.slots[s]
                    for s in set(snaps):
                        ctx.state(inner[0], "oom", w.slots[s].model.gen_class.name)
                finally:
                    w.call = lambda f: f()
            ctx.log(*op[:3], done)
            if failed:
                for s, (e, old) in snaps.items():
                    if s in w.slots:
                        ctx.check(compare.diff_snap(old, compare.snap(e)), "failed-operation-changed", f"ensemble {s} by {op} ({failed})")
                        w.check_slot(s, "failed-operation-changed", f"after {op} ({failed})")
                w.check_args()
                if kind == "oom":
                    # the same once more, with memory
                    try:
                        done, changed = w.do(op[2])
                    except Violation:
                        raise
                    except Exception as x:  # pylint: disable=broad-except
                        ctx.fail("retry-raised", f"{op}: {type(x).__name__}: {x}")
                    ctx.log("again", done)
            for s in changed or []:
                w.check_slot(s, "wrong-result", f"after {op}: {done}")
        for s in sorted(w.slots):
            w.check_slot(s, "failed-operation-changed", "at the end")
        w.final_probes()
        w.witness.settle(ctx)
        ctx.nontrivial = nfail >= 2 or nevents >= 1
