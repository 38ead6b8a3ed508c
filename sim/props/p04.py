"""P04: a damaged or failing file is reported, never read as other data."""

import os

import qp

from sim import ffs, fileworld, zoo
from sim.core import Scenario as Base
from sim.props.p02 import gen_ens
from sim.props.p03 import ERR, fault_list
from sim.world import Model, diff_model

DAMAGE = ["truncate", "truncate", "empty", "remove", "remove", "garbage"]
READ_FAULTS = [("read", "EIO", 1), ("read", "EIO", -1), ("read", "short", 1), ("read", "short", 4), ("read", "short", -1), ("read", "EINTR", 1), ("open", "EIO", 1), ("open", "EACCES", 1), ("open", "EMFILE", -1)]


class Scenario(Base):
    pid = "P04"
    level = "exploration"
    runs = {"quick": 350, "thorough": 12000}
    rule = "a run writes an ensemble, then repeatedly damages its file (cut short at a seeded length, emptied, overwritten at its start, a part removed) or lets seeded reads fail, reads it, tests it, restores it and reads it again; non-trivial: some damage or fault took effect"
    state_measure = "distinct (format, kind of damage or fault, query, outcome)"
    real = "qp, tables_io, h5py/HDF5, PyTables, pandas, pyarrow, astropy.io.fits"
    stub = "results of failing system calls, decided by the plan in the LD_PRELOAD seam"
    assumptions = ["bytes inside a file do not change silently (none of the formats has checksums on by default)", "removing the whole ancillary file of a parquet ensemble leaves a complete set without ancillary data, which no reader could tell"]
    lists = ("ops",)

    def gen(self, rng, tier, index):
        ens = gen_ens(rng, tier)
        fmt = rng.choice(fileworld.FORMATS)
        ops = []
        for _ in range(rng.randint(6, 12)):
            q = rng.choice(["read", "read", "read", "is_qp", "meta", "length", "iter", "dict"])
            if rng.random() < 0.55:
                ops.append(["damage", q, rng.choice(DAMAGE), rng.choice([round(rng.random(), 4), 1 - rng.choice([0.001, 0.004, 0.02])]), rng.randrange(3)])
            else:
                kind, how, count = rng.choice(READ_FAULTS if fmt != "h5" or index % 5 == 0 else READ_FAULTS[-3:])
                ops.append(["fault", q, kind, how, count, round(rng.random(), 4)])
        return dict(fmt=fmt, ens=ens, ops=ops)

    def simplify(self, plan):
        n = len(plan["ens"][2])
        for m in (1, n // 2):
            if 0 < m < n:
                yield dict(plan, ens=[plan["ens"][0], plan["ens"][1], plan["ens"][2][:m], plan["ens"][3]])
        if plan["ens"][0] != "norm":
            yield dict(plan, ens=["norm"] + plan["ens"][1:])

    def run(self, plan, ctx):
        root = os.path.join(ctx.dir, "d")
        os.makedirs(root)
        disk = fileworld.Disk(root)
        fname = "t." + plan["fmt"]
        path = disk.path(fname)
        hdf = plan["fmt"] in ("hdf5", "hf5")
        ctx.fs.set_root(root)
        e = zoo.make(*plan["ens"])
        e.write_to(path)
        model = Model.of(e, e)
        intact = ffs.snapshot(root)

        def query(q):
            """-> (outcome, problem or None)"""
            try:
                if q == "is_qp":
                    r = qp.is_qp_file(path)
                    return ("yes" if r else "no"), (None if r in (True, False) else f"is_qp_file gave {r!r}")
                if q == "meta":
                    md = qp.read_metadata(path)
                    return "answer", meta_diff(md, model)
                if q == "length" and hdf:
                    n = qp.data_length(path)
                    return "answer", (None if n == model.npdf else f"data_length gave {n} instead of {model.npdf}")
                if q == "iter" and plan["fmt"] == "hdf5":
                    rows, at = [], 0
                    for s, t, chunk in qp.iterator(path, chunk_size=max(1, model.npdf // 3)):
                        p = diff_model(chunk, model.select(range(s, t)))
                        if p or s != at:
                            return "answer", f"iterator {s}:{t} after {at}: {p}"
                        at = t
                    return "answer", (None if at == model.npdf else f"the iterator ended at {at} of {model.npdf} rows")
                return "answer", diff_model(qp.read(path), model)
            except Exception as x:  # pylint: disable=broad-except
                if q == "is_qp":
                    return "raises", f"is_qp_file raised {type(x).__name__}: {x}"
                return "raises", None

        known = None

        def still_fine(why):
            for q in ("is_qp", "read"):
                out, problem = query(q)
                if out in ("raises", "no") or problem:
                    ctx.fail(known or "left-behind", f"after {why}, with the file intact, {q}: {out} {problem}")

        still_fine("writing")
        for op in plan["ops"]:
            effect = True
            if op[0] == "damage":
                _, q, what, frac, which = op
                parts = fileworld.owned(fname)
                parts = [p for p in parts if p in intact]
                part = parts[which % len(parts)]
                state = dict(intact)
                data = intact[part]
                if what == "truncate":
                    state[part] = data[: min(len(data) - 1, int(frac * len(data)))]
                elif what == "empty":
                    state[part] = b""
                elif what == "remove":
                    if part.startswith("tancil"):
                        effect = False
                    else:
                        state.pop(part)
                elif what == "garbage":
                    state[part] = b"\x89PNG\r\n" + data[6:200]
                ffs.materialise(state, root)
                out, problem = query(q)
                tag = what
                ffs.materialise(intact, root)
            else:
                _, q, kind, how, count, frac = op
                ctx.fs.begin(faults=[dict(kind=kind, nth=10**9, errno=5)])
                query(q)
                ctx.fs.end()
                total = ctx.fs.counts()[kind]
                if not total:
                    ctx.log(*op, "no such operation")
                    continue
                # two libraries below qp do not cope with some failing reads: listed findings
                if plan["fmt"] == "h5" and kind == "read" and how == "EIO":
                    known = "pytables-after-a-failed-read"
                if plan["fmt"] in ("fits", "fit") and how == "short":
                    known = "astropy-short-read"
                ctx.fs.begin(faults=fault_list(kind, how, count, min(total - 1, int(frac * total))))
                out, problem = query(q)
                effect = ctx.fs.end()[0] > 0
                tag = f"{kind} {how}"
            if effect:
                ctx.fault(tag)
            ctx.hit(f"{q} {out}")
            ctx.state(plan["fmt"], tag, q, out)
            ctx.log(*op, out)
            ctx.check(problem, known or "read-as-other" if out != "raises" else "query-raised", f"{plan['fmt']} {op}")
            still_fine(str(op))
            if known == "astropy-short-read":
                known = None


def meta_diff(md, model):
    from sim import compare

    return compare.diff_table(md, model.meta, "metadata")
