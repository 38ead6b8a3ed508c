"""P07: chunked iteration delivers every row exactly once, across all ranks."""

import os

import qp

from sim import mpi, zoo
from sim.core import Scenario as Base
from sim.world import Model, diff_model

ERRNO = dict(EIO=5, EACCES=13, EMFILE=24)


def as_model(tables):
    """The model of a chunk another process has sent"""
    m = Model.__new__(Model)
    m.__dict__.update(tables, gen_class=qp.stats[tables["gen_class"]])
    return m


class Scenario(Base):
    pid = "P07"
    runs = {"quick": 500, "thorough": 40000}
    rule = "a run iterates over one file with a seeded chunk size by up to six ranks, as processes or as iterators in one process, advanced in a seeded order, with failing reads and killed ranks which start over in some runs; non-trivial if there were at least two chunks"
    state_measure = "distinct (representation, number of chunks, number of ranks, rest of the last chunk or not, kind of fault)"
    real = "qp, tables_io, h5py/HDF5; every rank is a process of its own in half of the runs"
    stub = "the job that starts the ranks"
    technique = "seeded interleavings of ranks, with faults injected into their file operations"
    lists = ("faults",)
    assumptions = ["hdf5 files, the only ones the library iterates over"]

    def gen(self, rng, tier, index):
        n = rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 16, 25, 60]) if rng.random() > 0.04 else rng.choice([300, 1100])
        size = rng.choice([1, 1, 2, 2, 3, 4, 6])
        chunk = rng.choice([1, 2, 3, 4, 5, 7, n, n + 1, max(1, n - 1), max(1, n // 2), 1000] if n < 100 else [64, 100, 256, 1000, n - 1, n // 2])
        faults = []
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(["read", "read", "open"])
                f = dict(kind=kind, nth=int(10 ** rng.uniform(0, 2.2)) - 1, count=rng.choice([1, 1, 3]))
                if kind == "read" and rng.random() < 0.4:
                    f["short"] = rng.choice([0, 1, 100])
                else:
                    f["errno"] = ERRNO["EIO"] if kind == "read" else rng.choice([ERRNO["EACCES"], ERRNO["EMFILE"]])
                faults.append(f)
        return dict(
            ens=[rng.choice(zoo.ALL), zoo.gen_shared(rng, 4), [rng.randrange(500) for _ in range(n)], rng.choice(zoo.ANC_ALL)], size=size, chunk=chunk, processes=rng.random() < 0.45,
            choices=[rng.randrange(60) for _ in range(61)], written=rng.choice(["once", "once", "chunks", "over"]), faults=faults, restart=rng.random() < 0.2, default=rng.random() < 0.05,
        )

    def simplify(self, plan):
        e = plan["ens"]
        n = len(e[2])
        for k in (n // 2, n - 1):
            if 0 < k < n:
                yield dict(plan, ens=[e[0], e[1], e[2][:k], e[3]])
        if plan["size"] > 1:
            yield dict(plan, size=plan["size"] - 1)
        if e[0] != "norm":
            yield dict(plan, ens=["norm", *e[1:]])
        for k, v in (("processes", False), ("restart", False), ("written", "once")):
            if plan[k] != v:
                yield dict(plan, **{k: v})

    def run(self, plan, ctx):
        e = zoo.make(*plan["ens"])
        m = Model.of(e, zoo.make(*plan["ens"]))
        n, size, chunk = m.npdf, plan["size"], plan["chunk"]
        path = os.path.join(ctx.dir, "f.hdf5")
        if plan["written"] == "over":
            zoo.make("hist", 0, list(range(33)), "wide").write_to(path)
        if plan["written"] == "chunks":
            g, f = e.initializeHdf5Write(path, n)
            for a in range(0, n, 3):
                e[a : a + 3].writeHdf5Chunk(g, a, min(n, a + 3))
            e.finalizeHdf5Write(f)
        else:
            e.write_to(path)
        kw = {} if plan["default"] else dict(chunk_size=chunk)
        if plan["default"]:
            chunk = 10**9
        with open(path, "rb") as f:
            stored = f.read()
        got = {r: [] for r in range(size)}
        failed = set()

        def iterate(r):
            return qp.iterator(path, rank=r, parallel_size=size, **kw) if size > 1 or r else qp.iterator(path, **kw)

        if plan["processes"]:

            def program(r):
                def run(comm):
                    out, bad = [], None
                    ctx.fs.set_root(ctx.dir)
                    ctx.fs.begin(faults=plan["faults"] if r == 0 else [])
                    try:
                        for a, b, c in iterate(r):
                            out.append((a, b, c))
                            comm.point()
                    except Exception as x:  # pylint: disable=broad-except
                        bad = f"{type(x).__name__}: {x}"
                    fired = ctx.fs.end()
                    return [(a, b, dict(Model.of(c).__dict__, gen_class=c.gen_class.name), diff_model(c, m.select(range(a, min(b, n))))) for a, b, c in out], bad, sum(fired)

                return run

            job = mpi.Job([program(r) for r in range(size)], plan["choices"], ctx)
            end = job.run()
            ctx.check(end, "rank-failed")
            for r, (out, bad, fired) in enumerate(job.results):
                ctx.fault("failing operations", fired)
                if bad is not None:
                    ctx.check(None if fired else bad, "raised", f"rank {r}")
                    failed.add(r)
                for a, b, t, d in out:
                    ctx.check(d, "rows-differ", f"rank {r}, rows {a}:{b} of {n}")
                    got[r].append((a, b, as_model(t)))
        else:
            its = {r: iterate(r) for r in range(size)}
            kept, k = [], 0
            ctx.fs.set_root(ctx.dir)
            ctx.fs.begin(faults=plan["faults"])
            before = 0
            while its:
                r = sorted(its)[plan["choices"][k % len(plan["choices"])] % len(its)]
                k += 1
                try:
                    a, b, c = next(its[r])
                except StopIteration:
                    del its[r]
                    continue
                except Exception as x:  # pylint: disable=broad-except
                    fired = sum(ctx.fs.lib.ffs_fired(i) for i in range(len(plan["faults"])))
                    ctx.check(None if fired > before else f"{type(x).__name__}: {x}", "raised", f"iterator {r}")
                    before = fired
                    failed.add(r)
                    del its[r]
                    continue
                kept.append((r, a, b, c))
                ctx.log(r, a, b)
            fired = ctx.fs.end()
            ctx.fault("failing operations", sum(fired))
            for r, a, b, c in kept:
                ctx.check(diff_model(c, m.select(range(a, min(b, n)))), "rows-differ", f"iterator {r}, rows {a}:{b} of {n}")
                got[r].append((a, b, Model.of(c)))
        # ranks that failed, or are made to start over, run alone again; what they delivered before has to be the beginning
        again = set(failed)
        if plan["restart"]:
            again.add(plan["choices"][0] % size)
            ctx.fault("rank started over")
        for r in sorted(again):
            first, got[r] = got[r], []
            for a, b, c in iterate(r):
                ctx.check(diff_model(c, m.select(range(a, min(b, n)))), "rows-differ", f"rank {r} started over, rows {a}:{b} of {n}")
                got[r].append((a, b, Model.of(c)))
            ctx.check(None if [x[:2] for x in first] == [x[:2] for x in got[r]][: len(first)] else f"{[x[:2] for x in first]} at first, {[x[:2] for x in got[r]]} then", "chunks-differ", f"rank {r} started over")
            ctx.log("again", r, len(first), len(got[r]))
        rows = []
        for r in range(size):
            ranges = [x[:2] for x in got[r]]
            ctx.check(None if ranges == sorted(ranges) else f"{ranges}", "order", f"rank {r}")
            for a, b, c in got[r]:
                ctx.check(None if 0 <= a < b <= n and c.npdf == b - a else f"{a}:{b} of {n}, with {c.npdf} rows", "range", f"rank {r}")
                ctx.check(None if b - a == chunk or b == n and b - a < chunk else f"{a}:{b} of {n}, asked for {chunk}", "size", f"rank {r}")
                ctx.check(None if (c.anc is None) == (m.anc is None) else "ancil", "rows-differ", f"rank {r}")
                rows += list(range(a, b))
        ctx.check(None if sorted(rows) == list(range(n)) else f"rows {sorted(rows)} of {n}", "rows-lost-or-repeated", f"{size} ranks, chunk size {chunk}")
        with open(path, "rb") as f:
            ctx.check(None if f.read() == stored else "other bytes", "file-changed")
        count = -(-n // chunk)
        ctx.nontrivial = count > 1
        ctx.hit("chunks", count)
        ctx.hit("jobs of processes" if plan["processes"] else "iterators in one process")
        ctx.state(plan["ens"][0], min(count, 8), size, bool(n % chunk), sorted({f["kind"] + str("errno" in f) for f in plan["faults"]}))
