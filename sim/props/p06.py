"""P06: an unfinished chunked file never passes for a complete ensemble."""

import os

import qp

from sim import ffs, mpi, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.props.p05 import gen_chunks, gen_rows
from sim.world import Model, diff_model


class Scenario(Base):
    pid = "P06"
    runs = {"quick": 350, "thorough": 15000}
    rule = "a run writes an ensemble in chunks, by one process or a job of several ranks, with every mutation of the disk journalled and flushes in between, and kills the writer at seeded points before, in and after finalisation, or lets it end without finalising; non-trivial: at least one crash after the first chunk and before finalisation"
    state_measure = "distinct (representation, kind of disk operation cut at, phase, whether the damaged file can be opened as hdf5, verdict of the library)"
    real = "qp, tables_io, h5py/HDF5 (serial)"
    stub = "the disk after the crash is rebuilt from the journal of system calls; in jobs also MPI and the mpio driver (as in P05)"
    technique = "seeded crash points over a journal of disk operations, and seeded kills of ranks"
    lists = ("ops", "cuts")
    assumptions = ["the process dies, the operating system does not: completed system calls are on disk in order"]

    def gen(self, rng, tier, index):
        ens = [rng.choice(zoo.ALL), rng.randrange(3), gen_rows(rng), rng.choice(zoo.ANC_ALL)]
        n = len(ens[2])
        ops = []
        for a, b in gen_chunks(rng, n):
            ops.append(["chunk", a, b])
            if rng.random() < 0.4:
                ops.append([rng.choice(["flush", "flush", "look"])])
        old = None
        if rng.random() < 0.6:
            old = ens[:] if rng.random() < 0.4 else [rng.choice(zoo.ALL), 1, gen_rows(rng), rng.choice(zoo.ANC_ALL)]
        plan = dict(ens=ens, old=old, again=rng.random() < 0.4)
        if rng.random() < 0.3:
            size = rng.choice([1, 2, 3, 4])
            return dict(
                plan, mode="mpi", size=size, ops=[[rng.randrange(size), *o[1:]] for o in ops if o[0] == "chunk"], choices=[rng.randrange(60) for _ in range(61)],
                kill=rng.randrange(1, 120), flush=[rng.randrange(60) for _ in range(rng.choice([0, 2, 6]))], left=rng.choice(["closed", "flushed", "as it is"]), cuts=[],
            )
        cuts = [[round(rng.random(), 4), rng.choice([None, None, 0.5, 0.1])] for _ in range(12)]
        return dict(plan, mode="serial", ops=ops, end=rng.choice(["finalise", "finalise", "close", "drop", "error"]), cuts=cuts)

    def simplify(self, plan):
        if plan["old"]:
            yield dict(plan, old=None)
        if plan["ens"][0] != "norm":
            yield dict(plan, ens=["norm", *plan["ens"][1:]])

    def probe(self, ctx, path, m, finalising, why, key=()):
        """What the library says of an unfinished file"""
        try:
            rec = qp.is_qp_file(path)
        except Exception as x:  # pylint: disable=broad-except
            ctx.fail("is_qp_file-raised", f"{why}: {type(x).__name__}: {x}")
        read = chunks = None
        try:
            read = qp.read(path)
        except Exception:  # pylint: disable=broad-except
            pass
        try:
            chunks = list(qp.iterator(path, chunk_size=2))
        except Exception:  # pylint: disable=broad-except
            pass
        if finalising:
            if read is not None:
                ctx.check(diff_model(read, m), "incomplete-passes", f"{why}: read")
            if chunks is not None:
                ctx.check(diff_model(qp.concatenate([c for _, _, c in chunks]), m, probe=False), "incomplete-passes", f"{why}: iterated")
        else:
            ctx.check(None if rec is False else f"is_qp_file says {rec}", "recognised", why)
            ctx.check(None if read is None else "it can be read", "read", why)
            ctx.check(None if chunks is None else f"iterated over in {len(chunks)} chunks", "iterated", why)
        valid = False
        try:
            import h5py

            with h5py.File(path, "r") as f:
                valid = sorted(f)
        except Exception:  # pylint: disable=broad-except
            pass
        ctx.state(*key, finalising, valid, rec, read is None, chunks is None)
        ctx.hit("crashed files that are valid hdf5" if valid else "crashed files that are not")
        ctx.log(why, rec, read is None, chunks is None)

    def run(self, plan, ctx):
        root = os.path.join(ctx.dir, "d")
        os.makedirs(root)
        path = os.path.join(root, "f.hdf5")
        e = zoo.make(*plan["ens"])
        m = Model.of(e, zoo.make(*plan["ens"]))
        if plan["old"]:
            zoo.make(*plan["old"]).write_to(path)
        init = ffs.snapshot(root)
        ctx.fs.set_root(root)
        {"mpi": self.run_mpi, "serial": self.run_serial}[plan["mode"]](plan, ctx, e, m, path, root, init)
        if plan["again"]:
            # the job is started again, and this time it comes to its end
            try:
                groups, fout = e.initializeHdf5Write(path, m.npdf)
                for a in range(0, m.npdf, 4):
                    e[a : a + 4].writeHdf5Chunk(groups, a, min(m.npdf, a + 4))
                e.finalizeHdf5Write(fout)
                got = qp.read(path)
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("stuck", f"{type(x).__name__}: {x}")
            ctx.check(diff_model(got, m), "rewrite-differs")
            ctx.hit("written again after the crash")

    def run_serial(self, plan, ctx, e, m, path, root, init):
        ctx.fs.begin(journal=True)
        groups, fout = e[0].initializeHdf5Write(path, m.npdf)
        marks = dict(init=ctx.fs.lib.ffs_jlen(), first=None)
        written = [False] * m.npdf
        for op in plan["ops"]:
            if op[0] == "chunk":
                e[op[1] : op[2]].writeHdf5Chunk(groups, op[1], op[2])
                written[op[1] : op[2]] = [True] * (op[2] - op[1])
            elif op[0] == "flush":
                fout.flush()
                ctx.hit("flush")
            else:
                self.probe(ctx, path, m, False, "while it is written", ("live",))
            if marks["first"] is None:
                marks["first"] = ctx.fs.lib.ffs_jlen()
            ctx.log(*op)
        end = plan["end"]
        complete = end == "finalise" and all(written)
        before_end = ctx.fs.lib.ffs_jlen()
        groups.clear()
        if end == "finalise":
            e[0].finalizeHdf5Write(fout)
        elif end == "close":
            fout.close()
        elif end == "error":
            # the job fails with an exception, on its way out the file is closed
            try:
                with fout:
                    raise KeyboardInterrupt
            except KeyboardInterrupt:
                pass
        fout = None
        ctx.fs.end()
        journal = ctx.fs.journal()
        final = ffs.snapshot(root)
        if {k: bytes(v) for k, v in ffs.replay(init, journal, root, len(journal)).items()} != final:
            raise RuntimeError("the journal does not explain the disk")
        if complete:
            ctx.check(diff_model(qp.read(path), m), "read-differs", "when it is finished")
            ctx.check(None if qp.is_qp_file(path) else "not recognised", "not-recognised", "when it is finished")
        elif end != "finalise":
            ctx.fault("job ended without finalising")
            self.probe(ctx, path, m, False, f"never finalised ({end})", (plan["ens"][0], end))
        points = {before_end: None, marks["init"]: None}
        for frac, torn in plan["cuts"]:
            points.setdefault(min(len(journal), int(frac * (len(journal) + 1))), torn)
        for at in sorted(points):
            torn = points[at]
            kind = journal[at][0] if at < len(journal) else "end"
            landed = None
            if torn is not None and kind == "write" and len(journal[at][4]) > 1:
                landed = max(1, int(torn * len(journal[at][4])))
            state = {k: bytes(v) for k, v in ffs.replay(init, journal, root, at, landed).items()}
            if state == init:
                continue
            phase = "finalise" if at >= before_end and end == "finalise" else "before"
            if phase == "finalise" and (at > before_end or landed) and not all(written):
                continue
            if phase == "finalise" and at == len(journal):
                continue
            ffs.materialise(state, root)
            ctx.fault("crash inside a disk write" if landed else "crash between disk operations")
            ctx.nontrivial |= phase == "before" and marks["first"] is not None and at > marks["first"]
            self.probe(ctx, path, m, phase == "finalise" and (at > before_end or bool(landed)), f"killed at {at} of {len(journal)} ({kind}, {landed}), {phase}", (plan["ens"][0], kind, bool(landed)))

    def run_mpi(self, plan, ctx, e, m, path, root, init):
        size = plan["size"]

        def program(r):
            def run(comm):
                groups, fout = e[0].initializeHdf5Write(path, m.npdf, comm)
                for q, a, b in plan["ops"]:
                    if q % size == r:
                        e[a:b].writeHdf5Chunk(groups, a, b)
                comm.ask("collective", "barrier", None, ("written",))
                e[0].finalizeHdf5Write(fout)

            return run

        finalising = []

        class Job(mpi.Job):
            def _collective(self, msgs):
                if msgs[0][1] == "barrier":
                    finalising.append(True)
                return super()._collective(msgs)

        job = Job([program(r) for r in range(size)], plan["choices"], ctx, kill_at=plan["kill"], flush_at=plan["flush"])
        end = job.run()
        covered = set()
        for _, a, b in plan["ops"]:
            covered |= set(range(a, b))
        if end is None:
            if len(covered) == m.npdf:
                ctx.check(diff_model(qp.read(path), m), "read-differs", "the job came to its end")
            return
        ctx.check(None if end.endswith(f"step {job.steps}") else end, "job-failed")
        ctx.nontrivial = True
        if plan["left"] == "flushed":
            for f in job.files.values():
                f.flush()
        state = ffs.snapshot(root)
        for f in job.files.values():
            f.close()
        job.files.clear()
        if plan["left"] != "closed":
            ffs.materialise(state, root)
        if {k: bytes(v) for k, v in ffs.snapshot(root).items()} != init:
            if not finalising:
                self.probe(ctx, path, m, False, end, (plan["ens"][0], "job", size))
            elif len(covered) == m.npdf:
                self.probe(ctx, path, m, True, end, (plan["ens"][0], "job", size))
