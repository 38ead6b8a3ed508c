"""P10: looking into a file agrees with reading it and changes nothing."""

import os

import numpy as np

import qp

from sim import compare, fileworld, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.props.p01 import gen_make
from sim.world import Model, diff_model

FOREIGN = ["missing", "empty", "text", "bytes", "table", "no_pdf_name", "empty_pdf_name", "dictionary", "unfinished", "no_meta", "directory"]


def foreign(kind, path, fs_dir):
    """Put something which is no ensemble at path; False if this kind does not go with the format"""
    import h5py

    ext = path.rsplit(".", 1)[1]
    e = zoo.make("norm", 0, [1, 2, 3], "basic")
    if kind == "missing":
        return True
    if kind in ("empty", "text", "bytes"):
        if ext == "pq":
            path = fileworld.owned(path)[0]
        with open(path, "wb") as f:
            f.write(dict(empty=b"", text=b"meta pdf_name norm\n" * 20, bytes=bytes(np.random.default_rng(3).integers(0, 256, 2000, dtype=np.uint8)))[kind])
        return True
    if kind == "directory":
        os.mkdir(path)
        return True
    if kind == "no_meta" and ext == "pq":
        e.write_to(path)
        os.unlink(fileworld.owned(path)[0])
        return True
    if kind == "table" and ext == "fits":
        from astropy.table import Table

        Table(dict(x=[1, 2, 3])).write(path)
        return True
    if ext not in ("hdf5",):
        return False
    if kind == "dictionary":
        qp.write_dict(path, dict(a=e, b=e[:1]))
    elif kind == "unfinished":
        groups, f = e.initializeHdf5Write(path, 3)
        e.writeHdf5Chunk(groups, 0, 3)
        f.close()
    else:
        if kind != "table":
            e.write_to(path)
        with h5py.File(path, "a") as f:
            if kind == "table":
                f["data/x"] = np.arange(4.0)
                f["meta/author"] = np.array([b"me"])
            elif kind == "no_pdf_name":
                del f["meta/pdf_name"]
            elif kind == "empty_pdf_name":
                del f["meta/pdf_name"]
                f["meta/pdf_name"] = np.array([], dtype="S4")
            else:
                del f["meta"]
    return True


class Scenario(Base):
    pid = "P10"
    runs = {"quick": 450, "thorough": 40000}
    rule = "a run is a seeded history of writing, rewriting and removing files in six formats, files of others that hold no ensemble among them, and of looking at their metadata, their length and whether they hold an ensemble, in any order, also in the middle of iterations; non-trivial if a file was rewritten after it had been looked into"
    state_measure = "distinct (format, query, what the file holds, operation before)"
    real = "qp, tables_io, h5py/HDF5, PyTables, pandas, pyarrow, astropy.io.fits and the file system"
    stub = "none"
    technique = "seeded histories of several clients over a simulated disk"
    assumptions = ["the number of rows can be asked of hdf5 files; for other formats the query may raise"]

    def gen(self, rng, tier, index):
        ops = [gen_make(rng, s) for s in range(3)]
        files = [f"{n}.{rng.choice(fileworld.FORMATS + ['hdf5'] * 3)}" for n in ["a", "a.b", "sub/c"][: rng.randint(2, 3)]]
        for _ in range(rng.randint(8, 20)):
            k = rng.choices(["write", "look", "rm", "foreign", "make", "iterlook", "chunks"], [22, 46, 5, 8, 6, 4, 5])[0]
            f = rng.choice(files)
            if k == "write":
                ops.append([k, rng.randrange(3), f])
            elif k == "look":
                ops.append([k, f, [rng.choice(["meta", "len", "is", "read"]) for _ in range(rng.randint(1, 5))], rng.random() < 0.5])
            elif k == "foreign":
                ops.append([k, f, rng.choice(FOREIGN)])
            elif k == "make":
                ops.append(gen_make(rng, rng.randrange(3)))
            elif k == "chunks":
                ops.append([k, rng.randrange(3), f])
            else:
                ops.append([k, f])
        return dict(ops=ops)

    def run(self, plan, ctx):
        root = os.path.join(ctx.dir, "d")
        os.makedirs(root)
        disk, slots = fileworld.Disk(root), {}
        aliens, looked, last = {}, set(), {}

        def clear(f):
            if os.path.isdir(disk.path(f)):
                os.rmdir(disk.path(f))
            disk.remove(f)
            aliens.pop(f, None)

        def look(f, queries, hold):
            m = disk.content.get(f)
            if m is None and f not in aliens:
                aliens[f] = "missing"
            before = disk.digest()
            results, p, ext = [], disk.path(f), f.rsplit(".", 1)[1]
            for q in queries:
                why = f"{q} of {f} ({aliens.get(f, 'an ensemble')}) in {queries}"
                try:
                    if q == "is":
                        r = qp.is_qp_file(p)
                        ctx.check(None if r is (m is not None) else f"{r}", "recognition", why)
                    elif q == "meta":
                        r = None
                        try:
                            r = qp.read_metadata(p)
                        except Exception as x:  # pylint: disable=broad-except
                            if m is not None:
                                raise x
                        if m is not None:
                            ctx.check(compare.diff_table(r, m.meta, "metadata"), "metadata-differs", why)
                    elif q == "len":
                        r = None
                        try:
                            r = qp.data_length(p)
                        except Exception as x:  # pylint: disable=broad-except
                            if m is not None and ext == "hdf5":
                                raise x
                        if m is not None and r is not None:
                            ctx.check(None if int(r) == m.npdf else f"{r} instead of {m.npdf}", "length-differs", why)
                    else:
                        r = None
                        try:
                            r = qp.read(p)
                        except Exception as x:  # pylint: disable=broad-except
                            if m is not None:
                                raise x
                        if m is not None:
                            ctx.check(diff_model(r, m), "read-differs", why)
                        else:
                            ctx.check(None if r is None else "an ensemble", "foreign-read", why)
                except Violation:
                    raise
                except Exception as x:  # pylint: disable=broad-except
                    ctx.fail("query-raised", f"{why}: {type(x).__name__}: {x}")
                if hold:
                    results.append(r)
                ctx.state(ext, q, aliens.get(f) or m.gen_class.name, last.get(f))
                last[f] = q
            ctx.check(disk.changed(before, disk.digest()), "query-changes-files", f"{queries} of {f}")
            looked.add(f)
            return results

        kept = []
        for op in plan["ops"]:
            k, done = op[0], "skip"
            try:
                if k == "make":
                    slots[op[1]] = zoo.make(*op[2:])
                    done = op[2]
                elif k in ("write", "chunks") and op[1] in slots:
                    e, f = slots[op[1]], op[2]
                    ext = f.rsplit(".", 1)[1]
                    if k == "chunks" and ext != "hdf5":
                        continue
                    if aliens.get(f) or ext in fileworld.NO_OVERWRITE:
                        clear(f)
                    elif f in looked and f in disk.content:
                        ctx.nontrivial = True
                        ctx.hit("rewritten after a look")
                    if k == "write":
                        e.write_to(disk.path(f))
                    else:
                        groups, fout = e.initializeHdf5Write(disk.path(f), int(e.npdf))
                        e.writeHdf5Chunk(groups, 0, int(e.npdf))
                        e.finalizeHdf5Write(fout)
                    aliens.pop(f, None)
                    disk.content[f] = Model.of(e, e)
                    last[f] = "written"
                    done = "written"
                elif k == "rm":
                    clear(op[1])
                    done = "removed"
                elif k == "foreign":
                    clear(op[1])
                    disk.path(op[1])
                    if foreign(op[2], disk.path(op[1]), root):
                        aliens[op[1]] = op[2]
                        done = op[2]
                        ctx.hit(f"foreign {op[2]}")
                elif k == "look":
                    kept = look(op[1], op[2], op[3])
                    done = "looked"
                elif k == "iterlook" and op[1] in disk.content and op[1].endswith(".hdf5"):
                    m = disk.content[op[1]]
                    parts = []
                    for a, b, c in qp.iterator(disk.path(op[1]), chunk_size=2):
                        look(op[1], ["is", "len", "meta"], False)
                        parts.append(c)
                    ctx.check(diff_model(qp.concatenate(parts), m, probe=False), "iteration-differs", op[1])
                    done = f"{len(parts)} chunks"
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
            ctx.log(*op[:2], done)
        del kept
        for f in sorted(set(disk.content) | set(aliens)):
            look(f, ["is", "meta", "len", "read"], False)
