"""P11: data of an older version is converted, once, however it is read."""

import os

import numpy as np
from tables_io import io
from tables_io.types import NUMPY_DICT

import qp

from sim import compare, fileworld, versions, zoo
from sim.core import Scenario as Base
from sim.core import Violation

FORMATS = ["hdf5", "hdf5", "hdf5", "pq", "fits", "hf5"]


# ---- what nodes do; `kept` is what a node has in memory


def write(kept, path, family, version, e):
    versions.make(family, version, e).write_to(path)


def write_chunks(kept, path, family, version, e, cuts):
    ens = versions.make(family, version, e)
    out, f = ens.initializeHdf5Write(path, ens.npdf)
    base, shared, ids, anc = e
    for a, b in cuts:
        versions.make(family, version, [base, shared, ids[a:b], anc]).writeHdf5Chunk(out, a, b)
    ens.finalizeHdf5Write(f)


def read(kept, path):
    return versions.told(qp.read(path))


def iterate(kept, path, chunk, size):
    out = []
    for rank in range(size):
        out += [(a, b, versions.told(c)) for a, b, c in qp.iterator(path, chunk_size=chunk, rank=rank, parallel_size=size)]
    return sorted(out, key=lambda x: x[0])


def begin(kept, key, path, chunk):
    kept[key] = qp.iterator(path, chunk_size=chunk)


def step(kept, key):
    if key not in kept:
        return None
    try:
        a, b, c = next(kept[key])
    except StopIteration:
        del kept[key]
        return None
    return a, b, versions.told(c)


def load(kept, path):
    kept["tables", path] = io.read(path, NUMPY_DICT)


def from_loaded(kept, path):
    if ("tables", path) not in kept:
        load(kept, path)
    return versions.told(qp.from_tables(kept["tables", path]))


def pack(kept, path, items):
    qp.write_dict(path, {k: versions.make(family, version, e) for k, family, version, e in items})


def unpack(kept, path):
    return {k: versions.told(v) for k, v in qp.read_dict(path).items()}


def send(kept, family, version, e):
    return versions.make(family, version, e).build_tables()


def receive(kept, tables):
    return versions.told(qp.from_tables(tables))


def migrate(kept, src, dst, chunk):
    if chunk is None:
        qp.read(src).write_to(dst)
        return
    out = None
    for a, b, c in qp.iterator(src, chunk_size=chunk):
        if out is None:
            out = c.initializeHdf5Write(dst, qp.data_length(src))
        c.writeHdf5Chunk(out[0], a, b)
    c.finalizeHdf5Write(out[1])


def describe(kept, path):
    meta = qp.read_metadata(path)
    name = np.asarray(meta["pdf_name"]).ravel()[0]
    return name.decode() if isinstance(name, bytes) else str(name), int(np.asarray(meta["pdf_version"]).ravel()[0]), bool(qp.is_qp_file(path))


class File:
    def __init__(self, path, family, version, e):
        self.path, self.family, self.version, self.e = path, family, version, e


def expected(family, e, version):
    """What a node with release `version` is to have, or None if it may fail"""
    base, shared, ids, anc = e
    if version == versions.FAMILIES[family][2]:
        ens = zoo.make(base, shared, ids, anc)
        out = versions.told(ens)
    else:
        meta, table = versions.encode(family, version, versions.current_data(e))
        out = dict(npdf=len(ids), data=table, anc=zoo.ancil(anc, ids), meta={k: np.expand_dims(v, 0) for k, v in meta.items()})
    out.update(name=family, version=version)
    out["meta"] = dict(out["meta"], pdf_name=np.array([family.encode()]), pdf_version=np.array([version]))
    return out


def differs(got, want, rows=None):
    for k in ("name", "version", "npdf"):
        w = len(rows) if k == "npdf" and rows is not None else want[k]
        if got[k] != w:
            return f"{k} {got[k]} != {w}"
    d = compare.diff_table(got["meta"], want["meta"], "metadata")
    if d:
        return d
    cut = (lambda v: v) if rows is None else (lambda v: np.asarray(v)[rows])
    d = compare.diff_table(got["data"], {k: cut(v) for k, v in want["data"].items()}, "data")
    if d:
        return d
    if (got["anc"] is None) != (want["anc"] is None):
        return "ancil missing or unexpected"
    if got["anc"] is not None:
        d = compare.diff_table(got["anc"], {k: cut(v) for k, v in want["anc"].items()}, "ancil", exact=True)
        if d:
            return d
    for k in ("pdf", "cdf"):
        if k in want and not np.allclose(got[k], cut(want[k]), rtol=1e-8, atol=1e-10):
            return f"{k} differs"
    return None


class Scenario(Base):
    pid = "P11"
    runs = {"quick": 500, "thorough": 40000}
    rule = "a run is a deployment of two to four nodes which are upgraded one after the other, crash, are interrupted and exchange files and tables written under different versions of up to four representations made by users; non-trivial if something of an older version was read under a newer one"
    state_measure = "distinct (representation, version of the data, version of the node, way it was read, format, whether anything was cut short before)"
    real = "qp, tables_io, the file libraries; every node is a process of its own"
    stub = "the user's representations: their older releases only hold arrays; their readers are those of this check"
    technique = "seeded deployments of nodes with different versions, with crashes, restarts under other versions, and interrupted operations"
    lists = ("ops",)
    assumptions = ["a release has a reader for each version before it, or a default one", "nothing is promised to a node older than what it reads, except that the file stays as it was"]

    def gen(self, rng, tier, index):
        style = rng.choice(["byversion", "byversion", "inplace", "default"])
        families = ["simhist", "siminterp", "simmix"] if style == "default" else list(versions.FAMILIES)
        families = sorted(rng.sample(families, rng.choice([1, 2, 2, 3])))
        old = {f: [0] if style == "default" else list(versions.FAMILIES[f][1]) for f in families}
        now = {f: versions.FAMILIES[f][2] for f in families}

        def release(new):
            return {f: now[f] if rng.random() < new else rng.choice(old[f]) for f in families}

        size = rng.choice([2, 2, 3, 4])
        nodes = [release(0.15 if i == 0 else 0.5) for i in range(size - 1)] + [dict(now)]
        ens = []
        for _ in range(rng.choice([2, 3])):
            f = rng.choice(families)
            ens.append([f, [versions.FAMILIES[f][0], rng.randrange(4), fileworld.gen_ids(rng, top=90), rng.choice(zoo.ANC)]])
        ops = []
        n = lambda: rng.randrange(size)
        for _ in range(rng.randint(2, 4)):
            ops.append(["write", n(), rng.randrange(len(ens)), rng.choice(FORMATS), rng.choice([None, None, 1, 2, 3])])
        for _ in range(rng.randint(6, 16)):
            r = rng.random()
            f = rng.randrange(9)
            cut = [rng.choice([rng.randrange(12), rng.randrange(60), rng.randrange(300)]), rng.choice(["interrupt", "memory", "timeout"])] if rng.random() < 0.2 else None
            if r < 0.1:
                ops.append(["write", n(), rng.randrange(len(ens)), rng.choice(FORMATS), rng.choice([None, None, 1, 2, 3])])
            elif r < 0.22:
                ops.append(["restart", n(), release(0.8) if rng.random() < 0.5 else dict(now), rng.random() < 0.5])
            elif r < 0.4:
                ops.append(["read", n(), f, cut])
            elif r < 0.6:
                ops.append(["iter", n(), f, rng.choice([1, 2, 3, 5, 100]), rng.choice([1, 1, 1, 2, 3]), cut])
            elif r < 0.66:
                ops.append(["begin", n(), f, rng.randrange(2), rng.choice([1, 1, 2, 3])])
                ops.append(["step", 0, None])
            elif r < 0.76:
                ops.append(["step", rng.randrange(4), cut])
            elif r < 0.82:
                ops.append(["tables", n(), f, cut])
            elif r < 0.88:
                ops.append(["dict", n(), n(), [rng.randrange(len(ens)) for _ in range(rng.choice([1, 2, 3]))]])
            elif r < 0.93:
                ops.append(["send", n(), n(), rng.randrange(len(ens))])
            elif r < 0.97:
                ops.append(["migrate", n(), f, rng.choice([None, 1, 2, 3]), rng.choice(FORMATS)])
            else:
                ops.append(["describe", n(), f])
        return dict(style=style, nodes=nodes, ens=ens, ops=ops)

    def simplify(self, plan):
        for i, (f, e) in enumerate(plan["ens"]):
            if e[3] != "none":
                yield dict(plan, ens=plan["ens"][:i] + [[f, [*e[:3], "none"]]] + plan["ens"][i + 1 :])
            if len(e[2]) > 2:
                yield dict(plan, ens=plan["ens"][:i] + [[f, [e[0], e[1], e[2][:2], e[3]]]] + plan["ens"][i + 1 :])
        if plan["style"] != "byversion":
            yield dict(plan, style="byversion")

    def run(self, plan, ctx):
        style = plan["style"]
        self.cut_before = False
        nodes = [versions.Node(r, style) for r in plan["nodes"]]
        try:
            self.work(plan, ctx, nodes)
        finally:
            for x in nodes:
                x.stop(kill=True)

    def work(self, plan, ctx, nodes):
        files, going = [], {}

        def judge(op, n, got, family, version, e, how, fmt, rows=None):
            have = nodes[n].releases[family]
            kind, val, calls = got
            ctx.hit(f"{how} {kind}")
            if version > have or version < have < versions.FAMILIES[family][2]:
                return
            ctx.state(family, version, have, how, fmt, self.cut_before)
            if version < have:
                ctx.nontrivial = True
                ctx.hit("older data read")
            if kind == "raises":
                ctx.fail("raised", f"{op}: {val} ({family} {version} by {have})")
            want = expected(family, e, have)
            d = differs(val, want, rows)
            ctx.check(d, "converted-wrong" if version < have else "read-differs", f"{op} ({family} version {version} read by version {have})")

        def cut_first(op, n, cut, f, *args):
            """The operation, cut short at some line, which is then done again"""
            if cut is not None:
                kind, where, _ = nodes[n].call(f, *args, cut=cut)
                if kind == "cut":
                    ctx.fault(cut[1])
                    ctx.log("cut", where)
                    self.cut_before = True

        def whole(op, n, got, fl, how):
            fmt = os.path.splitext(fl.path)[1]
            if got[0] == "ok" and isinstance(got[1], list):
                at = 0
                for a, b, t in got[1]:
                    ctx.check(None if a == at else f"rows {at}:{a} missing", "rows-missing", str(op))
                    at = b
                    judge(op, n, ("ok", t, got[2]), fl.family, fl.version, fl.e, how, fmt, rows=np.arange(a, b))
                ctx.check(None if at == len(fl.e[2]) else f"{at} rows of {len(fl.e[2])}", "rows-missing", str(op))
            else:
                judge(op, n, got, fl.family, fl.version, fl.e, how, fmt)

        for op in plan["ops"]:
            k, n = op[0], op[1] % len(nodes)
            node = nodes[n]
            if k == "write":
                family, e = plan["ens"][op[2] % len(plan["ens"])]
                version = node.releases[family]
                path = os.path.join(ctx.dir, f"f{len(files)}.{op[3]}")
                if op[3] == "hdf5" and op[4]:
                    m = len(e[2])
                    cuts = [[a, min(a + op[4], m)] for a in range(0, m, op[4])]
                    got = node.call(write_chunks, path, family, version, e, cuts)
                else:
                    got = node.call(write, path, family, version, e)
                if got[0] != "ok":
                    ctx.fail("raised", f"{op}: {got[1]}")
                files.append(File(path, family, version, e))
            elif k == "restart":
                node.stop(kill=op[3])
                if op[3]:
                    ctx.fault("crash")
                nodes[n] = versions.Node({f: op[2].get(f, v) for f, v in node.releases.items()}, plan["style"])
                ctx.fault("restart")
                for key in [x for x in going if x[0] == n]:
                    del going[key]
            elif k in ("read", "iter", "tables", "describe", "begin", "migrate"):
                if not files:
                    continue
                fl = files[op[2] % len(files)]
                ext = os.path.splitext(fl.path)[1]
                with open(fl.path if ext != ".pq" else fl.path.replace(".pq", "data.pq"), "rb") as f:
                    before = f.read()
                if k == "read":
                    cut_first(op, n, op[3], read, fl.path)
                    whole(op, n, node.call(read, fl.path), fl, "read")
                elif k == "tables":
                    if ext not in (".hdf5", ".fits", ".hf5"):
                        continue
                    if ext == ".fits":
                        continue
                    cut_first(op, n, op[3], from_loaded, fl.path)
                    for _ in range(2):
                        whole(op, n, node.call(from_loaded, fl.path), fl, "tables")
                elif k == "describe":
                    got = node.call(describe, fl.path)
                    want = (fl.family, fl.version, True)
                    ctx.check(None if got[:2] == ("ok", want) else f"{got[:2]} instead of {want}", "described-wrong", str(op))
                elif ext == ".hdf5" and k == "iter":
                    cut_first(op, n, op[5], iterate, fl.path, op[3], op[4])
                    whole(op, n, node.call(iterate, fl.path, op[3], op[4]), fl, "iterator")
                elif ext == ".hdf5" and k == "begin":
                    node.call(begin, op[3], fl.path, op[4])
                    going[n, op[3]] = [fl, 0]
                elif k == "migrate":
                    if op[3] is not None and ext != ".hdf5":
                        continue
                    have = node.releases[fl.family]
                    if fl.version > have or fl.version < have < versions.FAMILIES[fl.family][2]:
                        continue
                    dst = os.path.join(ctx.dir, f"f{len(files)}.{'hdf5' if op[3] is not None else op[4]}")
                    got = node.call(migrate, fl.path, dst, op[3])
                    if got[0] != "ok":
                        ctx.fail("raised", f"{op}: {got[1]}")
                    ctx.hit("migrated")
                    files.append(File(dst, fl.family, have, fl.e))
                    whole(op, n, node.call(read, dst), files[-1], "read")
                with open(fl.path if ext != ".pq" else fl.path.replace(".pq", "data.pq"), "rb") as f:
                    ctx.check(None if f.read() == before else "the file changed", "file-changed", str(op))
            elif k == "step":
                if not going:
                    continue
                n, key = sorted(going)[op[1] % len(going)]
                it, node = going[n, key], nodes[n]
                fl, at = it
                if op[2] is not None:
                    kind, val, calls = node.call(step, key, cut=op[2])
                    if kind == "cut":
                        # the iterator ends with it
                        ctx.fault(op[2][1])
                        self.cut_before = True
                        del going[n, key]
                        continue
                else:
                    kind, val, calls = node.call(step, key)
                if kind == "ok" and val is None:
                    ctx.check(None if at == len(fl.e[2]) else f"{at} rows of {len(fl.e[2])}", "rows-missing", str(op))
                    del going[n, key]
                    continue
                if kind == "ok":
                    a, b, val = val
                    ctx.check(None if a == at else f"rows {a}:{b} after {at}", "rows-missing", str(op))
                    it[1] = b
                    judge(op, n, (kind, val, calls), fl.family, fl.version, fl.e, "step", "hdf5", rows=np.arange(a, b))
                else:
                    judge(op, n, (kind, val, calls), fl.family, fl.version, fl.e, "step", "hdf5")
                    del going[n, key]
            elif k == "dict":
                items = [[f"k{i}", plan["ens"][j % len(plan["ens"])][0], None, plan["ens"][j % len(plan["ens"])][1]] for i, j in enumerate(op[3])]
                for it in items:
                    it[2] = node.releases[it[1]]
                path = os.path.join(ctx.dir, f"d{ctx.steps}.hdf5")
                got = node.call(pack, path, items)
                if got[0] != "ok":
                    ctx.fail("raised", f"{op}: {got[1]}")
                m = op[2] % len(nodes)
                if any(v > nodes[m].releases[f] or v < nodes[m].releases[f] < versions.FAMILIES[f][2] for _, f, v, _ in items):
                    continue
                got = nodes[m].call(unpack, path)
                if got[0] != "ok":
                    ctx.fail("raised", f"{op}: {got[1]}")
                ctx.check(None if sorted(got[1]) == [x[0] for x in items] else f"names {sorted(got[1])}", "names-differ", str(op))
                for key, f, v, e in items:
                    judge(op, m, ("ok", got[1][key], got[2]), f, v, e, "dictionary", "hdf5")
            elif k == "send":
                family, e = plan["ens"][op[3] % len(plan["ens"])]
                version, m = node.releases[family], op[2] % len(nodes)
                got = node.call(send, family, version, e)
                if got[0] != "ok":
                    ctx.fail("raised", f"{op}: {got[1]}")
                judge(op, m, nodes[m].call(receive, got[1]), family, version, e, "sent", "tables")
            ctx.log(*op)
