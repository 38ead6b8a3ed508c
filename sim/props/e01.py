"""E01: what is registered is found under its name, and nothing else changes."""

import io as textio
import os

import numpy as np

import qp
from qp.metrics import concrete_metric_classes as metric_classes
from qp.metrics.factory import MetricFactory

from sim import calls, compare, fileworld, interrupt, zoo
from sim.core import Scenario as Base
from sim.pristine import Witness, invoked
from sim.world import Model

NAMES = ["histo", "hist2", "Hist", "norm2", "my", "my2", "zz"]
TAKEN = ["hist", "norm", "mixmod"]
METHODS = [None, "xy", "samples", "shift", "Shift", "shift2", "plain"]
BASES = {"hist": "bins", "interp": "xvals", "norm": "loc"}
METRIC_NAMES = ["momentum", "mom", "kld2", "my", "Moment"]
GRID = np.linspace(0.0, 3.0, 16)


def moved(cls, dx):
    """A creation method: everything dx higher"""

    def create(**kwds):
        key = [k for k in BASES.values() if k in kwds][0]
        kwds = dict(kwds)
        kwds[key] = np.asarray(kwds[key]) + dx
        return cls.create(**kwds)

    return create


def extractor(base, n):
    """An extraction method: the values at n points"""

    def extract(in_dist, **kwds):
        x = np.linspace(0.0, 3.0, n)
        if base == "hist":
            return dict(bins=x, pdfs=in_dist.histogramize(x)[1])
        return dict(xvals=x, yvals=in_dist.pdf(x))

    return extract


def builtin_methods(cls):
    return {"creation": {k: cls.creation_method(k) for k in METHODS}, "extraction": {k: cls.extraction_method(k) for k in METHODS}, "reader": {k: cls.reader_method(k) for k in [None, 0, 1, 2]}}


class Known:
    """A registered class as the model has it"""

    def __init__(self, cls, base):
        self.cls, self.base = cls, base
        self.maps = {"creation": {}, "extraction": {}, "reader": {}}
        self.dx = {}

    def get(self, kind, key):
        m = self.maps[kind]
        return m.get(key, m.get(None))

    def methods(self):
        keys = dict(creation=METHODS, extraction=METHODS, reader=[None, 0, 1, 2])
        return {kind: {k: self.get(kind, k) for k in keys[kind]} for kind in self.maps}


class Scenario(Base):
    pid = "E01"
    runs = {"quick": 1200, "thorough": 40000}
    rule = "a run is a seeded history of registrations of representations, of their creation, extraction and reader methods and of metrics (some refused, some cut short), between uses of those and of the built-in ones; after each operation all classes and methods are looked up; non-trivial if something was registered and used afterwards"
    state_measure = "distinct (operation, what it was about, number of classes registered before)"
    real = "all of qp, numpy, scipy, h5py"
    stub = "the user's classes, derived from built-in ones"
    assumptions = ["methods are added to a class after it was registered", "no class is named like another attribute of the factory", "metric names are unique"]

    def gen(self, rng, tier, index):
        pool = rng.sample(NAMES, 4)
        ops = [["add", n, rng.choice(list(BASES)), rng.randrange(3), None, False] for n in pool[:2]]
        for _ in range(rng.randint(8, 22)):
            r = rng.random()
            name = rng.choice(pool)
            cut = [rng.randrange(14), rng.choice(["interrupt", "memory"])] if rng.random() < 0.1 else None
            if r < 0.2:
                ops.append(["add", name if rng.random() < 0.85 else rng.choice(TAKEN), rng.choice(list(BASES)), rng.randrange(3), cut, rng.random() < 0.4])
            elif r < 0.23:
                ops.append(["nameless"])
            elif r < 0.38:
                ops.append(["method", name, rng.choice(["creation", "creation", "extraction", "extraction", "reader"]), rng.choice(METHODS[1:]), rng.choice([0.25, -0.5, 1.0])])
            elif r < 0.53:
                who = name if rng.random() < 0.8 else rng.choice(list(BASES))
                ops.append(["create", who, rng.choice(METHODS + ["absent"]), rng.choice(["create", "attr"]), rng.randrange(3), fileworld.gen_ids(rng, top=300)])
            elif r < 0.66:
                who = name if rng.random() < 0.8 else rng.choice(list(BASES))
                ops.append(["convert", who, rng.choice(METHODS[3:] + ["absent", None]), rng.choice(["qp", "ens"]), rng.choice(["mixmod", "hist", "interp", "norm"]), rng.randrange(3), fileworld.gen_ids(rng, top=300)])
            elif r < 0.72:
                ops.append(["file", name, rng.randrange(3), fileworld.gen_ids(rng, top=300)])
            elif r < 0.8:
                rep = rng.choice(["hist", "interp", "norm", "mixmod", "quant_piecewise_linear"])
                ops.append(["builtin", rep, rng.randrange(3), fileworld.gen_ids(rng, top=300), calls.gen_call(rng, rep, ("point", "grid"))])
            elif r < 0.83:
                ops.append(["unknown", rng.choice(["create", "convert", "metric"])])
            elif r < 0.9:
                ops.append(["metric", rng.choice(METRIC_NAMES), rng.choice(["MomentMetric", "KLDMetric"]), rng.choice([2.0, -1.0])])
            elif r < 0.97:
                ops.append(["use", rng.choice(METRIC_NAMES + ["moment", "kld", "rmse"]), rng.random() < 0.7, rng.randrange(3), fileworld.gen_ids(rng, top=300), rng.choice([0.01, 0.05])])
            else:
                ops.append(["print"])
        return dict(ops=ops)

    # ------------------------------------------------------------ the model

    def audit(self, ctx, op):
        f = qp.stats
        want = [n for n in self.order if n not in self.unsure]
        got = [n for n in f if n not in self.unsure]
        ctx.check(None if got == want else f"names {sorted(set(got) ^ set(want)) or 'in another order'}", "names-differ", str(op))
        for n in want:
            k = self.known[n]
            ctx.check(None if f[n] is k.cls else f"{n} is {f[n]}", "class-differs", str(op))
            ctx.check(None if getattr(f, n + "_gen", None) is k.cls else f"{n}_gen is {getattr(f, n + '_gen', None)}", "class-differs", str(op))
            ctx.check(None if getattr(f, n, None) == k.cls.create else f"{n} is {getattr(f, n, None)}", "creator-differs", str(op))
            ctx.check(None if k.cls.name == n and k.cls.version == k.version else f"{n} has name {k.cls.name} and version {k.cls.version}", "class-differs", str(op))
            have, methods = builtin_methods(k.cls), k.methods()
            for kind, m in methods.items():
                for key, v in m.items():
                    ctx.check(None if have[kind][key] == v else f"{kind} {key!r} of {n} is {have[kind][key]}, not {v}", "method-differs", str(op))

    def snapshot(self):
        self.order, self.known, self.unsure = list(qp.stats), {}, set()
        for n in self.order:
            cls = qp.stats[n]
            k = self.known[n] = Known(cls, n)
            k.version = cls.version
            for kind, m in builtin_methods(cls).items():
                default = m[None]
                k.maps[kind] = {key: v for key, v in m.items() if key is None or v != default}
                if default is None:
                    del k.maps[kind][None]

    def expect(self, name, method, base, data, dx):
        """The ensemble a creation method is to make, from the built-in base"""
        data = dict(data)
        data[BASES[base]] = np.asarray(data[BASES[base]]) + dx
        return qp.Ensemble(qp.stats[base].create, data=data)

    def same(self, ctx, op, got, want, cls):
        ctx.check(None if got.gen_class is cls else f"class {got.gen_class}", "wrong-class", str(op))
        ctx.check(None if int(got.npdf) == int(want.npdf) else f"npdf {got.npdf}", "differs", str(op))
        ctx.check(compare.diff_table(got.objdata(), want.objdata(), "data"), "differs", str(op))
        for fn in ("pdf", "cdf"):
            ctx.check(calls.diff([getattr(got, fn)(zoo.XS)], [getattr(want, fn)(zoo.XS)], 1e-9, 1e-10), "differs", f"{op} {fn}")

    # ------------------------------------------------------------ the run

    def run(self, plan, ctx):
        self.witness = Witness(4)
        self.snapshot()
        self.metrics, self.refs, self.user = {}, [], {}
        self.builtin_metrics = set(MetricFactory.list_metrics(force_update=True))
        self.seen_metrics = set(self.builtin_metrics)
        registered = False
        for op in plan["ops"]:
            ctx.state(*[str(x) for x in op[:4]], len(self.user))
            if getattr(self, "op_" + op[0])(ctx, op):
                ctx.hit(op[0])
                ctx.nontrivial |= registered and op[0] not in ("add", "method", "metric")
                registered |= op[0] in ("add", "metric")
            else:
                ctx.hit(op[0] + " refused or skipped")
            self.audit(ctx, op)
            ctx.log(*op)
        self.witness.settle(ctx)

    def op_add(self, ctx, op):
        _, name, base, version, cut, again = op
        parent = qp.stats[base]
        cls = type(f"User_{name}", (parent,), dict(name=name, version=version))
        self.refs.append(cls)
        if name in self.unsure:
            return False
        if name in self.known:
            try:
                # another class of that name, or the one that is there once more
                qp.add_class(self.known[name].cls if again else cls)
            except KeyError:
                ctx.fault("duplicate registration")
                return False
            ctx.fail("duplicate-accepted", str(op))
        if cut is not None:
            with interrupt.Interrupt(cut[0], interrupt.KINDS[cut[1]]) as i:
                try:
                    qp.add_class(cls)
                except (KeyboardInterrupt, MemoryError):
                    pass
            if i.fired:
                # whether it is registered is not known, but that all others are as they were
                ctx.fault(cut[1])
                self.unsure.add(name)
                return False
        else:
            qp.add_class(cls)
        k = Known(cls, base)
        k.version = version
        k.maps["creation"][None] = cls.create
        # methods a class gets from its parent's add_mappings
        for key, v in self.known[base].maps["extraction"].items():
            k.maps["extraction"][key] = v
        self.order.append(name)
        self.known[name] = self.user[name] = k
        return True

    def op_nameless(self, ctx, op):
        try:
            qp.add_class(type("Nameless", (), {}))
        except AttributeError:
            ctx.fault("refused registration")
            return False
        ctx.fail("nameless-accepted", str(op))

    def op_method(self, ctx, op):
        _, name, kind, key, dx = op
        k = self.user.get(name)
        if k is None:
            return False
        if kind == "reader":
            key = dict(xy=0, samples=1).get(key, 2)
        f = moved(k.cls, dx) if kind == "creation" else extractor(k.base, 7 + METHODS.index(key)) if kind == "extraction" else (lambda d: d)
        getattr(k.cls, f"_add_{kind}_method")(f, key)
        if key not in k.maps[kind]:
            k.maps[kind][key] = f
            if kind == "creation":
                k.dx[f] = dx
        return True

    def op_create(self, ctx, op):
        _, name, method, how, shared, ids = op
        if name not in self.known or name in self.unsure:
            return False
        k = self.known[name]
        data = zoo.data(k.base, shared, ids)
        given = {key: np.array(v) for key, v in data.items()}
        if how == "attr":
            got, dx = qp.Ensemble(getattr(qp.stats, name), data=data), 0.0
        else:
            got, dx = qp.create(name, data, method), k.dx.get(k.get("creation", method), 0.0)
        ctx.check(None if all(np.array_equal(data[x], given[x]) for x in given) and len(data) == len(given) else "arguments changed", "arguments-changed", str(op))
        self.same(ctx, op, got, self.expect(name, method, k.base, given, dx), k.cls)
        return True

    def op_convert(self, ctx, op):
        _, name, method, how, rep, shared, ids = op
        if name not in self.known or name in self.unsure or self.known[name].base == "norm":
            return False
        k = self.known[name]
        src = zoo.make(rep, shared, ids)
        extract, create = k.get("extraction", method), k.get("creation", method)
        kw = dict(bins=GRID) if k.base == "hist" else dict(xvals=GRID)
        given = dict(kw, method=method)
        asked = dict(given)
        got = qp.convert(src, name, **asked) if how == "qp" else src.convert_to(k.cls, **asked)
        ctx.check(None if list(asked) == list(given) and asked["method"] == method else "arguments changed", "arguments-changed", str(op))
        want = self.expect(name, method, k.base, extract(src, **kw), k.dx.get(create, 0.0))
        self.same(ctx, op, got, want, k.cls)
        return True

    def op_file(self, ctx, op):
        _, name, shared, ids = op
        k = self.user.get(name)
        if k is None:
            return False
        data = zoo.data(k.base, shared, ids)
        path = os.path.join(ctx.dir, f"{ctx.steps}.hdf5")
        qp.create(name, data).write_to(path)
        # readers of these classes give back what they get
        got = qp.read(path)
        self.same(ctx, op, got, qp.Ensemble(qp.stats[k.base].create, data=zoo.data(k.base, shared, ids)), k.cls)
        return True

    def op_builtin(self, ctx, op):
        _, rep, shared, ids, call = op
        e = zoo.make(rep, shared, ids)
        m = Model.of(e)
        got = calls.copy_result(calls.invoke(e, call))
        self.witness.note(invoked, (m, call), lambda want: calls.diff(got, want, 1e-8, 1e-10), "builtin-changed", str(op))
        return True

    def op_unknown(self, ctx, op):
        try:
            if op[1] == "create":
                qp.create("nowhere", {})
            elif op[1] == "convert":
                qp.convert(zoo.make("norm", 0, [1, 2]), "nowhere", xvals=GRID)
            else:
                MetricFactory.create_metric("nowhere")
        except KeyError:
            ctx.fault("unknown name")
            return False
        ctx.fail("unknown-accepted", str(op))

    def op_metric(self, ctx, op):
        _, name, base, factor = op
        if name in self.metrics:
            return False
        parent = getattr(metric_classes, base)

        class Mine(parent):  # pylint: disable=too-few-public-methods
            metric_name = name

            def evaluate(self, *args):
                return factor * np.asarray(super().evaluate(*args))

        self.metrics[name] = (Mine, parent, factor)
        return True

    def op_use(self, ctx, op):
        _, name, force, shared, ids, dx = op
        known = self.builtin_metrics | set(self.metrics)
        if force:
            self.seen_metrics = set(known)
        listed = MetricFactory.list_metrics(force_update=force)
        ctx.check(None if len(listed) == len(set(listed)) and self.seen_metrics <= set(listed) <= known else f"{sorted(listed)}", "metrics-listed", str(op))
        try:
            m = MetricFactory.create_metric(name, force_update=force, dx=dx)
        except KeyError:
            ctx.check("not found" if name in self.seen_metrics else None, "metric-not-found", str(op))
            return False
        ctx.check(None if name in known else "found", "metric-found", str(op))
        cls, parent, factor = self.metrics.get(name) or (None, dict(moment=metric_classes.MomentMetric, kld=metric_classes.KLDMetric, rmse=metric_classes.RMSEMetric)[name], 1.0)
        ctx.check(None if type(m) is (cls or parent) else f"{type(m)}", "wrong-metric", str(op))
        ens = [zoo.make("hist", shared, ids), zoo.make("norm", shared, ids)][: 1 if parent is metric_classes.MomentMetric else 2]
        with np.errstate(all="ignore"):
            got, want = m.evaluate(*ens), factor * np.asarray(parent(dx=dx).evaluate(*ens))
        ctx.check(calls.diff([got], [want]), "metric-differs", str(op))
        return True

    def op_print(self, ctx, op):
        out = textio.StringIO()
        qp.stats.pretty_print(out)
        text = out.getvalue()
        missing = [n for n in self.order if f"\n{n}: " not in text]
        ctx.check(f"{missing} missing" if missing else None, "not-printed", str(op))
        return True
