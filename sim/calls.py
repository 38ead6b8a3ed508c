"""Evaluation requests: JSON descriptions, how to make one, how to carry it out."""

import numpy as np

from . import zoo

POINT = ["pdf", "cdf", "ppf", "sf", "isf", "logpdf"]
GRID = ["gridded", "mode", "moment_partial"]
MOMENT = ["mean", "median", "std", "var", "interval", "moment", "stats"]
OTHER = ["integrate", "histogramize", "rvs"]


def points(spec, npdf):
    k = spec["k"]
    if k == "scalar":
        return spec["v"]
    if k == "list":
        return np.array(spec["v"], dtype=float)
    r = zoo._rng("points", spec["seed"])
    if k == "lin":
        return np.linspace(spec["a"], spec["b"], spec["n"])
    if k == "rand":
        v = r.uniform(spec["a"], spec["b"], spec["n"])
        return np.sort(v) if spec.get("sorted") else v
    if k == "table":
        return r.uniform(spec["a"], spec["b"], (npdf, spec["n"]))
    raise KeyError(k)


def gen_points(rng, lo=-0.3, hi=3.3, grids=False):
    k = rng.choice(["lin", "rand", "rand", "list"] if grids else ["scalar", "lin", "rand", "rand", "rand", "list", "table"])
    n = rng.choice([1, 2, 3, 4, 5, 7, 12])
    if k == "scalar":
        return dict(k=k, v=round(rng.uniform(lo, hi), 3))
    if k == "list":
        v = [round(rng.uniform(lo, hi), 2) for _ in range(n)]
        return dict(k=k, v=v + [rng.choice(v)])
    return dict(k=k, seed=rng.randrange(10**6), a=lo, b=hi, n=n, sorted=rng.random() < 0.5)


def gen_grid(rng):
    """Grids that are easily confused: same length, same ends, tiny differences, different order."""
    n = rng.choice([4, 5, 9])
    a, b = rng.choice([(0.0, 3.0), (0.1, 3.0), (0.0, 3.0 + 1e-7)])
    g = np.linspace(a, b, n)
    how = rng.randrange(6)
    if how == 0:
        g[n // 2] += rng.choice([1e-9, 1e-4, 0.05])
    elif how == 1:
        g = g[::-1]
    elif how == 2:
        g = np.concatenate([g, g[-1:] + 0.1])
    elif how == 3:
        g = g + rng.choice([1e-10, 1e-3, 0.2])
    return dict(k="list", v=[float(v) for v in g])


def gen_call(rng, rep="hist", kinds=("point", "grid", "moment", "other")):
    kind = rng.choice(list(kinds))
    if kind == "point":
        fn = rng.choice(POINT[:5] * 3 + POINT[5:])
        if fn in ("ppf", "isf"):
            if rep in zoo.SLOW_PPF:
                return dict(fn=fn, x=dict(k="list", v=[0.31, 0.8][: rng.choice([1, 2])]))
            return dict(fn=fn, x=gen_points(rng, 0.02, 0.98))
        return dict(fn=fn, x=gen_points(rng))
    if kind == "grid":
        fn = rng.choice(GRID + ["gridded"])
        if fn == "moment_partial":
            a = rng.choice([0.0, 0.5])
            return dict(fn=fn, n=rng.choice([0, 1, 2]), limits=[a, a + rng.choice([1.0, 2.0])], dx=rng.choice([0.05, 0.1]))
        return dict(fn=fn, x=gen_grid(rng))
    if kind == "moment":
        fn = rng.choice(["mean", "median", "std", "var", "interval", "moment", "stats"])
        if rep in zoo.SLOW_MOMENT and fn != "interval":
            fn = "median"
        if fn == "interval":
            return dict(fn=fn, alpha=rng.choice([0.3, 0.68]))
        if fn == "moment":
            return dict(fn=fn, n=rng.choice([1, 2]))
        return dict(fn=fn)
    fn = rng.choice(OTHER)
    if fn == "integrate":
        return dict(fn=fn, limits=[round(rng.uniform(0, 1), 2), round(rng.uniform(1, 3), 2)])
    if fn == "histogramize":
        return dict(fn=fn, x=dict(k="lin", seed=0, a=rng.choice([0.0, -0.5, 0.4]), b=rng.choice([3.0, 3.5, 2.0]), n=rng.choice([3, 6])))
    return dict(fn=fn, size=2 if rep in zoo.SLOW_PPF else rng.choice([1, 3, 8]), seed=rng.randrange(1000))


FUNCTIONS = ["ppf", "cdf", "pdf", "isf", "sf", "logpdf", "rvs", "gridded", "mode", "moment_partial", "median", "interval", "mean", "std", "stats", "histogramize", "integrate"]


def gen_of(rng, rep, fn):
    """A request for this function"""
    for _ in range(600):
        c = gen_call(rng, rep)
        if c["fn"] == fn:
            return c
    return dict(fn="median")


def turn(k, reps):
    """Every function of every representation in turn"""
    return in_turn(k, [(rep, fn) for fn in FUNCTIONS for rep in reps if not (rep in zoo.SLOW_MOMENT and fn in ("mean", "std", "stats"))])


def in_turn(k, pairs):
    # neighbours have little in common
    return pairs[k * 7919 % len(pairs)]


def invoke(e, c, args=None):
    """The result as a list of arrays.  args: list that receives the arrays passed in."""
    fn = c["fn"]
    if fn in POINT:
        x = points(c["x"], int(e.npdf))
        if args is not None:
            args.append(x)
        return [getattr(e, fn)(x)]
    if fn in ("gridded", "mode", "histogramize"):
        x = points(c["x"], int(e.npdf))
        if args is not None:
            args.append(x)
        r = getattr(e, fn)(x)
        return [r] if fn == "mode" else list(r)
    if fn == "moment_partial":
        return [e.moment_partial(c["n"], tuple(c["limits"]), dx=c["dx"])]
    if fn == "integrate":
        return [e.integrate(tuple(c["limits"]))]
    if fn == "interval":
        return list(e.interval(c["alpha"]))
    if fn == "moment":
        return [e.moment(c["n"])]
    if fn == "stats":
        return list(e.stats())
    if fn == "rvs":
        return [e.rvs(size=c["size"], random_state=c["seed"])]
    return [getattr(e, fn)()]


def copy_result(r):
    return [np.array(v, copy=True) for v in r]


def diff(got, want, rtol=1e-9, atol=1e-12):
    if len(got) != len(want):
        return f"{len(got)} results instead of {len(want)}"
    for i, (g, w) in enumerate(zip(got, want)):
        g, w = np.asarray(g, dtype=float), np.asarray(w, dtype=float)
        if g.shape != w.shape:
            return f"result {i} has shape {g.shape}, not {w.shape}"
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            bad = ~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
            j = tuple(int(v) for v in np.argwhere(bad)[0])
            return f"result {i} is {g[j]!r}, not {w[j]!r}, at {list(j)} ({int(bad.sum())} of {bad.size} values differ)"
    return None


def name(c):
    x = c.get("x")
    return c["fn"] + (":" + x["k"] if x else "")
