"""Seam for failing allocations: the k-th array allocation that numpy is asked for through a call of one of its own
functions or array methods, by qp or by what qp calls, raises MemoryError."""

import sys

FUNCS = {
    "array", "asarray", "empty", "zeros", "ones", "concatenate", "arange", "copyto", "where", "fromiter", "linspace", "empty_like", "zeros_like",
    "copy", "astype", "reshape", "ravel", "flatten", "repeat", "take", "searchsorted", "argsort", "cumsum", "sum", "nonzero", "unique", "sort", "tolist",
    "_vec_string", "interp", "interp_complex", "bincount", "digitize", "histogram", "uniform", "random", "dot", "c_einsum", "lexsort", "reduce", "accumulate",
}


class AllocFail:
    """with AllocFail(k) as a: ...   a.fired tells whether the failure happened, a.count how many allocations were made."""

    def __init__(self, k):
        self.k, self.count, self.fired, self.where = k, 0, False, None

    def _hook(self, frame, event, arg):
        if event != "c_call":
            return
        if getattr(arg, "__name__", None) not in FUNCS:
            return
        owner = getattr(arg, "__self__", None)
        mod = getattr(arg, "__module__", None) or type(owner).__module__ or ""
        if not mod.startswith("numpy"):
            return
        n = self.count
        self.count += 1
        if n == self.k and not self.fired:
            self.fired = True
            self.where = f"{arg.__name__} in {frame.f_code.co_name}"
            raise MemoryError("simulated: no memory")

    def __enter__(self):
        sys.setprofile(self._hook)
        return self

    def __exit__(self, *exc):
        sys.setprofile(None)
        return False
