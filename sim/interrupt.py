"""Seam for asynchronous exceptions: raise at the k-th source line of qp that is executed."""

import os
import sys

import qp

ROOT = os.path.dirname(os.path.abspath(qp.__file__)) + os.sep
# the Python parts of the file libraries as well
IO_ROOTS = (ROOT, os.sep + "tables_io" + os.sep, os.sep + "h5py" + os.sep)
KINDS = dict(interrupt=KeyboardInterrupt, memory=MemoryError, timeout=TimeoutError)


class Interrupt:
    """with Interrupt(k, KeyboardInterrupt) as i: ...     k None: only count."""

    def __init__(self, k=None, exc=KeyboardInterrupt, roots=(ROOT,)):
        self.k, self.exc, self.count, self.fired, self.where = k, exc, 0, False, None
        self.roots = roots
        self.ours = {}

    def _global(self, frame, event, arg):
        code = frame.f_code
        ours = self.ours.get(code)
        if ours is None:
            ours = self.ours[code] = any(r in code.co_filename for r in self.roots)
        return self._local if ours else None

    def _local(self, frame, event, arg):
        if event == "line":
            n = self.count
            self.count += 1
            if n == self.k and not self.fired:
                self.fired = True
                self.where = frame.f_code.co_name
                raise self.exc("simulated")
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


def lines(f):
    """Number of qp's lines that f executes (an exception it raises ends the count)."""
    with Interrupt() as i:
        try:
            f()
        except Exception:  # pylint: disable=broad-except
            pass
    return i.count
