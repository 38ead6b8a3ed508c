"""Answers from processes in which nothing was done before.

A run's process forks a helper before its first operation; the helper forks once more for every request, so that the
answer to each comes from a process that has done nothing but import the library.
"""

import os
import pickle

import numpy as np

from . import calls, zoo


def _write(fd, data):
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view) :]


def _read(fd):
    out = []
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            return b"".join(out)
        out.append(b)


class Pristine:
    def __init__(self):
        down_r, self.down = os.pipe()
        self.up, up_w = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(down_r)
            os.close(up_w)
            return
        try:
            os.close(self.down)
            os.close(self.up)
            data = _read(down_r)
            if data:
                _write(up_w, pickle.dumps([self._one(f, a) for f, a in pickle.loads(data)]))
        finally:
            os._exit(0)

    @staticmethod
    def _one(f, a):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                try:
                    out = ("ok", f(*a))
                except Exception as x:  # pylint: disable=broad-except
                    out = ("raises", f"{type(x).__name__}: {x}")
                _write(w, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        data = _read(r)
        os.close(r)
        os.waitpid(pid, 0)
        return pickle.loads(data)

    def ask(self, requests):
        """requests: [(function of a module, arguments)] -> [("ok", result) or ("raises", text)].  Once only."""
        _write(self.down, pickle.dumps(requests))
        os.close(self.down)
        data = _read(self.up)
        os.close(self.up)
        os.waitpid(self.pid, 0)
        return pickle.loads(data)

    def close(self):
        os.close(self.down)
        os.close(self.up)
        os.waitpid(self.pid, 0)


class Witness:
    """Answers met in a run, some of which are asked again in pristine processes at its end.

    What a process keeps from one request to the next is kept for an ensemble made anew in the same process as well, so
    a comparison with such an ensemble does not see it.
    """

    def __init__(self, limit):
        self.pristine, self.limit, self.items = Pristine(), limit, []

    def note(self, f, args, judge, sig, text):
        """f(*args), a function of a module: what is asked; judge(answer): None or how the answer met differs from it"""
        self.items.append((f, args, judge, sig, text))

    def settle(self, ctx):
        if len(self.items) > self.limit:
            # some of the first, since what they leave behind is what others meet, and of all
            k = np.random.default_rng([len(self.items), 5]).permutation(len(self.items))[: self.limit]
            self.items = [self.items[i] for i in sorted(k)]
        answers = self.pristine.ask([x[:2] for x in self.items])
        for (*_, judge, sig, text), (how, val) in zip(self.items, answers):
            ctx.hit("pristine " + how)
            if how == "ok":
                ctx.check(judge(val), sig, f"{text}, compared with a process in which nothing was done before")


def invoked(model, call):
    return calls.copy_result(calls.invoke(model.fresh(), call))


def probed(model):
    f = model.fresh()
    return [np.array(getattr(f, fn)(zoo.XS)) for fn in ("pdf", "cdf")]
