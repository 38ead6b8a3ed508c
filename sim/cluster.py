"""A simulated cluster: a driver deals tasks to workers over a network that delays, reorders, loses and repeats messages,
while workers stop and start again.  One process, simulated time; every decision comes from the plan.

A task's result is a message.  The driver asks for a task again when nothing was heard for a while (so that a task may be
done twice, by different workers) and keeps the first result of each.
"""

import heapq
import json
import pickle

import numpy as np

PATIENCE = 40.0


def ship(obj, form):
    """What arrives of a partial result"""
    if form == "json":
        return json.loads(json.dumps(obj, default=lambda v: v.tolist()))
    obj = pickle.loads(pickle.dumps(obj))
    if form == "array":
        return np.array(obj)
    if form == "list":
        return [list(map(float, v)) if np.ndim(v) else float(v) for v in obj]
    return obj


FORMS = ["pickle", "pickle", "array", "list", "json"]


def gen_faults(rng, ntasks, nworkers):
    """Faults by number of the message, or of the attempt at a task"""
    out = []
    n = rng.choice([0, 0, 1, 2, 4, 8])
    for _ in range(n):
        k = rng.choice(["lose", "dup", "slow", "crash", "stop", "stall"])
        out.append([k, rng.randrange(max(1, 2 * ntasks)), rng.randrange(10**4)])
    return out


class Cluster:
    def __init__(self, nworkers, delays, faults, ctx, new_worker, do_task):
        """new_worker(w) -> state of a worker after it starts; do_task(state, task, stop_at) -> partial result"""
        self.n, self.delays, self.ctx = nworkers, delays or [1], ctx
        self.new_worker, self.do_task = new_worker, do_task
        self.faults = {}
        for k, at, arg in faults:
            self.faults.setdefault(("send" if k in ("lose", "dup", "slow") else "work", at), (k, arg))
        self.clock, self.events, self.seq, self.drawn = 0.0, [], 0, 0
        self.attempts = self.sent = self.limit = 0
        self.results, self.order, self.extra = {}, [], []

    def delay(self):
        d = self.delays[self.drawn % len(self.delays)]
        self.drawn += 1
        return 0.5 + d

    def at(self, t, *event):
        self.seq += 1
        heapq.heappush(self.events, (t, self.seq, event))

    def send(self, t, task, result):
        k, arg = self.faults.pop(("send", self.sent), (None, 0))
        self.sent += 1
        if k == "lose":
            self.ctx.fault("message lost")
            return
        if k == "slow":
            self.ctx.fault("message delayed")
            t += 10.0 + arg % 90
        self.at(t + self.delay(), "arrived", task, result)
        if k == "dup":
            self.ctx.fault("message repeated")
            self.at(t + self.delay() + arg % 50, "arrived", task, result)

    def run(self, tasks):
        """-> results in the order in which they came in.  tasks: hashable"""
        state = {w: self.new_worker(w) for w in range(self.n)}
        idle, todo = list(range(self.n)), list(tasks)
        asked = {}
        waiting = set(tasks)
        while waiting:
            while idle and todo:
                task = todo.pop(0)
                if task not in waiting:
                    continue
                w = idle.pop(0)
                asked[task] = asked.get(task, 0) + 1
                self.at(self.clock + self.delay(), "work", w, task)
                self.at(self.clock + PATIENCE, "late", task, asked[task])
            self.limit += 1
            if self.limit > 60 * (len(tasks) + 10) or not self.events:
                self.ctx.fail("no-progress", f"tasks {sorted(waiting)} are not done after {self.limit} events")
            self.clock, _, (kind, *a) = heapq.heappop(self.events)
            if kind == "work":
                w, task = a
                k, arg = self.faults.pop(("work", self.attempts), (None, 0))
                self.attempts += 1
                if k == "crash":
                    self.ctx.fault("worker crashed")
                    self.at(self.clock + arg % 60, "start", w)
                    continue
                if k == "stop":
                    # the task is stopped half-way, and the worker goes on with what it holds
                    if self.do_task(state[w], task, arg) is None:
                        self.ctx.fault("task interrupted")
                        idle.append(w)
                        continue
                t = self.clock + self.delay()
                if k == "stall":
                    self.ctx.fault("worker stalled")
                    t += 20 + arg % 100
                result = self.do_task(state[w], task, None)
                self.send(t, task, result)
                self.at(t, "free", w)
            elif kind == "start":
                state[a[0]] = self.new_worker(a[0])
                idle.append(a[0])
            elif kind == "free":
                idle.append(a[0])
            elif kind == "late":
                if a[0] in waiting and asked.get(a[0]) == a[1]:
                    self.ctx.hit("asked again")
                    todo.append(a[0])
            else:
                task, result = a
                if task in waiting:
                    waiting.discard(task)
                    self.results[task] = result
                    self.order.append(task)
                else:
                    self.extra.append((task, result))
        self.ctx.hit("simulated seconds", int(self.clock))
        self.ctx.hit("tasks done", self.attempts)
        self.ctx.log("cluster", round(self.clock, 3), self.attempts, self.sent, self.order)
        return [self.results[t] for t in self.order]


def gen_cluster(rng, ntasks):
    n = rng.choice([1, 2, 2, 3, 5])
    return dict(workers=n, delays=[round(rng.choice([0.1, 1, 6]) * rng.random(), 3) for _ in range(23)], faults=gen_faults(rng, ntasks, n), form=rng.choice(FORMS))
