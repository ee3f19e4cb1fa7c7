"""Several readers at work at the same time, with the scheduler made as hostile as Python lets it be."""
import dis
import functools
import os
import random
import sys
import threading
import time

import MyCapytain

HOME = os.path.dirname(os.path.abspath(MyCapytain.__file__)) + os.sep


class Crowd:
    """jobs: list of (description, callable, expected answer); every reader does `rounds` of them in an order of its own.

    pools: for every round, the jobs to choose from (all, if not given).
    yielding: probability that a reader gives way at a line of the library (0: no line is traced)."""
    def __init__(self, rng, jobs, readers, rounds, yielding, pools=None):
        self.jobs, self.rounds, self.yielding = jobs, rounds, yielding
        self.seeds = [rng.randrange(1 << 30) for _ in range(readers)]
        self.order, self.pools = None, pools
        if rng.random() < 0.4:              # all ask the same questions in the same order: they meet what is not yet known together
            self.order = [i for _ in range(rounds // len(jobs) + 1) for i in rng.sample(range(len(jobs)), len(jobs))][:rounds]
        self.results = [[] for _ in self.seeds]
        self.events = []                    # (reader, begin or end)
        self.switches = 0                   # times another reader was at a line of the library than the one before
        self.spots = set()
        self.last = [None, None]
        self.gate = threading.Barrier(readers)

    def tracer(self, k, rr):
        def line(frame, event, arg):
            if event == "line":
                if self.last[0] != k:
                    self.switches += 1
                    self.spots.add((frame.f_code.co_name, frame.f_lineno))
                    self.last[0] = k
                if rr.random() < self.yielding:
                    time.sleep(rr.choice((0, 0, 1e-5, 1e-4)))
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(HOME) else None
        return call

    def reader(self, k):
        rr = random.Random(self.seeds[k])
        todo = [rr.choice(p) for p in self.pools] if self.pools else \
            self.order or [rr.randrange(len(self.jobs)) for _ in range(self.rounds)]
        if self.yielding:
            sys.settrace(self.tracer(k, rr))
        try:
            self.gate.wait(200)
            for i in todo:
                self.events.append((k, "begin"))
                try:
                    got = (True, self.jobs[i][1]())
                except Exception as e:          # noqa - judged by the main thread
                    import traceback
                    got = (False, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-900:]))
                self.events.append((k, "end"))
                self.results[k].append((i, got))
        finally:
            sys.settrace(None)

    def run(self):
        before = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=self.reader, args=(k,), daemon=True) for k in range(len(self.seeds))]
            for t in ts:
                t.start()
            end = time.time() + 250         # normally a fraction of a second; a loaded machine is no violation
            for t in ts:
                t.join(max(0.1, end - time.time()))
        finally:
            sys.setswitchinterval(before)
        stuck = [t for t in ts if t.is_alive()]
        return stuck

    def overlaps(self):
        """How many operations began while another was under way."""
        n = at = 0
        for _, e in self.events:
            if e == "begin":
                if at:
                    n += 1
                at += 1
            else:
                at -= 1
        return n


@functools.lru_cache(None)
def stores_of(code):
    """Lines that write somewhere others may look: attributes, items, globals."""
    at, out = None, set()
    for i in dis.get_instructions(code):
        at = i.positions.lineno or at
        if i.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "STORE_DEREF"):
            out.add(at)
    return out


class Turns(Crowd):
    """The same readers, one at a time: who works is decided here, at lines of the library, by the seed alone.

    manner "walk": at any line the turn may pass to another reader.
    manner "park": a reader is put aside at a line - lines met less often are likelier - until the others have done whole
    operations, so that what it left half done in shared objects is met by them, and what they do meets it."""
    def __init__(self, rng, jobs, readers, rounds, manner, pools=None):
        super().__init__(rng, jobs, readers, rounds, 1, pools)
        self.manner = manner
        self.rr = random.Random(rng.randrange(1 << 30))
        self.often = rng.choice([0.02, 0.1, 0.4])
        self.eager = rng.choice([0.05, 0.2, 0.6])
        self.ready = [threading.Event() for _ in self.seeds]
        self.active = set(range(readers))
        self.parked = {}                    # reader -> number of finished operations at which it goes on
        self.done = self.steps = self.parkings = 0
        self.turn = None
        self.visits = {}

    def tracer(self, k, _):
        def walk(frame, event, arg):
            if event == "line":
                self.steps += 1
                if self.rr.random() < self.often:
                    self.spots.add((frame.f_code, frame.f_lineno))
                    self.pass_on(k)
            return walk

        def local(stores):
            just_stored = False

            def line(frame, event, arg):
                nonlocal just_stored
                if event == "line":
                    self.steps += 1
                    at = frame.f_lineno
                    spot = (frame.f_code, at, just_stored)
                    n = self.visits[spot] = self.visits.get(spot, 0) + 1
                    if self.rr.random() < self.eager * (10 if just_stored else 1) / (n + 5) \
                            and self.active - set(self.parked) - {k}:       # one goes on working
                        self.spots.add(spot)
                        self.parkings += 1
                        self.parked[k] = self.done + self.rr.choice((1, 1, 2, 3))
                        self.pass_on(k)
                    just_stored = at in stores
                return line
            return line

        def call(frame, event, arg):
            if not frame.f_code.co_filename.startswith(HOME):
                return None
            return walk if self.manner == "walk" else local(stores_of(frame.f_code))
        return call

    def pass_on(self, k):
        """Reader k gives the turn away, and waits until it has it again (unless it has finished)."""
        for j in [j for j, at in self.parked.items() if at <= self.done]:
            del self.parked[j]
        free = sorted(self.active - set(self.parked)) or sorted(self.active)
        if not free:
            return
        j = self.rr.choice(free)
        self.parked.pop(j, None)
        if j != k:
            self.switches += 1
            self.ready[k].clear()
            self.turn = j
            self.ready[j].set()
            if k in self.active:
                self.wait(k)

    def wait(self, k):
        seen = self.steps
        while not self.ready[k].wait(5):
            if seen == self.steps:          # who has the turn waits for something held elsewhere: go on regardless
                break
            seen = self.steps

    def reader(self, k):
        rr = random.Random(self.seeds[k])
        todo = [rr.choice(p) for p in self.pools] if self.pools else \
            self.order or [rr.randrange(len(self.jobs)) for _ in range(self.rounds)]
        self.wait(k)
        sys.settrace(self.tracer(k, rr))
        try:
            for i in todo:
                self.events.append((k, "begin"))
                try:
                    got = (True, self.jobs[i][1]())
                except Exception as e:          # noqa - judged by the main thread
                    import traceback
                    got = (False, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-900:]))
                self.events.append((k, "end"))
                self.results[k].append((i, got))
                self.done += 1
                self.pass_on(k)
        finally:
            sys.settrace(None)
            self.active.discard(k)
            self.parked.pop(k, None)
            self.pass_on(k)

    def run(self):
        ts = [threading.Thread(target=self.reader, args=(k,), daemon=True) for k in range(len(self.seeds))]
        for t in ts:
            t.start()
        self.ready[0].set()
        end = time.time() + 250
        for t in ts:
            t.join(max(0.1, end - time.time()))
        return [t for t in ts if t.is_alive()]
