"""Perturbs the schedule of the agent's own code: pauses threads at lines of the given files."""
import os
import random
import sys
import threading
import time


ACTIVE = [None]


def watch_new_threads():
    """All threads that start from now on (e.g. the workers of the agent) can be paused."""
    threading.settrace(_dispatch)


def _dispatch(frame, event, arg):
    tracer = ACTIVE[0]
    if tracer is None:
        return None
    return tracer.trace(frame, event, arg)


class Interleaver:
    """
    A trace function for all threads, that pauses them at lines of the given files.

    mode 'pause': a thread that is the n-th one to reach a position is paused there, all the others run on. `points` are
    (position, n); a position is a line, or (with `opcodes`) an instruction.
    mode 'random': every line event can be a short pause.
    """

    def __init__(self, files, mode='random', points=(), seed=0, probability=.2, pause=.03, opcodes=False):
        self.files = tuple(files)
        self.mode = mode
        self.points = set(points)
        self.opcodes = opcodes
        self.seen = {}
        self.pause = pause
        self.probability = probability
        self.rng = random.Random(seed)
        self.lock = threading.Lock()
        self.count = 0
        self.paused_at = []
        self.order = []
        self.threads = {}

    def install(self):
        ACTIVE[0] = self

    def remove(self):
        ACTIVE[0] = None

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.endswith(self.files):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def local(self, frame, event, arg):
        if event != ('opcode' if self.opcodes else 'line'):
            return self.local
        me = threading.get_ident()
        where = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
        if self.opcodes:
            where += '+%d' % frame.f_lasti
        with self.lock:
            n = (where, self.seen.get(where, 0))
            self.seen[where] = n[1] + 1
            self.count += 1
            who = self.threads.setdefault(me, len(self.threads))
            if not self.order or self.order[-1][0] != who:
                self.order.append((who, where))
            sleep = 0
            if self.mode == 'pause':
                if n in self.points:
                    sleep = self.pause
                    self.paused_at.append(where)
            elif self.rng.random() < self.probability:
                sleep = self.rng.choice([0, 0, .0005, .002, .006])
                self.paused_at.append(where)
        if sleep or self.mode == 'random':
            time.sleep(sleep)
        return self.local

    def signature(self):
        """The sequence of context switches between the threads."""
        return tuple(self.order)


def run_threads(scripts, timeout=60):
    """Run the functions concurrently; returns the errors they raised, or None if they did not end."""
    errors = []
    barrier = threading.Barrier(len(scripts))

    def run(fn):
        barrier.wait()
        try:
            fn()
        except BaseException as e:
            errors.append(repr(e))

    threads = [threading.Thread(target=run, args=(fn,), daemon=True) for fn in scripts]
    for t in threads:
        t.start()
    end = time.monotonic() + timeout
    for t in threads:
        t.join(max(0, end - time.monotonic()))
        if t.is_alive():
            return None
    return errors
