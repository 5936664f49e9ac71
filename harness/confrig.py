"""Shared by the checks of the configuration: what is installed is observed by what the agent does in a probe program."""
import os
import sys
import threading
import time
from collections import Counter
from concurrent.futures import wait

from harness import core, rig

SLOTS = 12
METHODS = ['m%d' % i for i in range(4)]
BASE = 'probe_file.py'
UNLIMITED = {'fire_count': '-1', 'fire_period': '0'}


def source():
    lines = ['def probe():']
    for i in range(SLOTS):
        lines.append('    slot = %d' % i)
    for m in METHODS:
        lines.append('    %s()' % m)
    lines.append('    return slot')
    for m in METHODS:
        lines += ['', 'def %s():' % m, '    inside = 1', '    return inside']
    return '\n'.join(lines) + '\n'


def line_of(slot):
    return slot + 2


class Probe:
    """Runs the probe program under the agent and reports which tracepoints acted, and how often."""

    def __init__(self, tmp):
        self.path = rig.write_module(tmp, BASE, source())
        code, self.ns = rig.load_module(self.path)
        exec(code, self.ns)

    def fired(self, agent):
        with rig.EVENTS_LOCK:
            before = len(rig.EVENTS)
        sys.settrace(agent.deep.trigger_handler.trace_call)
        try:
            self.ns['probe']()
        finally:
            sys.settrace(None)
        with rig.EVENTS_LOCK:
            seen = rig.EVENTS[before:]
        return seen

    def tags(self, agent):
        return Counter(d['msg'].split(' ', 1)[1] for k, d in self.fired(agent) if k == 'log')


def location(rng):
    """A location of the probe: (line, args)."""
    if rng.random() < .25:
        return 0, {'method_name': rng.choice(METHODS)}
    return line_of(rng.randrange(SLOTS)), {}


class Settler:
    """Knows when the tasks that the agent submitted are done."""

    def __init__(self, agent):
        self.futures = []
        self.lock = threading.Lock()
        handler = agent.deep.task_handler
        orig = handler.submit_task

        def submit_task(task, *args):
            future = orig(task, *args)
            with self.lock:
                self.futures.append(future)
            return future

        handler.submit_task = submit_task

    def settle(self, timeout=60):
        end = time.monotonic() + timeout
        while True:
            with self.lock:
                pending = list(self.futures)
            wait(pending, max(0, end - time.monotonic()))
            with self.lock:
                if len(self.futures) == len(pending) and all(f.done() for f in pending):
                    self.futures = []
                    break
            if time.monotonic() > end:
                return False
        time.sleep(.001)
        return True


def bad_tracepoints(rng, n):
    out = []
    for i in range(n):
        kind = rng.randrange(4)
        line, args = location(rng)
        if kind == 0:
            out.append(rig.tp('bad%d' % i, BASE, line, dict(UNLIMITED, stage='nope', log_msg='bad', snapshot='no_collect')))
        elif kind == 1:
            out.append(rig.tp('bad%d' % i, BASE, line, dict(UNLIMITED, snapshot='no_collect'), [], [rig.metric('bad', 77)]))
        elif kind == 2:
            out.append(rig.tp('', '', 0))
        else:
            out.append(rig.tp('bad%d' % i, 'else.py', line, dict(UNLIMITED, fire_count='x')))
    return out
