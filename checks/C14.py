"""C14: hooks installed once and restored exactly, and a shutdown that always completes."""
import itertools
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import confrig, core, extra, rig  # noqa: E402

import grpc  # noqa: E402
from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType  # noqa: E402

CHECK = core.Check(
    'C14', 'exploration',
    'A case is one history of start, shutdown (both also repeated), hits and changes of the trace hooks by the host, under '
    'one configuration (tracing on or off in all spellings), with hooks of several kinds present before (sys and threading '
    'independently), and with a choice of polls, sends and plugin shutdowns that fail or block. After every step the hooks '
    'have to be what a model of the statement says (identity, and the calls of sys.settrace are audited); after every '
    'shutdown all pushed snapshots were sent, every plugin was shut down once, the polling thread is gone, and nothing '
    'that the agent could do happens again - on this thread, on running threads and on new ones. Non-trivial: a history '
    'with at least one effective shutdown. Distinct by history, configuration, hooks and faults.',
    ['a hook that the host installs while the agent traces is not part of the statement'],
    required=['starts', 'shutdowns', 'repeated_starts', 'repeated_shutdowns', 'shutdown_not_started', 'restarts',
              'no_trace_histories', 'host_hook_changes', 'hook_comparisons', 'plugin_shutdowns', 'plugin_failures',
              'send_failures', 'poll_failures', 'drained', 'live_thread_probes', 'blocked_polls', 'timer_polls',
              'late_updates', 'failed_starts', 'settrace_calls_seen', 'public_starts', 'configuration_flips'])

REPO = None
SETTRACE = []


def audit(event, args):
    if event == 'sys.settrace':
        frame = sys._getframe(1)
        if frame.f_code.co_filename.startswith(REPO):
            SETTRACE.append((frame.f_code.co_filename, frame.f_lineno))


def watch():
    global REPO
    if REPO is None:
        import deep
        REPO = os.path.dirname(deep.__file__) + os.sep
        sys.addaudithook(audit)


class HostTracer:
    """A trace function of the host."""

    def __init__(self):
        self.calls = 0

    def trace(self, frame, event, arg):
        self.calls += 1
        return None

    def __call__(self, frame, event, arg):
        self.calls += 1
        return None


def host_hook(rng):
    """A hook, and the function to count what it got."""
    kind = rng.choice(['none', 'none', 'function', 'method', 'callable', 'lambda', 'partial'])
    if kind == 'none':
        return None, None
    t = HostTracer()
    if kind == 'function':
        def hook(frame, event, arg):
            t.calls += 1
            return None
        return hook, t
    if kind == 'method':
        return t.trace, t
    if kind == 'lambda':
        return (lambda f, e, a: t.trace(f, e, a)), t
    if kind == 'partial':
        import functools
        return functools.partial(t.trace), t
    return t, t


FLIP = object()
NO_TRACE = [('off', 'absent'), ('off', None), ('off', False), ('off', 'False'), ('off', '0'), ('off', 'no'),
            ('off', ''), ('off', lambda: False),
            ('on', True), ('on', 'True'), ('on', 'true'), ('on', '1'), ('on', 'yes'), ('on', 1), ('on', lambda: True),
            ('on', lambda: 'true')]

ERRORS = [Exception, ValueError, KeyError, RuntimeError, KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError,
          RecursionError, StopIteration, AssertionError, OSError, grpc.RpcError, TimeoutError]


class Boom(BaseException):
    pass


def error(rng, sends=False):
    kinds = ERRORS + [Boom]
    kind = rng.choice(kinds)
    return lambda: kind('injected') if kind is not grpc.RpcError else grpc.RpcError()


def worker():
    """A thread that the agent traces, and that goes on after the shutdown."""
    from queue import Queue
    todo, done = Queue(), Queue()

    def run():
        while True:
            fn = todo.get()
            if fn is None:
                return
            fn()
            done.put(1)

    t = threading.Thread(target=run, daemon=True)
    t.start()

    def call(fn):
        todo.put(fn)
        done.get(timeout=60)
    call.stop = lambda: todo.put(None)
    return call


class World:
    def __init__(self, out, rng, timer=None, plugins=None, no_trace=None, bare=False):
        watch()
        self.out, self.rng = out, rng
        self.history = []
        self.mode, value = no_trace or rng.choice(NO_TRACE[:8] if rng.random() < .75 else NO_TRACE[8:])
        self.tracing = self.mode == 'off'
        self.flag = None
        if value is FLIP:
            # the configuration changes: what counts is what it says at the start
            self.flag = [rng.random() < .5]
            self.tracing = not self.flag[0]
            value = lambda: self.flag[0]  # noqa: E731
        n = rng.choice([0, 1, 3, 5]) if plugins is None else plugins
        table = {}
        for i in range(n):
            fail = {}
            if rng.random() < .4:
                fail['shutdown'] = error(rng)
                out.count('plugin_failures')
            table['Extra%d' % i] = {'kinds': rng.choice([(), ('decorator',), ('resource', 'decorator'), ('metric',),
                                                        ('span', 'logger')]),
                                    'order': rng.choice([0, 0, 1, 5, -3]), 'fail': fail}
        extra.reset(table)
        self.table = table
        names = [extra.path(name) for name in table]
        rng.shuffle(names)
        config = {}
        if value != 'absent':
            config['NO_TRACE'] = value
        if timer is not None:
            config['POLL_TIMER'] = timer
        self.old_hooks = sys.gettrace(), threading.gettrace()
        self.agent = rig.Agent(config=config, plugins=['RecLogger'] + names, start=False)
        self.deep = self.agent.deep
        self.probe = confrig.Probe(rig.scratch())
        self.started = False
        self.starts = 0
        self.sys_hook = self.thread_hook = None
        self.tracers = []
        self.workers = []
        self.polls = 0
        self.blocked = 0
        self.config_key = (self.mode, repr(value) if not callable(value) else 'callable', timer is not None,
                           sorted((n_, s['kinds'], s['order'], 'shutdown' in s['fail']) for n_, s in table.items()))
        self.agent.wire.on_send = self.on_send
        poll = self.agent.wire.on_poll
        self.agent.wire.on_poll = lambda request: self.on_poll(poll, request)
        self.send_fail = self.poll_fail = None
        self.send_delay = 0
        self.poll_delay = 0
        self.sends_done = 0
        self.lock = threading.Lock()

    # ---- service
    def on_send(self, snapshot):
        if self.send_delay:
            time.sleep(self.rng.random() * self.send_delay)
        with self.lock:
            self.sends_done += 1
        if self.send_fail is not None and self.rng.random() < .6:
            self.out.count('send_failures')
            raise self.send_fail()
        return None

    def on_poll(self, poll, request):
        self.polls += 1
        if self.poll_delay:
            self.blocked += 1
            time.sleep(self.poll_delay)
        if self.poll_fail is not None:
            self.out.count('poll_failures')
            raise self.poll_fail()
        return poll(request)

    # ---- hooks
    def set_hooks(self, which):
        if which in ('sys', 'both'):
            self.sys_hook, t = host_hook(self.rng)
            if t is not None:
                self.tracers.append(t)
            sys.settrace(self.sys_hook)
        if which in ('thread', 'both'):
            self.thread_hook, t = host_hook(self.rng)
            threading.settrace(self.thread_hook)

    def judge_hooks(self, when):
        out = self.out
        hooks = sys.gettrace(), threading.gettrace()
        out.count('hook_comparisons')
        if self.started and self.tracing:
            return out.check(hooks[0] is not None and hooks[1] is not None and hooks[0] is not self.sys_hook and
                             hooks[1] is not self.thread_hook and hooks[0] == hooks[1] and
                             (self.agent_hook is None or self.agent_hook == hooks[0]),
                             'the trace hooks of the running agent are not installed', when=when, hooks=hooks,
                             history=self.history)
        what = 'the trace hooks are not those from before the start'
        if self.started:
            what = 'an agent with disabled tracing changed the trace hooks'
        elif not self.starts:
            what = 'an agent that was never started changed the trace hooks'
        return out.check(hooks[0] is self.sys_hook and hooks[1] is self.thread_hook, what, when=when, hooks=hooks,
                         want=(self.sys_hook, self.thread_hook), history=self.history)

    def close(self):
        for w in self.workers:
            w.stop()
        sys.settrace(None)
        threading.settrace(None)
        self.started = False
        grpc.insecure_channel, grpc.secure_channel = self.agent._orig

    # ---- the operations
    def start(self):
        out = self.out
        before = len(SETTRACE)
        instances = len(extra.INSTANCES)
        polls = self.polls
        again = self.started
        if self.flag and not again:
            self.tracing = not self.flag[0]
        f_trace = sys._getframe().f_trace
        self.deep.start()
        out.check(again or sys._getframe().f_trace is f_trace, 'start changed the trace function of the frame of its caller',
                  before=f_trace, after=sys._getframe().f_trace, history=self.history)
        calls = len(SETTRACE) - before
        out.count('settrace_calls_seen', calls)
        if again:
            out.count('repeated_starts')
            out.check(calls == 0, 'a repeated start sets the trace function again', history=self.history)
            out.check(len(extra.INSTANCES) == instances, 'a repeated start loads the plugins again', history=self.history)
            if self.agent.cfg['POLL_TIMER'] == 36000:
                out.check(self.polls == polls, 'a repeated start polls again', history=self.history)
            return
        out.count('starts')
        self.starts += 1
        if self.starts > 1:
            out.count('restarts')
        self.started = True
        self.cycle = extra.INSTANCES[instances:]
        self.agent_hook = sys.gettrace() if self.tracing else None
        out.check(calls == (1 if self.tracing else 0), 'start does not set the trace function once', calls=calls,
                  mode=self.mode, history=self.history)
        out.check(self.deep.started, 'the agent is not started')

    def shutdown(self):
        out = self.out
        before = len(SETTRACE)
        seen = len(rig.events('plugin_shutdown'))
        effective = self.started
        pushed = len(self.agent.pushed)
        try:
            self.deep.shutdown()
        except BaseException as e:
            out.violation('shutdown raised', error=repr(e), history=self.history)
        self.started = False
        shut = [(d['plugin'], d['number']) for d in rig.events('plugin_shutdown')[seen:]]
        out.check(not self.deep.started, 'the agent is started after a shutdown')
        if not effective:
            out.count('repeated_shutdowns' if self.starts else 'shutdown_not_started')
            out.check(not shut and len(SETTRACE) == before, 'a shutdown of an agent that is not started has effects',
                      plugins=shut, settrace=SETTRACE[before:], history=self.history)
            return
        out.count('shutdowns')
        out.count('settrace_calls_seen', len(SETTRACE) - before)
        if not self.tracing:
            out.check(len(SETTRACE) == before, 'an agent with disabled tracing sets the trace function', history=self.history)
        want = sorted((name, number) for name, number, _ in self.cycle)
        out.count('plugin_shutdowns', len(shut))
        out.check(sorted(shut) == want, 'the plugins are not all shut down once', got=sorted(shut), want=want,
                  failing=[n for n, s in self.table.items() if s['fail']], history=self.history)
        with self.lock:
            done = self.sends_done
        out.check(done == len(self.agent.pushed) and pushed == len(self.agent.pushed),
                  'the shutdown does not drain the delivery', pushed=pushed, sent=done, history=self.history)
        out.count('drained', pushed)

    def hit(self):
        """Hits, on this thread, on a running thread and on a new one."""
        out = self.out
        active = self.started and self.tracing and self.installed
        for where in ('here', 'running', 'new', 'direct'):
            n = len(rig.EVENTS)
            calls = sum(t.calls for t in self.tracers)
            if where == 'here':
                self.probe.ns['probe']()
            elif where == 'running':
                if not self.workers or self.started and not self.tracing:
                    # (a thread can be traced since an earlier start)
                    continue
                self.workers[0](self.probe.ns['probe'])
                out.count('live_thread_probes')
            elif where == 'new':
                t = threading.Thread(target=self.probe.ns['probe'])
                t.start()
                t.join()
            elif not self.started and self.starts:
                # a thread that still has the function of the agent
                old = sys.gettrace()
                sys.settrace(self.deep.trigger_handler.trace_call)
                try:
                    self.probe.ns['probe']()
                finally:
                    sys.settrace(old)
            else:
                continue
            acted = [k for k, _ in rig.EVENTS[n:] if k in ('log', 'push', 'metric', 'span_open')]
            if active and where != 'running':
                ok = out.check(len(acted) > 0, 'the started agent does not act', where=where, history=self.history)
            elif active:
                ok = True
            else:
                ok = out.check(not acted, 'an agent that does not trace acts', where=where, acted=acted,
                               started=self.started, history=self.history)
            if where == 'here' and self.sys_hook is not None and not (self.started and self.tracing):
                out.check(sum(t.calls for t in self.tracers) > calls, 'the hook of the host gets no events',
                          history=self.history)
            if not ok:
                return False
        return True

    installed = False
    agent_hook = None

    def install(self, snapshots='-1'):
        tps = [rig.tp('log', confrig.BASE, confrig.line_of(1), dict(confrig.UNLIMITED, log_msg='x', snapshot='no_collect')),
               rig.tp('snap', confrig.BASE, confrig.line_of(2), dict(confrig.UNLIMITED, fire_count=snapshots)),
               rig.tp('span', confrig.BASE, confrig.line_of(3), dict(confrig.UNLIMITED, span='line', snapshot='no_collect')),
               rig.tp('metric', confrig.BASE, confrig.line_of(4), dict(confrig.UNLIMITED, snapshot='no_collect'), [],
                      [rig.metric('m')])]
        fail, self.poll_fail = self.poll_fail, None
        delay, self.poll_delay = self.poll_delay, 0
        self.agent.install(tps)
        self.poll_fail, self.poll_delay = fail, delay
        self.installed = True


SEQUENCES = ['SX', 'X', 'XSX', 'SSX', 'SSSXX', 'SXX', 'SXSX', 'SXHSX', 'SXSXX', 'SHX', 'HSX', 'SXSSXX', 'XX', 'SSXSSX',
             'SXHSXH', 'SHXHSHX', 'SXSXSX', 'XSXXSXX']


def run_sequence(out, rng, sequence, w):
    if rng.random() < .8:
        w.set_hooks('both')
    ok = True
    for op in sequence:
        w.history.append(op)
        if op == 'S':
            was = w.started
            w.poll_fail = error(rng) if rng.random() < .2 else None
            if w.poll_fail is not None and not isinstance(w.poll_fail(), Exception):
                w.poll_fail = None
            w.start()
            w.poll_fail = None
            if not was:
                if w.tracing and rng.random() < .5:
                    w.workers.append(worker())
                if rng.random() < .85:
                    w.install()
                w.workers[:-1] = []
        elif op == 'X':
            w.send_fail = error(rng) if rng.random() < .5 else None
            w.send_delay = rng.choice([0, .01])
            w.poll_fail = error(rng) if rng.random() < .5 else None
            if w.started and w.tracing and w.installed and rng.random() < .7:
                for _ in range(rng.choice([1, 3, 8])):
                    w.probe.ns['probe']()
            w.shutdown()
            w.poll_fail = w.send_fail = None
        elif op == 'F' and w.flag:
            w.flag[0] = not w.flag[0]
            out.count('configuration_flips')
        elif op == 'H' and not (w.started and w.tracing):
            w.set_hooks(rng.choice(['sys', 'thread', 'both']))
            out.count('host_hook_changes')
        ok = w.judge_hooks('after %s' % op) and ok
        if ok and rng.random() < .7:
            ok = w.hit()
            ok = w.judge_hooks('after hits') and ok
        if not ok:
            return False
    polls = w.polls
    if w.started:
        w.history.append('X')
        w.shutdown()
        ok = w.judge_hooks('end') and w.hit()
        polls = w.polls
    n = len(rig.EVENTS)
    if rng.random() < .2:
        time.sleep(.02)
    out.check(len(rig.EVENTS) == n and w.polls == polls, 'the agent acts after its shutdown', history=w.history)
    return ok


@CHECK.unit
def histories(out, rng, params):
    end = time.monotonic() + params['seconds']
    for i in itertools.count():
        if time.monotonic() > end:
            break
        if i < len(SEQUENCES):
            sequence = SEQUENCES[i]
        else:
            sequence = ''.join(rng.choice('SSXXH') for _ in range(rng.choice([3, 5, 8, 12])))
        if rng.random() < .25:
            sequence = ''.join(c + ('F' if rng.random() < .4 else '') for c in sequence)
            w = World(out, rng, no_trace=('flip', FLIP))
        else:
            w = World(out, rng)
        if not w.tracing:
            out.count('no_trace_histories')
        try:
            ok = run_sequence(out, rng, sequence, w)
            out.case((sequence, w.config_key, type(w.sys_hook).__name__, type(w.thread_hook).__name__),
                     {'sequence': sequence, 'no_trace': w.config_key[1], 'plugins': w.config_key[3]},
                     any(a == 'S' and 'X' in sequence[j:] for j, a in enumerate(sequence)))
        finally:
            w.close()
        if not ok:
            return


@CHECK.unit
def drain(out, rng, params):
    """Deliveries that are still under way (and fail) when the shutdown starts."""
    end = time.monotonic() + params['seconds']
    while time.monotonic() < end:
        w = World(out, rng, no_trace=('off', False))
        gate = threading.Event()
        try:
            w.set_hooks('both')
            w.start()
            w.install()
            w.send_fail = error(rng) if rng.random() < .7 else None
            finished = []

            def on_send(snapshot):
                gate.wait(60)
                try:
                    return w.on_send(snapshot)
                finally:
                    finished.append(snapshot)

            w.agent.wire.on_send = on_send
            n = rng.choice([1, 2, 3, 10, 30])
            for _ in range(n):
                w.probe.ns['probe']()
            w.history = ['S', 'hits %d' % n, 'X']
            stopped = []
            by_timer = threading.Timer(rng.choice([.01, .05]), lambda: (stopped.append(w.deep.started), gate.set()))
            sys.settrace(None)  # the timer is ours
            threading.settrace(None)
            by_timer.start()
            if w.tracing:
                sys.settrace(w.agent_hook)
                threading.settrace(w.agent_hook)
            w.shutdown()
            out.check(len(finished) == n, 'the shutdown returned before the deliveries ended', finished=len(finished), n=n)
            w.judge_hooks('after the shutdown')
            w.hit()
            out.case(('drain', n, w.config_key, w.send_fail is not None), {'pending': n}, True)
        finally:
            gate.set()
            w.close()
        if out.violations:
            return


@CHECK.unit
def timer(out, rng, params):
    """The real timer: polls that fail, block or bring an update while the agent shuts down."""
    end = time.monotonic() + params['seconds']
    while time.monotonic() < end:
        w = World(out, rng, timer=rng.choice([.01, .03]), no_trace=('off', False) if rng.random() < .7 else ('on', True))
        try:
            w.set_hooks('both')
            polling = set()
            times = []
            inner = w.agent.wire.on_poll

            def on_poll(request):
                polling.add(threading.current_thread())
                times.append(time.monotonic())
                return inner(request)

            w.agent.wire.on_poll = on_poll
            w.start()
            for _ in range(rng.choice([0, 1, 3])):
                w.start()
            me = threading.current_thread()
            mode = rng.choice(['plain', 'fails', 'blocks', 'update', 'blocks and fails', 'blocks and updates'])
            if 'fails' in mode:
                w.poll_fail = error(rng)
            if 'blocks' in mode:
                w.poll_delay = .1
            if rng.random() < .6:
                w.install()
            t = time.monotonic() + rng.choice([.02, .1, .15])
            while time.monotonic() < t or not polling - {me}:
                time.sleep(.005)
                if time.monotonic() > t + 30:
                    out.violation('the timer does not poll', mode=mode)
                    return
            out.check(len(polling - {me}) == 1, 'more than one thread polls', threads=len(polling - {me}))
            if 'update' in mode:
                w.agent._pending = PollResponse(
                    response_type=ResponseType.UPDATE, ts_nanos=5, current_hash='late',
                    response=[rig.tp('late', confrig.BASE, confrig.line_of(5), dict(confrig.UNLIMITED, log_msg='late',
                                                                                   snapshot='no_collect'))])
                out.count('late_updates')
            if w.poll_delay:
                # shutdown while a poll is under way
                t = time.monotonic() + 30
                seen = w.blocked
                while w.blocked == seen and time.monotonic() < t:
                    time.sleep(.001)
                out.count('blocked_polls')
            w.history = ['S', mode, 'X']
            w.shutdown()
            polls = len(times)
            alive = [t for t in polling - {me} if t.is_alive()]
            time.sleep(rng.choice([.06, .2]))
            out.check(not alive, 'the polling thread is alive after the shutdown', mode=mode)
            out.check(len(times) == polls, 'the agent polls after the shutdown', mode=mode, polls=len(times) - polls)
            out.count('timer_polls', polls)
            w.judge_hooks('after the shutdown')
            w.installed = True
            w.hit()
            out.case(('timer', mode, w.config_key), {'mode': mode, 'polls': polls}, True)
        finally:
            w.close()
        if out.violations:
            return


@CHECK.unit
def running(out, rng, params):
    """Threads that hit tracepoints all the time while the agent shuts down."""
    end = time.monotonic() + params['seconds']
    while time.monotonic() < end:
        w = World(out, rng, no_trace=('off', False))
        stop = threading.Event()
        try:
            w.set_hooks('both')
            own_hook, own_tracer = HostTracer(), None
            own_seen = []
            ready, check_own = threading.Event(), threading.Event()

            def own():
                sys.settrace(own_hook)
                ready.set()
                while not check_own.is_set():
                    check_own.wait(.01)
                own_seen.append(sys.gettrace())

            owner = threading.Thread(target=own, daemon=True)
            owner.start()
            ready.wait(60)
            w.start()
            w.install(rng.choice(['50', '300']))
            counts = [0] * rng.choice([1, 3, 6])

            def loop(i):
                while not stop.is_set():
                    w.probe.ns['probe']()
                    counts[i] += 1

            threads = [threading.Thread(target=loop, args=(i,), daemon=True) for i in range(len(counts))]
            for t in threads:
                t.start()
            time.sleep(rng.choice([0, .005, .03]))
            w.send_fail = error(rng) if rng.random() < .5 else None
            polled = w.polls
            try:
                w.deep.shutdown()
            except BaseException as e:
                out.violation('shutdown raised', error=repr(e))
            w.started = False
            sent = len(w.agent.wire.sends)
            done = w.sends_done
            out.check(sent == done, 'the shutdown returned before the deliveries ended', sent=sent, done=done)
            w.judge_hooks('after the shutdown')
            # a hit that began before the end of the shutdown can still be on its way, the next ones cannot
            mark = list(counts)
            t = time.monotonic() + 60
            while any(c < m + 2 for c, m in zip(counts, mark)) and time.monotonic() < t:
                time.sleep(.001)
            n = len(rig.EVENTS)
            mark = list(counts)
            while any(c < m + 3 for c, m in zip(counts, mark)) and time.monotonic() < t:
                time.sleep(.001)
            time.sleep(.01)
            late = [k for k, _ in rig.EVENTS[n:] if k in ('log', 'push', 'metric', 'span_open')]
            out.check(not late, 'a running thread still triggers actions after the shutdown', late=late[:5])
            out.check(len(w.agent.wire.sends) == sent, 'a snapshot is sent after the shutdown')
            out.check(w.polls == polled, 'the agent polls after the shutdown')
            out.count('live_thread_probes', sum(counts))
            stop.set()
            check_own.set()
            owner.join(60)
            out.check(own_seen == [own_hook], 'the trace function of another thread was changed', got=own_seen)
            for t in threads:
                t.join(60)
            out.case(('running', len(counts), w.config_key, sent % 7), {'threads': len(counts), 'sent': sent}, True)
        finally:
            stop.set()
            w.close()
        if out.violations:
            return


@CHECK.unit
def failed_start(out, rng, params):
    """A start that fails, and the shutdown after it."""
    for _ in range(params['n']):
        w = World(out, rng, no_trace=rng.choice(NO_TRACE))
        try:
            w.set_hooks('both')
            how = rng.choice(['channel', 'thread', 'poll'])
            orig_start = threading.Thread.start
            orig = grpc.insecure_channel
            if how == 'channel':
                def insecure_channel(*a, **k):
                    raise Boom('no channel')
                grpc.insecure_channel = insecure_channel
            elif how == 'thread':
                def start(self):
                    raise RuntimeError("can't start new thread")
                threading.Thread.start = start
            else:
                w.poll_fail = lambda: Boom('poll')
            raised = None
            try:
                w.deep.start()
            except BaseException as e:
                raised = e
            finally:
                threading.Thread.start = orig_start
                grpc.insecure_channel = orig
                w.poll_fail = None
            out.count('failed_starts')
            w.history = ['start fails: ' + how, repr(raised)]
            w.starts = 1
            if raised is None:
                # it copes with it, so it is started
                w.started = True
                w.cycle = list(extra.INSTANCES)
                w.agent_hook = sys.gettrace() if w.tracing else None
                w.shutdown()
            else:
                w.deep.shutdown()
            w.judge_hooks('after the shutdown')
            polls = w.polls
            w.hit()
            if rng.random() < .5:
                w.history.append('SX')
                w.start()
                w.install()
                w.judge_hooks('after the start')
                w.hit()
                w.shutdown()
                w.judge_hooks('after the shutdown')
                w.hit()
                polls = w.polls
            out.check(polls == w.polls, 'polls after the shutdown')
            out.case(('failed start', how, w.config_key), None, True)
        finally:
            w.close()
        if out.violations:
            return


@CHECK.unit
def public(out, rng, params):
    """The same through deep.start, with the configuration of a user."""
    import deep
    watch()
    for _ in range(params['n']):
        wire = rig.Wire()
        orig = grpc.insecure_channel, grpc.secure_channel
        grpc.insecure_channel = grpc.secure_channel = lambda target, *a, **k: rig.FakeChannel(wire)
        try:
            mode, value = rng.choice(NO_TRACE)
            extra.reset({'Extra0': {'fail': {'shutdown': error(rng)} if rng.random() < .5 else {}}, 'Extra1': {}})
            config = {'SERVICE_URL': 'fake:1', 'LOGGING_CONF': rig.SILENT_CONF, 'POLL_TIMER': rng.choice([.02, '0.02', 10]),
                      'PLUGINS': [extra.path('Extra0'), extra.path('Extra1')]}
            if value != 'absent':
                config['NO_TRACE'] = value
            hooks = host_hook(rng)[0], host_hook(rng)[0]
            sys.settrace(hooks[0])
            threading.settrace(hooks[1])
            agent = deep.start(config)
            running_ = sys.gettrace(), threading.gettrace()
            untouched = running_[0] is hooks[0] and running_[1] is hooks[1]
            if mode == 'on':
                out.check(untouched, 'an agent with disabled tracing changed the trace hooks', hooks=running_, value=repr(value))
            else:
                out.check(running_[0] is not None and running_[0] == running_[1] and running_[0] is not hooks[0],
                          'the trace hooks of the running agent are not installed', hooks=running_)
            agent.start()
            out.check((sys.gettrace(), threading.gettrace()) == running_, 'a repeated start changed the hooks')
            seen = len(rig.events('plugin_shutdown'))
            agent.shutdown()
            agent.shutdown()
            out.check(sys.gettrace() is hooks[0] and threading.gettrace() is hooks[1],
                      'the trace hooks are not those from before the start', got=(sys.gettrace(), threading.gettrace()),
                      want=hooks)
            shut = sorted(d['plugin'] for d in rig.events('plugin_shutdown')[seen:])
            out.check(shut == ['Extra0', 'Extra1'], 'the plugins are not all shut down once', shut=shut)
            sys.settrace(None)
            threading.settrace(None)
            polls = len(wire.polls)
            out.check(polls > 0, 'the started agent does not poll')
            time.sleep(.05)
            out.check(len(wire.polls) == polls, 'the agent polls after the shutdown')
            out.count('public_starts')
            out.case(('public', mode, repr(value)[:10], type(hooks[0]).__name__, type(hooks[1]).__name__), None, True)
        finally:
            sys.settrace(None)
            threading.settrace(None)
            grpc.insecure_channel, grpc.secure_channel = orig
        if out.violations:
            return


@CHECK.planner
def plan(tier, seed):
    if tier == 'quick':
        return core.spread('histories', 8, seed, seconds=8) + core.spread('drain', 2, seed, seconds=5) + \
            core.spread('timer', 4, seed, seconds=8) + core.spread('running', 4, seed, seconds=8) + \
            core.spread('failed_start', 2, seed, n=40) + core.spread('public', 2, seed, n=25)
    return core.spread('histories', 24, seed, seconds=60) + core.spread('drain', 8, seed, seconds=60) + \
        core.spread('timer', 16, seed, seconds=60) + core.spread('running', 16, seed, seconds=60) + \
        core.spread('failed_start', 8, seed, n=500) + core.spread('public', 8, seed, n=300)


if __name__ == '__main__':
    sys.exit(CHECK.main())
