"""C09: delivery runs off the application thread, exactly once, and flush really drains."""
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, rig  # noqa: E402

CHECK = core.Check(
    'C09', 'exploration',
    'A case is one history of submitted tasks (TaskHandler: fast, slow, failing and blocked tasks, submitters racing '
    'with flush) or of delivered snapshots (real agent: application threads hitting tracepoints, failing, slow and '
    'blocked sends, snapshots that cannot be converted, shutdown). Non-trivial: a task failed or was still running '
    'when the flush started. Distinct by the sorted outcome profile of the history.',
    ['a task that is submitted while a flush is running may be accepted or refused, but must not be dropped',
     'the channel is replaced by one that serialises the request and records thread and content'],
    required=['tasks', 'failed_tasks', 'flushes', 'running_at_flush', 'refused_after_flush', 'racing_submits',
              'racing_accepted', 'racing_refused', 'snapshots_sent', 'failed_sends', 'unconvertible', 'blocked_sends',
              'long_flush_s', 'queued_at_shutdown'])


class Boom(Exception):
    pass


class Seq:
    def __init__(self):
        self.lock = threading.Lock()
        self.events = []

    def __call__(self, *e):
        with self.lock:
            self.events.append(e)
            return len(self.events) - 1


def handler():
    from deep.task import TaskHandler
    return TaskHandler()


def refused(e):
    return type(e).__name__ == 'IllegalStateException' or isinstance(e, RuntimeError)


@CHECK.unit
def tasks(out, rng, params):
    """Histories of tasks."""
    for round_ in range(params['rounds']):
        th = handler()
        seq = Seq()
        gate = threading.Event()
        n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 60])
        kinds = [rng.choice(['ok', 'ok', 'ok', 'slow', 'fail', 'fail', 'exit', 'interrupt', 'blocked', 'slow_fail',
                             'blocked_fail']) for _ in range(n)]
        if rng.random() < .15:
            kinds = [rng.choice(['fail', 'exit']) for _ in kinds]
        main = threading.get_ident()

        def work(i, kind):
            seq('start', i, threading.get_ident())
            try:
                if 'slow' in kind:
                    time.sleep(rng_sleep[i])
                if 'blocked' in kind:
                    gate.wait(60)
                if 'fail' in kind:
                    raise Boom(i)
                if kind == 'exit':
                    raise SystemExit(i)
                if kind == 'interrupt':
                    raise KeyboardInterrupt
                return i
            finally:
                seq('end', i)

        rng_sleep = [rng.choice([.001, .003, .01]) for _ in kinds]
        futures = {}
        for i, kind in enumerate(kinds):
            futures[i] = th.submit_task(work, i, kind)
            seq('accepted', i)
        if rng.random() < .3:
            time.sleep(.01)
        # submitters that race with the flush
        racers = rng.choice([0, 0, 2, 4])
        outcome = {}
        stop = threading.Event()

        def racer(r):
            for k in range(200):
                if stop.is_set():
                    break
                key = ('r', r, k)
                try:
                    f = th.submit_task(racing, key)
                except BaseException as e:
                    outcome[key] = ('refused', seq('refused', key), e)
                    if k > 5:
                        break
                else:
                    outcome[key] = ('accepted', seq('accepted', key), f)
                if pace:
                    time.sleep(pace)

        pace = rng.choice([0, .0005])

        def racing(key):
            seq('start', key, threading.get_ident())
            seq('end', key)

        threads = [threading.Thread(target=racer, args=(r,), daemon=True) for r in range(racers)]
        for t in threads:
            t.start()
        if racers:
            time.sleep(.003)
        blocked = any('blocked' in k for k in kinds)
        timer = threading.Timer(rng.choice([.02, .1, .25]), lambda: (seq('gate'), gate.set()))
        timer.start()
        ended = {e[1] for e in list(seq.events) if e[0] == 'end'}
        running = len([i for i in futures if i not in ended])
        out.count('running_at_flush', 1 if running else 0)
        at = seq('flush')
        error = None
        try:
            th.flush()
        except BaseException as e:
            error = e
        done = seq('flushed')
        out.count('flushes')
        out.check(error is None, 'flush raised', error=repr(error), kinds=kinds)
        late = {}
        for k in range(2):
            try:
                late[k] = th.submit_task(racing, ('late', k))
            except BaseException as e:
                out.check(isinstance(e, BaseException), 'refused')
                out.count('refused_after_flush')
            else:
                out.violation('a task submitted after the flush was accepted', kinds=kinds)
        if rng.random() < .3:
            try:
                th.flush()
            except BaseException as e:
                out.violation('a second flush raised', error=repr(e))
        stop.set()
        for t in threads:
            t.join(30)
        timer.join()
        # everything that was accepted has to be executed
        deadline = time.time() + 20
        accepted = set(futures) | {k for k, v in outcome.items() if v[0] == 'accepted'}
        while time.time() < deadline and len({e[1] for e in list(seq.events) if e[0] == 'end'} & accepted) < len(accepted):
            time.sleep(.002)
        events = list(seq.events)
        starts, ends = {}, {}
        for pos, e in enumerate(events):
            if e[0] == 'start':
                starts.setdefault(e[1], []).append((pos, e[2]))
            elif e[0] == 'end':
                ends.setdefault(e[1], []).append(pos)
        for i in accepted:
            out.check(len(starts.get(i, ())) == 1, 'an accepted task was executed %d times' % len(starts.get(i, ())),
                      task=i, kinds=kinds)
            out.check(all(t != main for _, t in starts.get(i, ())), 'a task was executed on the thread that submitted it')
        before = {e[1] for e in events[:at] if e[0] == 'accepted'}
        for i in before:
            out.check(ends.get(i) and ends[i][0] < done, 'flush returned before an accepted task had finished', task=i,
                      kind=kinds[i] if isinstance(i, int) else 'racing', kinds=kinds)
        for key, v in outcome.items():
            out.count('racing_submits')
            out.count('racing_' + v[0])
            if v[0] == 'refused':
                out.check(key not in starts, 'a refused task was executed', task=key)
                out.check(v[1] > at, 'a task was refused before the flush', task=key, error=repr(v[2]))
        out.count('tasks', n)
        out.count('failed_tasks', sum(1 for k in kinds if k not in ('ok', 'slow', 'blocked')))
        out.case((sorted(kinds), racers, bool(running), len(outcome) > 0),
                 sample={'tasks': kinds[:12], 'racing threads': racers, 'unfinished at flush': running},
                 nontrivial=running > 0 or any('fail' in k for k in kinds))


@CHECK.unit
def long_task(out, rng, params):
    """A task that takes long: the flush has to wait for it."""
    th = handler()
    seen = []

    def work():
        time.sleep(params['seconds'])
        seen.append('end')
        if params['fail']:
            raise Boom()

    def quick():
        seen.append('quick')

    th.submit_task(work)
    for _ in range(3):
        th.submit_task(quick)
    start = time.time()
    try:
        th.flush()
    except BaseException as e:
        out.violation('flush raised', error=repr(e))
    out.check(seen.count('end') == 1, 'flush returned before an accepted task had finished',
              after=time.time() - start, task_takes=params['seconds'])
    out.count('long_flush_s', params['seconds'])
    out.case(('long', params['fail']), nontrivial=True)


SOURCE = '''
def hit(i):
    value = [i, str(i)]
    other = {'i': i, 'v': value}
    return other
'''


@CHECK.unit
def delivery(out, rng, params):
    """Real snapshots."""
    from deep.api.tracepoint import EventSnapshot

    class Observed(EventSnapshot):
        """Observes the thread that reads it, to convert it."""

        readers = None

        @property
        def frames(self):
            if self.readers is not None:
                self.readers.append(threading.get_ident())
            return super().frames

        @property
        def var_lookup(self):
            if self.readers is not None:
                self.readers.append(threading.get_ident())
            return super().var_lookup

    class Broken(EventSnapshot):
        """Cannot be converted."""

        kind = None

        @property
        def frames(self):
            if self.kind is not None:
                raise self.kind
            return super().frames

    for round_ in range(params['rounds']):
        rig.EVENTS.clear()
        path = rig.write_module(rig.scratch(), 'deliver.py', SOURCE)
        code, ns = rig.load_module(path)
        exec(code, ns)
        agent = rig.Agent()
        agent.install([rig.tp('t%d' % k, 'deliver.py', 3 + k % 3, {'fire_count': '-1', 'fire_period': '0'})
                       for k in range(rng.randrange(1, 4))])
        gate = threading.Event()
        release_late = rng.random() < .5
        mode = rng.choice(['blocked', 'free', 'slow'])
        failing = rng.random()
        failed = set()
        timeouts = []
        lock = threading.Lock()
        calls = [0]
        draws = [rng.random() for _ in range(5000)]

        def on_send(msg):
            with lock:
                calls[0] += 1
                d = draws[calls[0] % len(draws)]
            if mode == 'blocked':
                if not gate.wait(60):
                    timeouts.append(1)
            elif mode == 'slow':
                time.sleep(.001)
            if d < failing * .6:
                with lock:
                    failed.add(int.from_bytes(msg.ID, 'big'))
                kind = int(d * 1000) % 4
                if kind == 0:
                    raise rig.FakeRpcError('unavailable')
                if kind == 1:
                    raise SystemExit(1)
                if kind == 2:
                    raise ValueError('broken')
                raise KeyboardInterrupt
            return None

        agent.wire.on_send = on_send
        app = {threading.get_ident()}
        n_threads = rng.choice([1, 2, 4])
        per = rng.choice([5, 20, 60])
        extra = []

        def run(t):
            app.add(threading.get_ident())
            for i in range(per):
                ns['hit'](i)
                if i % 5 == 0:
                    made = None
                    template = next((p['snapshot'] for p in list(agent.pushed) if p['thread'] == threading.get_ident()),
                                    None)
                    if template is not None:
                        cls = Broken if i % 10 else Observed
                        made = cls(template.tracepoint, template.ts_nanos, template.resource,
                                   list(template.frames), dict(template.var_lookup))
                        if cls is Observed:
                            made.readers = []
                        else:
                            made.kind = [ValueError('no'), TypeError('no'), UnicodeError('no'), KeyError('k')][i % 4]
                        try:
                            agent.deep.push.push_snapshot(made)
                        except BaseException as e:
                            out.violation('handing over a snapshot raised', error=repr(e))
                        extra.append(made)

        threads = [threading.Thread(target=run, args=(t,)) for t in range(n_threads)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        # all the hits are done while the deliveries are still blocked
        if mode == 'blocked':
            out.count('blocked_sends')
            out.check(not timeouts, 'the application waited for the delivery')
            out.count('queued_at_shutdown', len(agent.pushed) - len(agent.sent()))
            if release_late:
                threading.Timer(.05, gate.set).start()
            else:
                gate.set()
        error = None
        try:
            agent.stop()
        except BaseException as e:
            error = e
        out.check(error is None, 'the shutdown raised', error=repr(error))
        counts = {}
        for s in agent.wire.sends:
            i = int.from_bytes(s['msg'].ID, 'big')
            counts[i] = counts.get(i, 0) + 1
            out.check(s['thread'] not in app, 'a snapshot was sent on an application thread', name=s['thread_name'])
        for p in agent.pushed:
            snap = p['snapshot']
            n = counts.pop(snap.id, 0)
            if isinstance(snap, Broken):
                out.count('unconvertible')
                out.check(n == 0, 'a snapshot that cannot be converted was sent')
                continue
            out.count('snapshots_sent', n)
            out.check(n == 1, 'a snapshot was sent %d times' % n, failing=failing, mode=mode)
            if isinstance(snap, Observed):
                out.count('conversions_observed', 1 if snap.readers else 0)
                out.check(not set(snap.readers) & app,
                          'a snapshot was converted on an application thread')
        out.check(not counts, 'something else was sent', ids=list(counts)[:3])
        expected = n_threads * per * len(agent._seen[0][1])
        have = len([p for p in agent.pushed if not isinstance(p['snapshot'], (Broken, Observed))])
        out.check(have == expected, 'hits without a snapshot', expected=expected, have=have)
        out.count('failed_sends', len(failed))
        # after the shutdown
        late = agent.pushed[0]['snapshot']
        before = len(agent.wire.sends)
        refused_late = False
        try:
            agent.deep.push.push_snapshot(late)
        except BaseException:
            refused_late = True
        time.sleep(.01)
        out.check(refused_late or len(agent.wire.sends) > before,
                  'a snapshot handed over after closing was dropped silently')
        out.count('refused_after_flush', 1 if refused_late else 0)
        out.case((mode, n_threads, per, int(failing * 10), len(failed)),
                 sample={'mode': mode, 'threads': n_threads, 'snapshots': len(agent.pushed), 'failed sends': len(failed)},
                 nontrivial=bool(failed) or mode != 'free')


@CHECK.planner
def plan(tier, seed):
    q = tier == 'quick'
    return [('long_task', {'seconds': 33, 'fail': False, 'seed': seed}),
            ('long_task', {'seconds': 12, 'fail': True, 'seed': seed})] \
        + ([] if q else [('long_task', {'seconds': 130, 'fail': True, 'seed': seed})]) \
        + core.spread('tasks', 12 if q else 100, seed, rounds=25) \
        + core.spread('delivery', 12 if q else 100, seed, rounds=6)


if __name__ == '__main__':
    sys.exit(CHECK.main())
