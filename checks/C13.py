"""C13: a registration in code becomes active, and its handle removes exactly it."""
import itertools
import os
import sys
import threading
import time
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import confrig, core, interleave, rig  # noqa: E402

from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType  # noqa: E402

CHECK = core.Check(
    'C13', 'exploration',
    'A case is one history of register, unregister (also twice, from other threads, after a shutdown) and service updates '
    'on few locations, so that most registrations share their file and line. After every step (sequential histories) or '
    'after all steps (concurrent histories, with a pause at one instruction of the agent) the probe program shows which '
    'registrations act; this has to be the multiset of the registrations that are not removed, plus the configuration of '
    'the service, each with its own arguments, watches and metrics. Non-trivial: a removal while another registration is '
    'on the same location. Distinct by (history, order of context switches).',
    ['what is observed is the effect of a tracepoint in the probe program'],
    required=['registered', 'unregistered', 'twice', 'shared_location_removals', 'service_updates', 'identical_twins',
              'content_checks', 'concurrent_histories', 'after_shutdown', 'before_start', 'metrics_seen', 'watches_seen',
              'removal_of_foreign_location'])

FILES = ('config/tracepoint_config.py', 'api/deep.py', 'api/tracepoint/trigger.py', 'processor/trigger_handler.py')
_ids = itertools.count(1)


class Reg:
    """A registration, and what it has to do."""

    def __init__(self, rng, line, args, kind, twin=None):
        self.kind = kind
        self.line = line
        self.metrics = []
        self.watches = []
        if twin is not None:
            # the same registration once more
            self.tag, self.args, self.watches, self.metrics = twin.tag, dict(twin.args), list(twin.watches), twin.metrics
            return
        self.tag = 'r%d' % next(_ids)
        self.args = dict(confrig.UNLIMITED, **args)
        if kind == 'log':
            self.args.update(log_msg=self.tag, snapshot='no_collect')
        elif kind == 'metric':
            self.args['snapshot'] = 'no_collect'
            self.metrics = ['%s-m%d' % (self.tag, i) for i in range(rng.choice([1, 2]))]
        else:
            self.args.update(frame_type='no_frame', note=self.tag)
            self.watches = ['"%s"' % self.tag] + rng.choice([[], ['1 + 1'], ['slot', 'nope']])
            if rng.random() < .3:
                self.metrics = ['%s-m0' % self.tag]

    def effects(self):
        c = Counter()
        if self.kind == 'log':
            c[('log', self.tag)] = 1
        if self.kind == 'snapshot':
            c[('push', self.tag)] = 1
        for m in self.metrics:
            c[('metric', m)] = 1
        return c

    def register(self, agent, rng):
        from deep.api.tracepoint.tracepoint_config import MetricDefinition
        metrics = [MetricDefinition(m, rng.choice(['counter', 'gauge'])) for m in self.metrics]
        args = dict(self.args)
        watches = list(self.watches)
        how = rng.random()
        if how < .3 and not watches and not metrics:
            handle = agent.deep.register_tracepoint(confrig.BASE, self.line, args)
        elif how < .6:
            handle = agent.deep.register_tracepoint(confrig.BASE, self.line, args, watches, metrics)
        else:
            handle = agent.deep.register_tracepoint(path=confrig.BASE, line=self.line, args=args,
                                                    watches=watches or None, metrics=metrics or None)
        if rng.random() < .3:
            # what the caller does with its own objects is not our concern
            args.clear()
            del watches[:], metrics[:]
        return handle

    def spec(self):
        return (self.kind, self.line, self.args.get('method_name'))


def effects(events):
    c, pushes = Counter(), []
    for kind, d in events:
        if kind == 'log':
            c[('log', d['msg'].split(' ', 1)[1])] += 1
        elif kind == 'metric':
            c[('metric', d['name'])] += 1
        elif kind == 'push':
            s = d['snapshot']
            c[('push', s.tracepoint.args.get('note') or s.tracepoint.id)] += 1
            pushes.append(s)
    return c, pushes


class World:
    def __init__(self, out, rng, start=True):
        interleave.watch_new_threads()
        self.out, self.rng = out, rng
        self.agent = rig.Agent(config={'NO_TRACE': True}, plugins=('RecLogger', 'RecMetrics'), start=start)
        self.probe = confrig.Probe(rig.scratch())
        self.settler = confrig.Settler(self.agent)
        self.service = []
        self.live = []
        self.dead = []
        self.locations = [confrig.location(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        self.history = []

    def new(self, twins=True):
        rng = self.rng
        line, args = rng.choice(self.locations)
        kind = rng.choice(['log', 'log', 'snapshot', 'metric'])
        same = [r for r, _ in self.live if (r.line, r.args.get('method_name')) == (line, args.get('method_name'))]
        if twins and same and rng.random() < .15:
            self.out.count('identical_twins')
            twin = rng.choice(same)
            return Reg(rng, line, args, twin.kind, twin)
        return Reg(rng, line, args, kind)

    def update_service(self):
        """The service sends a configuration, partly on the same locations."""
        rng = self.rng
        kept = [s for s in self.service if rng.random() < .5]
        for _ in range(rng.choice([0, 1, 2])):
            tag = 's%d' % next(_ids)
            line, args = rng.choice(self.locations) if rng.random() < .7 else confrig.location(rng)
            kept.append((tag, rig.tp(tag, confrig.BASE, line, dict(confrig.UNLIMITED, log_msg=tag, snapshot='no_collect',
                                                                   **args))))
        self.service = kept
        self.poll(kept)
        self.out.count('service_updates')

    def poll(self, tps):
        n = next(_ids)
        self.agent._pending = PollResponse(response_type=ResponseType.UPDATE, ts_nanos=n, current_hash='h%d' % n,
                                           response=[p for _, p in tps])
        self.agent.deep.poll.poll()

    def expected(self):
        c = Counter()
        for r, _ in self.live:
            c += r.effects()
        for tag, _ in self.service:
            c[('log', tag)] += 1
        return c

    def judge(self, when):
        out = self.out
        if not self.settler.settle():
            raise core.Inconclusive('the agent did not settle')
        got, pushes = effects(self.probe.fired(self.agent))
        want = self.expected()
        ok = out.check(got == want, 'the active tracepoints are not those that are registered: %s%s' % (
            'a removed one (or another one) acts' if got - want else '', ' a registered one does not' if want - got else ''),
            extra=dict(got - want), missing=dict(want - got), when=when, history=self.history[-12:])
        for s in pushes:
            regs = [r for r, _ in self.live if r.kind == 'snapshot' and r.tag == s.tracepoint.args.get('note')]
            if not regs:
                continue
            r = regs[0]
            out.count('content_checks')
            out.count('watches_seen', len(s.watches))
            watches = [w.expression for w in s.watches if w.source == 'WATCH']
            out.check(dict(s.tracepoint.args) == r.args and list(s.tracepoint.watches) == r.watches and
                      watches == r.watches and s.tracepoint.path == confrig.BASE,
                      'a registration does not act with its own arguments and watches', args=dict(s.tracepoint.args),
                      want=r.args, watches=watches, want_watches=r.watches)
        out.count('metrics_seen', sum(n for (k, _), n in got.items() if k == 'metric'))
        return ok

    def remove(self, index, twice=False):
        reg, handle = self.live.pop(index)
        others = [r for r, _ in self.live if r.spec()[1:] == reg.spec()[1:]]
        if others:
            self.out.count('shared_location_removals')
        elif self.live:
            self.out.count('removal_of_foreign_location')
        handle.unregister()
        self.dead.append((reg, handle))
        self.out.count('unregistered')


@CHECK.unit
def sequential(out, rng, params):
    end = time.monotonic() + params['seconds']
    for _ in range(params['histories']):
        if time.monotonic() > end:
            break
        early = rng.random() < .15
        w = World(out, rng, start=not early)
        if early:
            out.count('before_start')
            for _ in range(rng.choice([1, 2, 3])):
                reg = w.new()
                w.live.append((reg, reg.register(w.agent, rng)))
                out.count('registered')
            if rng.random() < .5:
                w.remove(rng.randrange(len(w.live)))
            w.agent.deep.start()
            w.judge('after the start')
        ok = True
        nontrivial = False
        for step in range(rng.choice([4, 8, 16])):
            r = rng.random()
            if r < .45 or not w.live:
                reg = w.new()
                w.live.append((reg, reg.register(w.agent, rng)))
                w.history.append(('register', reg.tag) + reg.spec())
                out.count('registered')
            elif r < .7:
                i = rng.randrange(len(w.live))
                reg = w.live[i][0]
                nontrivial = nontrivial or len(w.live) > 1
                w.history.append(('unregister', reg.tag))
                w.remove(i)
            elif r < .8 and w.dead:
                reg, handle = rng.choice(w.dead)
                w.history.append(('unregister again', reg.tag))
                for _ in range(rng.choice([1, 3])):
                    try:
                        handle.unregister()
                    except BaseException as e:
                        out.violation('a second unregister raised', error=repr(e))
                out.count('twice')
            elif r < .85:
                w.history.append(('bad registration',))
                try:
                    handle = w.agent.deep.register_tracepoint(confrig.BASE, 3, {'stage': 'nope', 'log_msg': 'bad'}, ['x'])
                    handle.unregister()
                except Exception as e:
                    out.violation('a registration that cannot be interpreted raised', error=repr(e))
            else:
                w.history.append(('service update',))
                w.update_service()
            if rng.random() < .6:
                ok = w.judge(step)
            if not ok:
                break
        ok = ok and w.judge('end')
        if ok:
            # one after the other
            while w.live and ok:
                w.remove(rng.randrange(len(w.live)))
                if rng.random() < .5 or len(w.live) < 2:
                    ok = w.judge('removal of all')
            ok = ok and w.judge('all removed')
        out.case([h[:1] + h[2:] for h in w.history], {'history': w.history[:8]}, nontrivial)
        late = w.new()
        w.live.append((late, late.register(w.agent, rng)))
        w.agent.stop()
        out.count('after_shutdown')
        for reg, handle in w.dead + w.live:
            try:
                handle.unregister()
            except BaseException as e:
                out.violation('unregister after the shutdown raised', error=repr(e))
        if not ok:
            return


@CHECK.unit
def concurrent(out, rng, params):
    end = time.monotonic() + params['seconds']
    w = World(out, rng)
    points = []
    while time.monotonic() < end:
        w.history = []
        plans = []
        shared = list(w.live)
        for t in range(rng.choice([2, 3])):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                if shared and rng.random() < .5:
                    ops.append(('unregister', shared.pop(rng.randrange(len(shared)))))
                elif w.dead and rng.random() < .2:
                    ops.append(('again', rng.choice(w.dead)))
                else:
                    ops.append(('register', w.new(twins=False)))
            plans.append(ops)
        added, removed, lock = [], [], threading.Lock()

        def script(ops):
            def run():
                for what, x in ops:
                    if what == 'register':
                        handle = x.register(w.agent, rng)
                        with lock:
                            added.append((x, handle))
                    else:
                        x[1].unregister()
                        if what == 'unregister':
                            with lock:
                                removed.append(x)
            return run

        threads = [script(ops) for ops in plans]
        # the same handle, at the same time, from another thread
        doubled = [x for ops in plans for what, x in ops if what == 'unregister']
        if doubled and rng.random() < .4:
            out.count('twice')
            threads.append(rng.choice(doubled)[1].unregister)
        if rng.random() < .5:
            threads.append(w.update_service)
        opcodes = rng.random() < .5
        known = [p for p in points if ('+' in p[0]) == opcodes]
        choice = [rng.choice(known)] if known else []
        tracer = interleave.Interleaver(FILES, 'pause', choice, pause=.01, opcodes=opcodes)
        tracer.install()
        errors = interleave.run_threads(threads)
        if errors is None:
            out.violation('a registration did not return', at=tracer.paused_at)
            return
        w.settler.settle()
        tracer.remove()
        out.check(not errors, 'register or unregister raised', errors=errors)
        points = points[-3000:] + [(k, rng.randrange(n)) for k, n in sorted(tracer.seen.items())]
        out.count('concurrent_histories')
        out.count('registered', len(added))
        out.count('unregistered', len(removed))
        gone = [id(x) for x in removed]
        w.live = [x for x in w.live if id(x) not in gone] + added
        w.dead = (w.dead + removed)[-10:]
        plan = [[(what, x.spec() if what == 'register' else x[0].spec()) for what, x in ops] for ops in plans]
        w.history = plan
        ok = w.judge(('concurrent', tracer.paused_at))
        out.case((plan, tracer.signature()), {'plan': plan, 'paused at': tracer.paused_at}, bool(removed))
        if not ok:
            return
        if len(w.live) > 8 or rng.random() < .2:
            while w.live:
                w.remove(rng.randrange(len(w.live)))
            w.locations = [confrig.location(rng) for _ in range(rng.choice([1, 2]))]
            if not w.judge('all removed'):
                return
    w.agent.stop()


@CHECK.planner
def plan(tier, seed):
    if tier == 'quick':
        return core.spread('sequential', 8, seed, histories=60, seconds=15) + core.spread('concurrent', 8, seed, seconds=12)
    return core.spread('sequential', 24, seed, histories=100000, seconds=80) + core.spread('concurrent', 32, seed, seconds=80)


if __name__ == '__main__':
    sys.exit(CHECK.main())
