"""C12: the installed tracepoints converge to the latest configuration of the service."""
import itertools
import os
import random
import sys
import threading
import time
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import confrig, core, interleave, rig  # noqa: E402

from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType  # noqa: E402

CHECK = core.Check(
    'C12', 'exploration',
    'A case is one history: a script of poll responses (update, no change, errors of several kinds, unintelligible '
    'responses, configurations with tracepoints that cannot be interpreted) processed by the poll thread, concurrently '
    'with threads that register and unregister tracepoints, under a perturbed schedule of the agent\'s own threads (a '
    'pause at one chosen line event, at two of them, or random pauses). When all submitted tasks are done, the probe '
    'program shows which tracepoints act: they have to be the last good configuration plus the registered ones. The hash '
    'of every request has to be the one of the last good configuration. Non-trivial: at least two changes. Distinct by '
    '(history, order of the context switches).',
    ['polls come from one thread, as in the agent', 'a tracepoint that cannot be interpreted is not part of a configuration'],
    required=['histories', 'updates', 'failed_polls', 'unintelligible_polls', 'no_change', 'registered', 'unregistered',
              'single_preemptions', 'random_schedules', 'timer_polls', 'updates_in_flight', 'failed_initial_polls', 'long_outages'])

FILES = ('config/tracepoint_config.py', 'processor/trigger_handler.py', 'poll/poll.py', 'task/__init__.py',
         'config/config_service.py')
_ids = itertools.count(1)


class Weird(BaseException):
    pass


class Garbage:
    def SerializeToString(self):
        return b'\x0a\xff\xff\xff\x01garbage'


class Item:
    """One scripted answer of the service."""

    def __init__(self, kind, tps=(), tags=(), hash_=None):
        self.kind, self.tps, self.tags, self.hash = kind, list(tps), list(tags), hash_


def new_config(rng, pool):
    """A configuration: some tracepoints of an earlier one, and new ones."""
    tps = []
    for proto, tag in pool:
        if rng.random() < .5:
            tps.append((proto, tag))
    for k, (proto, tag) in enumerate(tps):
        if rng.random() < .2:
            # the tracepoint was changed: same id, and all or some of the rest is other
            new = 'w%d' % next(_ids)
            line, args = confrig.location(rng)
            if rng.random() < .5:
                line, args = proto.line_number, {a: v for a, v in proto.args.items() if a == 'method_name'}
            tps[k] = rig.tp(proto.ID, confrig.BASE, line, dict(confrig.UNLIMITED, log_msg=new, snapshot='no_collect', **args)), new
            pool.append(tps[k])
    # (one id has one tracepoint)
    tps = list({proto.ID: (proto, tag) for proto, tag in tps}.values())
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        tag = 'w%d' % next(_ids)
        line, args = confrig.location(rng)
        proto = rig.tp(tag, confrig.BASE, line, dict(confrig.UNLIMITED, log_msg=tag, snapshot='no_collect', **args))
        tps.append((proto, tag))
        pool.append((proto, tag))
    rng.shuffle(tps)
    return tps


def make_script(rng, n, weird=True):
    items, pool = [], []
    kinds = ['update'] * 6 + ['nochange', 'nochange_full', 'rpc_error', 'value_error', 'unknown_type', 'garbage', 'partly',
                              'all_bad', 'empty', 'repeat', 'null', 'slow_update']
    if weird:
        kinds.append('base_exception')
    earlier = []
    for _ in range(n):
        kind = rng.choice(kinds)
        h = 'hash-%d' % next(_ids)
        if rng.random() < .15:
            h = rng.choice(['', ' ', 'None', '0', '\u00e4' * 9, 'h' * 3000, 'same', 'same', 'same'])
        if kind in ('update', 'slow_update', 'nochange_full', 'unknown_type', 'partly'):
            config = new_config(rng, pool)
            protos, tags = [c[0] for c in config], [c[1] for c in config]
            if kind == 'partly':
                for bad in confrig.bad_tracepoints(rng, rng.choice([1, 2])):
                    protos.insert(rng.randrange(len(protos) + 1), bad)
            items.append(Item(kind, protos, tags, h))
            if kind in ('update', 'partly'):
                earlier.append(items[-1])
        elif kind == 'all_bad':
            items.append(Item(kind, confrig.bad_tracepoints(rng, 2), [], h))
        elif kind == 'repeat' and earlier:
            # the service goes back to an earlier configuration
            old = rng.choice(earlier)
            items.append(Item('update', old.tps, old.tags, old.hash))
        elif kind == 'repeat':
            items.append(Item('empty', [], [], h))
        else:
            items.append(Item(kind, [], [], h))
    return items


GOOD = ('update', 'slow_update', 'partly', 'all_bad', 'empty')


class Service:
    """Answers the polls, and watches the hashes."""

    def __init__(self, out, agent, seed=1):
        self.out = out
        self.items = []
        self.agent = agent
        self.rng = random.Random(seed)
        self.good_hash = ''
        self.good_tags = []
        self.done = threading.Event()
        self.answered = 0
        agent.wire.on_poll = self.answer

    def answer(self, request):
        self.out.check(request.current_hash == self.good_hash,
                       'the hash of a poll is not the one of the last good configuration', got=request.current_hash,
                       want=self.good_hash)
        if not self.items:
            self.done.set()
            return PollResponse(response_type=ResponseType.NO_CHANGE, ts_nanos=5)
        item = self.items.pop(0)
        self.answered += 1
        # the clock of the service is not the one of the agent, and it can be set
        ts = self.rng.choice([self.answered, self.answered, 10 ** 6 - self.answered, 0, 5, 2 ** 63, 2 ** 64 - 1,
                              time.time_ns(), time.time_ns() - 10 ** 12])
        kind = item.kind
        out = self.out
        if kind in GOOD:
            out.count('updates')
            self.good_hash, self.good_tags = item.hash, item.tags
            if kind == 'slow_update':
                time.sleep(.01)
            return PollResponse(response_type=ResponseType.UPDATE, ts_nanos=ts, current_hash=item.hash,
                                response=item.tps)
        if kind in ('nochange', 'nochange_full'):
            out.count('no_change')
            return PollResponse(response_type=ResponseType.NO_CHANGE, ts_nanos=ts,
                                current_hash=item.hash if kind == 'nochange_full' else '', response=item.tps)
        if kind == 'unknown_type':
            out.count('unintelligible_polls')
            return PollResponse(response_type=9, ts_nanos=ts, current_hash=item.hash, response=item.tps)
        if kind == 'garbage':
            out.count('unintelligible_polls')
            return Garbage()
        out.count('failed_polls')
        if kind == 'rpc_error':
            raise rig.FakeRpcError('unavailable')
        if kind == 'value_error':
            raise ValueError('broken')
        if kind == 'base_exception':
            raise self.rng.choice([Weird, GeneratorExit, SystemExit, KeyboardInterrupt, StopIteration, MemoryError])()
        raise TypeError('no response')


def registrar(out, rng, agent, final, n, keep):
    """A thread of the application, that registers and unregisters: `final` receives the tags that have to remain."""
    ops = [(rng.random(), confrig.location(rng), 'c%d' % next(_ids)) for _ in range(n)]
    pick = [rng.randrange(100) for _ in range(n)]

    def run():
        mine = []
        for (r, (line, args), tag), p in zip(ops, pick):
            if r < .6 or not mine:
                handle = agent.deep.register_tracepoint(confrig.BASE, line, dict(confrig.UNLIMITED, log_msg=tag,
                                                                                 snapshot='no_collect', **args))
                out.count('registered')
                mine.append((tag, handle))
            else:
                tag, handle = mine.pop(p % len(mine))
                handle.unregister()
                out.count('unregistered')
        for tag, handle in mine:
            final.append((tag, handle))

    return run


class Rig:
    def __init__(self, out):
        self.out = out
        interleave.watch_new_threads()
        self.agent = rig.Agent(config={'NO_TRACE': True}, plugins=('RecLogger',))
        self.probe = confrig.Probe(rig.scratch())
        self.settler = confrig.Settler(self.agent)
        self.service = Service(out, self.agent)

    def reset(self):
        self.service.items = [Item('empty', [], [], 'hash-%d' % next(_ids))]
        self.agent.deep.poll.poll()
        self.settler.settle()

    def poller(self, items):
        self.service.items = list(items)

        def run():
            for _ in items:
                try:
                    self.agent.deep.poll.poll()
                except BaseException:
                    pass
        return run

    def judge(self, custom, what, **detail):
        out = self.out
        if not self.settler.settle():
            raise core.Inconclusive('the agent did not settle')
        want = Counter(self.service.good_tags) + Counter(tag for tag, _ in custom)
        got = self.probe.tags(self.agent)
        ok = out.check(got == want, 'the agent does not act on the latest configuration: %s%s' % (
            'an older tracepoint acts' if got - want else '', ' a configured one does not' if want - got else ''),
            extra=dict(got - want), missing=dict(want - got), schedule=what, **detail)
        return ok

    def clean(self, custom):
        for _, handle in custom:
            handle.unregister()
        self.settler.settle()


def one_history(out, r, rng, scripts, tracer, label):
    """Run poll script and registrations concurrently under the tracer."""
    items, registrations = scripts
    custom = []
    r.reset()
    threads = [r.poller(items)] + [registrar(out, rng, r.agent, custom, n, None) for n in registrations]
    tracer.install()
    errors = interleave.run_threads(threads)
    if errors is None:
        out.violation('a poll or a registration did not return', schedule=tracer.paused_at[-5:])
        return None
    r.settler.settle()
    tracer.remove()
    out.check(not errors, 'a registration raised', errors=errors)
    out.count('histories')
    if sum(1 for i in items if i.kind in GOOD) > 1:
        out.count('updates_in_flight')
    kinds = [i.kind for i in items]
    ok = r.judge(custom, (label, tracer.paused_at[-4:]), script=kinds, registrations=registrations)
    out.case((kinds, registrations, tracer.signature()), {'script': kinds, 'registrations': registrations,
             'switches': len(tracer.order), 'paused at': tracer.paused_at[:3]},
             nontrivial=sum(1 for k in kinds if k in GOOD) + len(registrations) > 1)
    r.clean(custom)
    return ok


def shape(rng):
    """A short history with changes in flight."""
    kind = rng.randrange(5)
    if kind == 0:
        return ['update', 'update'], []
    if kind == 1:
        return ['update', 'update'], [2]
    if kind == 2:
        return ['update', 'rpc_error', 'update'], [1]
    if kind == 3:
        return ['update'], [1, 2]
    return ['update', 'unknown_type', 'empty'], [2]


def scripted(rng, kinds):
    while True:
        items = make_script(rng, 40)
        out = []
        for k in kinds:
            match = [i for i in items if i.kind == k and i not in out]
            if not match:
                break
            out.append(match[0])
        else:
            return out


@CHECK.unit
def preempt(out, rng, params):
    """One thread is paused at one line event of the agent, all the others run on; every line event in turn."""
    r = Rig(out)
    end = time.monotonic() + params['seconds']
    while time.monotonic() < end:
        kinds, registrations = shape(rng)
        opcodes = rng.random() < .5
        files = FILES[:2] if opcodes else FILES
        dry = interleave.Interleaver(files, 'pause', opcodes=opcodes)
        if one_history(out, r, rng, (scripted(rng, kinds), registrations), dry, 'dry') is False:
            break
        points = [(where, n) for where, count in sorted(dry.seen.items()) for n in rng.sample(range(count), min(count, 2))]
        rng.shuffle(points)
        for point in points[:params['points']]:
            pause = [point] if rng.random() < .7 else [point, rng.choice(points)]
            tracer = interleave.Interleaver(files, 'pause', pause, pause=.012, opcodes=opcodes)
            if one_history(out, r, rng, (scripted(rng, kinds), registrations), tracer, pause) is False:
                return
            out.count('single_preemptions' if len(pause) == 1 else 'double_preemptions')
            out.high('max_positions', len(tracer.seen))
            if time.monotonic() > end:
                break
    r.agent.stop()


@CHECK.unit
def random_schedules(out, rng, params):
    r = Rig(out)
    end = time.monotonic() + params['seconds']
    while time.monotonic() < end:
        items = make_script(rng, rng.choice([1, 2, 4, 8]))
        registrations = [rng.choice([1, 2, 5]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        tracer = interleave.Interleaver(FILES, 'random', seed=rng.randrange(10 ** 9), probability=rng.choice([0, .05, .3]))
        if one_history(out, r, rng, (items, registrations), tracer, 'random') is False:
            return
        out.count('random_schedules')
    r.agent.stop()


@CHECK.unit
def timer(out, rng, params):
    """The real timer processes the script: it has to go on, whatever the answers are."""
    for _ in range(params['rounds']):
        agent = rig.Agent(config={'NO_TRACE': True, 'POLL_TIMER': rng.choice([.01, .02, '0.015'])}, plugins=('RecLogger',),
                          start=False)
        settler = confrig.Settler(agent)
        service = Service(out, agent, rng.randrange(10 ** 6))
        items = make_script(rng, rng.choice([6, 12, 20]))
        first = rng.choice(['rpc_error', 'update', 'garbage', 'value_error', 'nochange', 'unknown_type', 'partly'])
        items = scripted(rng, [first]) + items
        if rng.random() < .6:
            # the service is away for a long time
            kind = rng.choice(['rpc_error', 'value_error', 'base_exception', 'garbage', 'unknown_type', 'null', 'any'])
            kinds = ['rpc_error', 'value_error', 'base_exception', 'garbage', 'unknown_type', 'null']
            run = [Item(rng.choice(kinds) if kind == 'any' else kind, [], [], 'none') for _ in range(rng.choice([12, 25, 110]))]
            at = rng.randrange(1, len(items))
            items[at:at] = run
            items += scripted(rng, ['update'])
            out.count('long_outages')
        if first != 'update':
            out.count('failed_initial_polls')
        service.items = list(items)
        try:
            agent.deep.start()
        except BaseException as e:
            out.violation('the agent did not start because the first poll did not work', error=repr(e), kind=first)
            continue
        probe = confrig.Probe(rig.scratch())
        custom = []
        errors = interleave.run_threads([registrar(out, rng, agent, custom, rng.choice([0, 3]), None)])
        out.check(errors == [], 'a registration raised', errors=errors)
        finished = service.done.wait(40)
        out.count('timer_polls', service.answered)
        if not finished:
            names = [t.name for t in threading.enumerate()]
            if out.check(any('Poll' in n for n in names), 'the agent stopped polling after a poll that failed',
                         answered=service.answered, script=[i.kind for i in items][:service.answered + 1], threads=names):
                raise core.Inconclusive('the script was not processed in time')
            return
        settler.settle()
        want = Counter(service.good_tags) + Counter(t for t, _ in custom)
        got = probe.tags(agent)
        out.check(got == want, 'after the polls the agent does not act on the latest configuration', want=dict(want),
                  got=dict(got), script=[i.kind for i in items])
        out.case(('timer', [i.kind for i in items]), {'timer script': [i.kind for i in items]})
        agent.stop()


@CHECK.planner
def plan(tier, seed):
    if tier == 'quick':
        return core.spread('preempt', 8, seed, seconds=14, points=60) + core.spread('random_schedules', 8, seed, seconds=9) + \
            core.spread('timer', 8, seed, rounds=4)
    return core.spread('preempt', 24, seed, seconds=70, points=400) + \
        core.spread('random_schedules', 16, seed, seconds=70) + core.spread('timer', 16, seed, rounds=20)


if __name__ == '__main__':
    sys.exit(CHECK.main())
