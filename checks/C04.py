"""C04: fire count, fire period and time window are never exceeded, and nothing due is missed."""
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, rig  # noqa: E402

CHECK = core.Check(
    'C04', 'exploration',
    'A case is one tracepoint action driven through a history of hits on a virtual clock (histories), or one set of '
    'tracepoints hit by several threads at the same time (races). Non-trivial: the limits both permitted and refused '
    'at least one hit. Distinct by (limits, hit offsets, decisions).',
    ['time is read with time.time_ns (replaced by a virtual clock)',
     'tracepoints whose arguments change in an update, or that are removed and added again, are not judged',
     'a hit with a clock that went back by more than the fire period may or may not collect'],
    required=['hits', 'collected', 'refused_count', 'refused_period', 'refused_window', 'boundary_hits', 'resent',
              'race_rounds', 'race_overlaps', 'gated_races', 'condition_false', 'race_resends', 'default_limits',
              'unparsable_limits', 'several_actions'])

SOURCE = '''
def gate():
    return GATE()

def hit(i, flag, text):
    here = i + 1
    after = here
    return after

def boom(i):
    raise KeyError(i)
'''
LINE = 6
MS = 1_000_000
KINDS = ('snapshot', 'log', 'metric', 'span', 'capture', 'method_snapshot', 'method_span', 'method_capture', 'snaplog')
# tracepoints with several actions: each of them has the limits to itself
SEVERAL = {'snapmetric': ('push', 'metric'), 'snapspan': ('push', 'span_open'), 'logmetric': ('log', 'metric'),
           'method_spanmetric': ('span_open', 'metric'), 'snapspanmetric': ('push', 'span_open', 'metric'),
           'method_logspan': ('log', 'span_open')}


def build(tp_id, kind, args, condition=None):
    a = dict(args)
    metrics = []
    line = LINE
    if condition is not None:
        a['condition'] = condition
    if 'snap' not in kind and 'capture' not in kind:
        a['snapshot'] = 'no_collect'
    if kind in ('log', 'logmetric', 'method_logspan'):
        a['log_msg'] = tp_id
    if kind == 'snaplog':
        a['log_msg'] = tp_id + ' {i}'
    if kind.endswith('metric'):
        metrics = [rig.metric(tp_id)]
    if 'span' in kind:
        a['span'] = 'method' if kind.startswith('method') else 'line'
    if kind == 'capture':
        a['stage'] = 'line_capture'
    if kind.startswith('method'):
        a['method_name'] = 'hit'
        line = 1
    if kind == 'method_capture':
        a['stage'] = 'method_capture'
    if 'snap' in kind or 'capture' in kind:
        a.setdefault('frame_type', 'single_frame')
    return line, a, metrics


def seen(by_kind=False):
    """tracepoint (and effect) -> number of effects"""
    out = {}
    for kind, d in list(rig.EVENTS):
        key = {'push': d.get('tp'), 'metric': d.get('name'), 'span_open': d.get('tp')}.get(kind)
        if kind == 'log' and not d['msg'].endswith('}') and ' ' not in d['msg'][len('[deep] '):]:
            key = d['msg'][len('[deep] '):]
        if key is not None:
            key = (key, kind) if by_kind else key
            out[key] = out.get(key, 0) + 1
    return out


class Ref:
    """The limits as documented."""

    def __init__(self, args):
        def integer(key, default):
            v = args.get(key, default)
            try:
                return int(v)
            except (TypeError, ValueError):
                return default

        self.count = integer('fire_count', 1)
        self.period = integer('fire_period', 1000)
        self.start = integer('window_start', 0)
        self.end = integer('window_end', 0)
        self.fired = 0
        self.times = []

    def verdict(self, now):
        if self.count != -1 and self.fired >= self.count:
            return 'refused_count'
        ms = now // MS
        if self.start and ms < self.start or self.end and ms > self.end:
            return 'refused_window'
        if self.times and self.period > 0:
            if any(abs(now - t) < self.period * MS for t in self.times):
                return 'refused_period'
            if now < max(self.times):
                return 'either'
        return 'collected'

    def fire(self, now):
        self.fired += 1
        self.times.append(now)


def limits(rng, base_ms):
    args = {}
    r = rng.random()
    if r < .15:
        pass
    elif r < .25:
        args['fire_count'] = rng.choice(['abc', '', 'two', '--3', '0x2', 'None', 'inf', '5 5'])
    else:
        args['fire_count'] = rng.choice(['-1', '-1', '-1', '1', '2', '3', '5', '10', '0', '-2', '25'])
    r = rng.random()
    if r < .1:
        pass
    elif r < .2:
        args['fire_period'] = rng.choice(['abc', '', '1s', 'None', 'nan'])
    else:
        args['fire_period'] = rng.choice(['0', '0', '1', '5', '10', '10', '100', '1000', '60000'])
    r = rng.random()
    if r < .2:
        args['window_start'] = str(base_ms + rng.randrange(0, 60))
        args['window_end'] = str(base_ms + rng.randrange(30, 3000))
    elif r < .27:
        args['window_start'] = str(base_ms + rng.randrange(0, 60))
    elif r < .34:
        args['window_end'] = str(base_ms + rng.randrange(0, 3000))
    elif r < .4:
        args[rng.choice(['window_start', 'window_end'])] = rng.choice(['abc', '', '0'])
    return args


def prepare():
    path = rig.write_module(rig.scratch(), 'limited.py', SOURCE)
    code, ns = rig.load_module(path)
    exec(code, ns)
    ns['GATE'] = lambda: True
    return ns


@CHECK.unit
def histories(out, rng, params):
    ns = prepare()
    hit = ns['hit']
    clock = rig.VirtualClock(step=0).install()
    agent = rig.Agent()
    for round_ in range(params['rounds']):
        rig.EVENTS.clear()
        base_ms = clock.now // MS + rng.randrange(1, 10 ** 6)
        clock.now = base_ms * MS
        tps, refs, handles = [], {}, []
        for k in range(rng.randrange(4, 12)):
            args = limits(rng, base_ms)
            kind = rng.choice(KINDS + tuple(SEVERAL))
            condition = rng.choice([None, None, None, 'flag', 'flag and i >= 0', 'boom(i)', 'i % 2 == 0'])
            tp_id = 'r%dk%d' % (round_, k)
            line, a, metrics = build(tp_id, kind, args, condition)
            if rng.random() < .2 and kind in ('metric', 'log', 'snaplog'):
                # registered in code, with numbers
                for key in ('fire_count', 'fire_period'):
                    if key in a and str(a[key]).isdigit() and rng.random() < .5:
                        a[key] = int(a[key])
                a.pop('window_start', None), a.pop('window_end', None)
                if kind == 'metric':
                    from deep.api.tracepoint.tracepoint_config import MetricDefinition
                    handles.append(agent.register('limited.py', line, a, [], [MetricDefinition(tp_id, 'counter')]))
                else:
                    a['log_msg'], a['snapshot'], kind = tp_id, 'no_collect', 'log'
                    handles.append(agent.register('limited.py', line, a))
            else:
                tps.append(rig.tp(tp_id, 'limited.py', line, a, [], metrics))
            if kind in SEVERAL:
                out.count('several_actions')
            for effect in SEVERAL.get(kind, (None,)):
                refs[(tp_id, effect)] = (Ref(a), kind, condition, a, [])
            if 'fire_count' not in a or 'fire_period' not in a:
                out.count('default_limits')
            elif any(v and not str(v).lstrip('-').isdigit() for k_, v in a.items() if k_.startswith('fire')):
                out.count('unparsable_limits')
        agent.install(tps)
        now = clock.now
        interesting = sorted({r[0].period for r in refs.values()} | {1})
        has_window = any(r[0].start or r[0].end for r in refs.values())
        counts = seen(), seen(True)
        for i in range(rng.randrange(8, 40)):
            step = rng.choice(interesting) * MS
            r = rng.random()
            if r < .3:
                delta = step
                out.count('boundary_hits')
            elif r < .5:
                delta = step - (MS if has_window else 1)
                out.count('boundary_hits')
            elif r < .6:
                delta = step + (MS if has_window else 1)
            elif r < .75:
                delta = 0
            elif r < .8:
                delta = -rng.choice([1, 2, 3]) * MS
            else:
                delta = rng.randrange(0, 50) * MS
            now = now + delta
            clock.now = now
            flag = rng.random() < .8
            if rng.random() < .12:
                # the service sends the same tracepoints again, they stay installed
                resend = list(tps)
                rng.shuffle(resend)
                if rng.random() < .5:
                    resend.append(rig.tp('other%d' % i, 'limited.py', 9999, {}, [], []))
                agent.install(resend)
                out.count('resent')
            if handles and rng.random() < .05:
                extra = agent.register('limited.py', 9998, {})
                agent.unregister(extra)
            hit(i, flag, 'text')
            out.count('hits')
            new = seen(), seen(True)
            for (tp_id, effect), (ref, kind, condition, a, log) in refs.items():
                if effect is None:
                    n = new[0].get(tp_id, 0) - counts[0].get(tp_id, 0)
                else:
                    n = new[1].get((tp_id, effect), 0) - counts[1].get((tp_id, effect), 0)
                cond = {None: True, 'flag': flag, 'flag and i >= 0': flag, 'boom(i)': False,
                        'i % 2 == 0': i % 2 == 0}[condition]
                what = ref.verdict(now)
                if not cond:
                    out.count('condition_false')
                    what = 'condition'
                out.count(what)
                log.append((delta, what))
                want = {'collected': (1,), 'either': (0, 1)}.get(what, (0,))
                out.check(n in want, 'a hit %s' % ('collected although the limits do not allow it' if n > max(want) else
                                                  'did not collect although the limits allow it'),
                          tp=tp_id, kind=kind, effect=effect, args=a, expected=what, effects=n, fired=ref.times, now=now,
                          history=log[-6:])
                if n:
                    ref.fire(now)
                elif what == 'collected':
                    ref.fire(now)
            counts = new
        for tp_id, (ref, kind, condition, a, log) in refs.items():
            whats = {w for _, w in log}
            out.case((kind, sorted((k, str(v)) for k, v in a.items() if 'window' not in k), log),
                     sample={'args': a, 'kind': kind, 'decisions': [w for _, w in log][:12]},
                     nontrivial='collected' in whats and len(whats) > 1)
        for h in handles:
            agent.unregister(h)
    agent.stop()
    clock.remove()


@CHECK.unit
def races(out, rng, params):
    """Threads reach the same tracepoints at the same time."""
    ns = prepare()
    hit = ns['hit']
    threads_n = params['threads']
    inside = [0, 0]
    lock = threading.Lock()
    style = params['style']

    def gate():
        with lock:
            inside[0] += 1
            inside[1] = max(inside[1], inside[0])
        time.sleep(.002 if style != 'free' else 0)
        with lock:
            inside[0] -= 1
        return True

    ns['GATE'] = gate
    agent = rig.Agent()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    start, end = threading.Barrier(threads_n + 1), threading.Barrier(threads_n + 1)
    state = {'stop': False, 'hits': 1}

    def work(t):
        while True:
            start.wait()
            if state['stop']:
                return
            for i in range(state['hits']):
                hit(t * 1000 + i, True, 'x')
            end.wait()

    workers = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(threads_n)]
    for w in workers:
        w.start()
    clock = rig.VirtualClock(step=0)
    for round_ in range(params['rounds']):
        rig.EVENTS.clear()
        refs, tps = {}, []
        frozen = rng.random() < .5
        per_round = params['tps'] if style == 'free' else 3
        state['hits'] = rng.choice([1, 2, 5])
        total_hits = state['hits'] * threads_n
        for k in range(per_round):
            kind = rng.choice(KINDS)
            tp_id = 'q%dk%d' % (round_, k)
            if frozen:
                args = {'fire_count': rng.choice(['-1', '-1', '3', str(total_hits)]),
                        'fire_period': rng.choice(['1', '10', '1000'])}
                want = 1
            else:
                n = rng.choice([1, 1, 2, 3, threads_n - 1, threads_n, total_hits - 1, total_hits + 5])
                args = {'fire_count': str(n), 'fire_period': '0'}
                want = min(n, total_hits)
            condition = None
            if style == 'condition':
                condition = 'gate()'
            line, a, metrics = build(tp_id, kind, args, condition)
            watches = []
            if style == 'action':
                # the action itself takes its time
                if kind == 'log':
                    a['log_msg'] = tp_id
                elif kind == 'metric':
                    metrics = [rig.metric(tp_id, expression='gate()')]
                watches = ['gate()']
            if style == 'log_field' and kind in ('log', 'snaplog'):
                kind = 'snaplog'
                a.pop('snapshot', None)
                a['log_msg'] = tp_id + ' {gate()}'
            tps.append(rig.tp(tp_id, 'limited.py', line, a, watches, metrics))
            refs[tp_id] = (want, kind, a)
        agent.install(tps)
        if frozen:
            clock.now += 10 ** 12
            clock.install()
        start.wait()
        if style == 'resend':
            for _ in range(6):
                agent.install(tps)
                out.count('race_resends')
        end.wait(120)
        clock.remove()
        agent.install([])
        got = seen()
        out.count('race_rounds')
        for tp_id, (want, kind, a) in refs.items():
            n = got.get(tp_id, 0)
            out.check(n == want, 'threads reaching a tracepoint together made it collect %s than its limits allow' %
                      ('more' if n > want else 'less'), kind=kind, args=a, collected=n, expected=want, hits=total_hits,
                      style=style)
            out.case((style, kind, sorted(a.items()), total_hits, n),
                     sample={'threads': threads_n, 'args': a, 'hits': total_hits, 'collected': n},
                     nontrivial=n < total_hits)
    state['stop'] = True
    start.wait()
    if style == 'condition':
        out.count('gated_races', params['rounds'])
        out.count('race_overlaps', 1 if inside[1] > 1 else 0)
        out.high('max_threads_between_check_and_fire', inside[1])
    sys.setswitchinterval(old)
    agent.stop()


@CHECK.planner
def plan(tier, seed):
    q = tier == 'quick'
    units = core.spread('histories', 16 if q else 160, seed, rounds=14)
    for i, style in enumerate(('free', 'condition', 'action', 'log_field', 'resend')):
        units += core.spread('races', 2 if q else 24, seed + 1 + i, style=style, threads=4 + i % 3 * 2,
                             rounds=12 if q else 40, tps=60)
    return units


if __name__ == '__main__':
    sys.exit(CHECK.main())
