"""C11: tracepoint arguments are interpreted as documented, one tracepoint at a time."""
import itertools
import os
import sys
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, model, rig  # noqa: E402

CHECK = core.Check(
    'C11', 'exploration',
    'A case is one tracepoint of a poll response (or registered in code) that was installed with 3 to 24 others, several '
    'of them on its location and some of them impossible to interpret, followed through several passes of the program '
    'on a virtual clock. The effects of every pass (snapshots with their frames, watches, arguments and log text; log '
    'lines; metric calls; spans) are compared with a reference interpretation of its arguments. The product of stage x '
    'method_name x span x snapshot x log x metrics is enumerated, the other keys are drawn. Non-trivial: the tracepoint '
    'is due in some pass. Distinct by (arguments, location, number of metrics, watches).',
    ['a span argument that is neither line nor method is not judged',
     'where inside the invocation an "end" stage acts is judged by C03 and C15',
     'for a tracepoint without usable metrics only its neighbours are judged'],
    required=['tracepoints', 'due', 'not_due', 'uninterpretable', 'merged', 'twins', 'code_tracepoints', 'snapshots', 'logs', 'metrics',
              'spans', 'captures', 'limited', 'condition_false'])

SOURCE = '''\
def alpha(x):
    a = x + 1
    b = a * 2
    return b

class Box:
    def gamma(self, x):
        t = 0
        for k in range(3):
            t += k + x
        return t

def outer(x):
    def inner(y):
        z = y
        return z
    r = inner(x)
    return r

def main(x):
    alpha(x)
    box = Box()
    box.gamma(x)
    outer(x)
    return x
'''
# line -> (function, hits in a pass, names that can be used)
LINES = {2: ('alpha', 1, 'x'), 3: ('alpha', 1, 'x'), 4: ('alpha', 1, 'x'), 8: ('gamma', 1, 'x'), 10: ('gamma', 3, 'x'),
         11: ('gamma', 1, 'x'), 15: ('inner', 1, 'y'), 16: ('inner', 1, 'y'), 17: ('outer', 1, 'x'),
         18: ('outer', 1, 'x'), 21: ('main', 1, 'x'), 25: ('main', 1, 'x')}
METHODS = {'alpha': 'x', 'gamma': 'x', 'outer': 'x', 'inner': 'y', 'main': 'x'}
RESULTS = {'alpha': lambda x: (x + 1) * 2, 'gamma': lambda x: 3 + 3 * x, 'outer': lambda x: x, 'inner': lambda x: x,
           'main': lambda x: x}
LINE_STAGES = ('line_start', 'line_end', 'line_capture')
METHOD_STAGES = ('method_start', 'method_end', 'method_capture')
ABSENT = None

STAGES = (ABSENT,) + LINE_STAGES + METHOD_STAGES + ('line', 'METHOD_START', 'nonsense')
NAMES = (ABSENT, 'known', 'unknown', 'other')
SPANS = (ABSENT, 'line', 'method')
SNAPSHOTS = (ABSENT, 'collect', 'no_collect', 'whatever')
LOGS = (ABSENT, 'msg')
METRICS = (0, 1, 3)

CORE = list(itertools.product(STAGES, NAMES, SPANS, SNAPSHOTS, LOGS, METRICS))

OFFSETS = (310, 2600)


class Ref:
    """The reference interpretation of one tracepoint."""

    def __init__(self, tag, path, line, args, watches, metrics, base):
        self.tag = tag
        self.path, self.line, self.args, self.watches, self.metrics = path, line, args, watches, metrics
        self.last = None
        self.fired = 0
        self.base = base
        self.judged = True
        self.code = False
        self.total = 0
        stage = args.get('stage')
        self.ok = True
        if 'stage' in args:
            if stage not in LINE_STAGES + METHOD_STAGES:
                self.ok = False
            self.method = stage in METHOD_STAGES
        else:
            self.method = 'method_name' in args or args.get('span') == 'method'
        self.function = None
        self.hits = 0
        self.var = 'x'
        if not self.ok or path != base:
            return
        if self.method:
            self.function = args.get('method_name')
            if self.function is None:
                self.function = LINES[line][0] if line in LINES else None
            if self.function in METHODS:
                self.hits, self.var = 1, METHODS[self.function]
        elif line in LINES:
            self.function, self.hits, self.var = LINES[line]

    def number(self, key, default):
        try:
            return int(self.args.get(key, default))
        except (ValueError, TypeError):
            return default

    def due(self, ts_ms, x):
        """How many times this fires in a pass."""
        n = 0
        for _ in range(self.hits):
            count, period = self.number('fire_count', 1), self.number('fire_period', 1000)
            if count != -1 and self.fired >= count:
                continue
            start, end = self.number('window_start', 0), self.number('window_end', 0)
            if start and ts_ms < start or end and ts_ms > end:
                continue
            if self.last is not None and period > 0 and ts_ms - self.last < period:
                continue
            if 'condition' in self.args:
                try:
                    if not eval(self.args['condition'], {}, {self.var: x}):
                        continue
                except Exception:
                    continue
            self.fired += 1
            self.last = ts_ms
            n += 1
        self.total += n
        return n

    def effects(self, n, x):
        """The effects of firing n times: Counter of (kind, ...)."""
        c = Counter()
        log = self.args.get('log_msg')
        collects = self.args.get('snapshot') != 'no_collect'
        if collects:
            c['push'] = n
        if log is not None:
            c['log'] = n
        if self.metrics:
            c['metric'] = n * len(self.metrics)
        if self.args.get('span') in ('line', 'method'):
            c['span_open'] = n
        return +c


def make(rng, i, base, combo, code):
    tag = 'tp%04d' % i
    stage, name, span, snapshot, log, n_metrics = combo
    args = {}
    line = rng.choice(sorted(LINES))
    if stage is not ABSENT:
        args['stage'] = stage
    if name == 'known':
        args['method_name'] = rng.choice(sorted(METHODS))
    elif name == 'unknown':
        args['method_name'] = rng.choice(['Alpha', 'alph', 'alphas', 'nothing', '<module>x'])
    elif name == 'other':
        args['method_name'] = rng.choice(['alpha', 'gamma'])
        line = rng.choice([0, 17, 15, 5000])
    if span is not ABSENT:
        args['span'] = span
    if snapshot is not ABSENT:
        args['snapshot'] = snapshot
    if log is not ABSENT:
        args['log_msg'] = rng.choice(['%s-{0+1}' % tag, '%s-text' % tag, '%s-{nope}' % tag])
    ref_var = 'y' if rng.random() < .1 else 'x'
    if rng.random() < .35:
        args['condition'] = rng.choice(['%s %% 2 == 0' % ref_var, 'True', 'False', 'nope.x', '%s > 2' % ref_var, '1/0',
                                        '%s in (1, 3, 4)' % ref_var, 'not True', '('])
    r = rng.random()
    if r < .75:
        args['fire_count'] = rng.choice(['-1', '-1', '-1', '2', '3', '1', '0', 'abc', '', '2.5', '-1 '])
        if code and rng.random() < .4:
            args['fire_count'] = rng.choice([-1, 2, 3])
    if rng.random() < .75:
        args['fire_period'] = rng.choice(['0', '0', '0', '1000', '5000', 'soon', '', '-1'])
        if code and rng.random() < .4:
            args['fire_period'] = rng.choice([0, 1000])
    if rng.random() < .5:
        args['frame_type'] = rng.choice(['single_frame', 'all_frame', 'no_frame', 'some_frame'])
    if rng.random() < .3:
        args['stack_type'] = rng.choice(['stack', 'frame', 'odd'])
    if rng.random() < .12:
        args['window_start'] = rng.choice(['1', '0', '1600000000000', '1800000000000', 'x'])
    if rng.random() < .12:
        args['window_end'] = rng.choice(['1', '0', '1600000000000', '1800000000000', ''])
    if rng.random() < .2:
        args[rng.choice(['unknown_key', 'target', 'Fire_Count', 'x-other'])] = rng.choice(['1', '', 'value'])
    watches = [rng.choice(['x', 'x + 1', 'y', '"%s"' % tag, 'nope', '[1, 2]', '1/0']) for _ in range(rng.choice([0, 0, 1, 3]))]
    metrics = []
    for k in range(n_metrics):
        metrics.append({'name': '%s-m%d' % (tag, k), 'type': rng.choice(['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']),
                        'expression': rng.choice([None, '1 + 1', '2.5']), 'namespace': rng.choice([None, 'ns']),
                        'help': rng.choice([None, 'helping']), 'unit': rng.choice([None, 'kg']),
                        'labels': rng.choice([[], [('k', 'static', 'v')], [('e', 'expr', '1 + 2'), ('s', 'static', 7)]])})
    path = base if rng.random() < .96 else rng.choice(['other.py', base[1:], 'x' + base])
    ref = Ref(tag, path, line, args, watches, metrics, base)
    ref.code = code
    return ref


def twin(rng, i, other, code):
    """A tracepoint that is like another one, or differs in one thing."""
    tag = 'tp%04d' % i

    def retag(value):
        return value.replace(other.tag, tag) if isinstance(value, str) else value

    args = {k: retag(v) for k, v in other.args.items() if k != 'x-tag'}
    watches = [retag(w) for w in other.watches]
    metrics = [dict(m, name=retag(m['name'])) for m in other.metrics]
    line = other.line
    change = rng.randrange(9)
    if change == 0:
        line = rng.choice(sorted(LINES))
    elif change == 1:
        watches = watches[:1] + ['"%s"' % tag]
    elif change == 2:
        args['fire_count'] = rng.choice(['-1', '2'])
    elif change == 3:
        args['condition'] = rng.choice(['x < 3', 'x >= 3', 'True'])
    elif change == 4:
        args.pop(rng.choice(sorted(args)), None) if args else None
    elif change == 5:
        args['snapshot'] = rng.choice(['collect', 'no_collect'])
    if not code:
        args = {k: str(v) for k, v in args.items()}
    ref = Ref(tag, other.path, line, args, watches, metrics, other.base)
    ref.code = code
    return ref


def proto(ref):
    metrics = [rig.metric(m['name'], m['type'], [rig.label(k, static=v) if how == 'static' else rig.label(k, expression=v)
                                                for k, how, v in m['labels']],
                          m['expression'], m['namespace'], m['help'], m['unit']) for m in ref.metrics]
    return rig.tp(ref.tag, ref.path, ref.line, ref.args, ref.watches, metrics)


def definitions(ref):
    from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
    return [MetricDefinition(m['name'], m['type'].lower() if i % 2 else m['type'],
                             [LabelExpression(k, v if how == 'static' else None, v if how == 'expr' else None)
                              for k, how, v in m['labels']],
                             m['expression'], m['namespace'], m['help'], m['unit']) for i, m in enumerate(ref.metrics)]


def uninterpretable(rng, i, base):
    """Tracepoints that cannot be interpreted: only the others are judged."""
    line = rng.choice(sorted(LINES))
    kind = rng.randrange(9)
    tag = 'bad%04d' % i
    unlimited = {'fire_count': '-1', 'fire_period': '0'}
    if kind == 0:
        return rig.tp(tag, base, line, dict(unlimited, stage='no_such_stage'))
    if kind == 1:
        return rig.tp(tag, base, line, unlimited, [], [rig.metric(tag, 99)])
    if kind == 2:
        return rig.tp(tag, base, line, dict(unlimited, stage=''), ['x'])
    if kind == 3:
        return rig.tp('', '', 0, {})
    if kind == 4:
        return rig.tp(tag, base, line, dict(unlimited, log_msg='{', condition='((', fire_count='many'), ['((', ''])
    if kind == 5:
        return rig.tp(tag, base, line, dict(unlimited, stage='method_start', method_name='\x00'))
    if kind == 6:
        return rig.tp(tag, base, 2 ** 32 - 1, dict(unlimited, stage='method_start', span='method'))
    if kind == 7:
        return rig.tp(tag, base, line, dict(unlimited, stage='line_start', snapshot='no_collect'), [],
                      [rig.metric(tag, 2, [rig.label('', expression=''), rig.label('k')], '((')])
    return rig.tp(tag, base, line, dict(unlimited, fire_count='9' * 5000, fire_period='9' * 400, window_start='9' * 30))


def observe(events):
    """Effects of a pass: tag -> Counter, and the details."""
    seen, details = {}, {}
    for kind, d in events:
        if kind == 'push':
            s = d['snapshot']
            tag = s.tracepoint.args.get('x-tag') or s.tracepoint.id
        elif kind == 'log':
            tag = d['msg'].split(' ', 1)[-1].split('-', 1)[0]
        elif kind == 'metric':
            tag = d['name'].split('-', 1)[0]
        elif kind == 'span_open':
            tag = d['tp']
        else:
            continue
        seen.setdefault(tag, Counter())[kind] += 1
        details.setdefault(tag, []).append((kind, d))
    return seen, details


def judge_snapshot(out, ref, s, x, path):
    tp = s.tracepoint
    sent_args = {k: v for k, v in ref.args.items()}
    out.check({k: str(v) for k, v in tp.args.items()} == {k: str(v) for k, v in sent_args.items()} and
              list(tp.watches) == ref.watches and tp.path == ref.path,
              'the snapshot does not name the tracepoint that was configured', args=tp.args, want=ref.args,
              watches=tp.watches, want_watches=ref.watches)
    top = s.frames[0]
    where = ref.function
    out.check(top.method_name == where and top.file_name == path, 'the snapshot is from another function', want=where,
              got=top.method_name, args=ref.args, line=ref.line)
    if not ref.method:
        out.check(top.line_number == ref.line, 'the snapshot is from another line', want=ref.line, got=top.line_number)
    has = [bool(f.variables) for f in s.frames]
    mode = ref.args.get('frame_type', 'single_frame')
    if mode == 'no_frame':
        want = not any(has)
    elif mode == 'all_frame':
        want = has[0] and has[1]
    else:
        want = has[0] and not any(has[1:])
    out.check(want, 'the frames with variables are not those of frame_type %s' % mode, has=has, args=ref.args)
    watches = [w for w in s.watches if w.source == 'WATCH']
    out.check([w.expression for w in watches] == ref.watches, 'the watches are not those of the tracepoint',
              want=ref.watches, got=[w.expression for w in watches], args=ref.args)
    for w in watches:
        try:
            value = eval(w.expression, {}, {ref.var: x})
        except Exception:
            out.check(w.error is not None and w.result is None, 'a watch that fails has a result', watch=w.expression)
            continue
        if mode == 'all_frame' and w.result is None and len(s.var_lookup) >= 900:
            # the frames used up the variables
            continue
        if not out.check(w.result is not None, 'a watch that works has no result', watch=w.expression, error=w.error, args=ref.args):
            continue
        text = 'Size: 2' if isinstance(value, list) else str(value)
        out.check(s.var_lookup[w.result.vid].value == text, 'a watch has another value', watch=w.expression)
    captures = [w for w in s.watches if w.source == 'CAPTURE']
    stage = ref.args.get('stage')
    if stage == 'method_capture' and len(captures) == 1 and captures[0].result is None and mode == 'all_frame' and \
            len(s.var_lookup) >= 900:
        # the frames used up the variables
        pass
    elif stage == 'method_capture':
        out.count('captures')
        if out.check(len(captures) == 1 and captures[0].result is not None, 'a method capture has no result',
                     captures=[c.expression for c in captures]):
            got = s.var_lookup[captures[0].result.vid].value
            out.check(got == str(RESULTS[ref.function](x)), 'a method capture has another result', got=got,
                      function=ref.function, x=x)
    elif stage != 'line_capture':
        out.check(not captures, 'a result was captured without a capture stage', stage=stage)
    log = ref.args.get('log_msg')
    out.check((s.log_msg is None) == (log is None), 'the log message of the snapshot does not match the arguments',
              log=s.log_msg, want=log)


def judge_pass(out, refs, events, due, x, path, context):
    seen, details = observe(events)
    known = {r.tag for r in refs}
    code_spans = sum(seen.pop(t, {}).get('span_open', 0) for t in list(seen)
                     if t not in known and not t.startswith('bad') and set(seen[t]) == {'span_open'})
    want_code_spans = sum(r.effects(due[r.tag], x).get('span_open', 0) for r in refs if r.code)
    out.check(code_spans == want_code_spans, 'the spans of the tracepoints registered in code differ', got=code_spans,
              want=want_code_spans, refs=[(r.args, r.line) for r in refs if r.code], pass_=context)
    for ref in refs:
        want = ref.effects(due[ref.tag], x)
        got = +seen.get(ref.tag, Counter())
        if ref.code:
            want.pop('span_open', None)
        if not out.check(got == want, 'a tracepoint did not have the effects its arguments ask for: %s%s' % (
                'extra ' + '/'.join(sorted((got - want))) if got - want else '',
                ' missing ' + '/'.join(sorted((want - got))) if want - got else ''),
                args=ref.args, line=ref.line, path=ref.path, want=dict(want), got=dict(got), pass_=context, x=x,
                fired=ref.fired, code=ref.code, log=rig.AGENT_LOG[-2:]):
            ref.judged = False
            continue
        for kind, d in details.get(ref.tag, ()):
            out.count({'push': 'snapshots', 'log': 'logs', 'metric': 'metrics', 'span_open': 'spans'}[kind])
            if kind == 'push':
                judge_snapshot(out, ref, d['snapshot'], x, path)
            elif kind == 'metric':
                m = [m for m in ref.metrics if m['name'] == d['name']]
                out.check(len(m) == 1 and d['op'] == m[0]['type'].lower(), 'a metric was reported to another operation',
                          op=d['op'], want=m)
                if m:
                    for key in ('namespace', 'help', 'unit'):
                        out.check(m[0][key] is None or d[key] == m[0][key], 'a metric has another ' + key, got=d, want=m)
                    value = 1 if m[0]['expression'] is None else eval(m[0]['expression'])
                    labels = {k: (v if how == 'static' else '3') for k, how, v in m[0]['labels']}
                    out.check(d['value'] == value and {k: str(v) for k, v in d['labels'].items()} == {
                        k: str(v) for k, v in labels.items()}, 'a metric has another value or other labels',
                        got=(d['value'], d['labels']), want=(value, labels))
            elif kind == 'log':
                text = d['msg'].split(' ', 1)[-1]
                fixed = ref.args['log_msg'].split('{')[0]
                out.check(text.startswith(fixed) and (ref.code or d['tp'] == ref.tag),
                          'the log line is not the one of the tracepoint', got=d['msg'], want=ref.args['log_msg'], tp=d['tp'])
    extra = [t for t in seen if t not in known and not t.startswith('bad') and t != '']
    out.check(not extra, 'effects that belong to no tracepoint', extra=extra)


@CHECK.unit
def tables(out, rng, params):
    clock = rig.VirtualClock(step=100).install()
    tmp = rig.scratch()
    combos = list(CORE)
    import random
    random.Random(params['base']).shuffle(combos)
    combos = combos[params['index']::params['of']]
    rng.shuffle(combos)
    agent = rig.Agent()
    number = 0
    batch = 0
    while combos:
        batch += 1
        size = rng.choice([3, 8, 16, 24])
        chunk, combos = combos[:size], combos[size:]
        base = 'cfg%d.py' % batch
        path = rig.write_module(tmp, base, SOURCE)
        code, ns = rig.load_module(path)
        refs, wire, registered = [], [], []
        spans_in_code = False
        twins = []
        for combo in chunk:
            twins.append(None)
            if rng.random() < .3:
                twins.extend([combo] * rng.choice([1, 1, 2]))
        originals = iter(chunk)
        for pair in twins:
            number += 1
            combo = next(originals) if pair is None else pair
            in_code = rng.random() < .15 and not (combo[2] and spans_in_code)
            if pair is None:
                ref = make(rng, number, base, combo, in_code)
            else:
                other = rng.choice(refs[-3:])
                in_code = in_code and 'span' not in other.args
                ref = twin(rng, number, other, in_code)
                out.count('twins')
            out.count('tracepoints')
            if not ref.ok:
                out.count('uninterpretable')
            refs.append(ref)
            if in_code:
                out.count('code_tracepoints')
                spans_in_code = spans_in_code or bool(ref.args.get('span'))
                ref.args['x-tag'] = ref.tag
                registered.append(agent.deep.register_tracepoint(ref.path, ref.line, dict(ref.args), list(ref.watches),
                                                                 definitions(ref)))
            else:
                wire.append(proto(ref))
        for i in range(rng.choice([0, 0, 1, 3])):
            out.count('uninterpretable')
            wire.insert(rng.randrange(len(wire) + 1), uninterpretable(rng, i, base))
        out.count('merged', len(refs) - len({(r.method, r.function if r.method else r.line) for r in refs}))
        agent.install(wire)
        rig.EVENTS.clear()
        sys.settrace(None)
        exec(code, ns)
        start = clock.now + 20_000_000_000
        elapsed = 0
        for step in range(rng.choice([3, 5, 6])):
            elapsed += rng.choice(OFFSETS)
            clock.now = start + elapsed * 1_000_000
            x = rng.randrange(5)
            rig.EVENTS.clear()
            sys.settrace(agent.deep.trigger_handler.trace_call)
            try:
                ns['main'](x)
            finally:
                sys.settrace(None)
            used = clock.now - start - elapsed * 1_000_000
            if used > 60_000_000:
                raise core.Inconclusive('a pass took %d virtual ns' % used)
            due = {r.tag: r.due((start // 1_000_000) + elapsed, x) for r in refs}
            judge_pass(out, [r for r in refs if r.judged], list(rig.EVENTS), due, x, path, (batch, step))
        for ref in refs:
            out.count('due' if ref.total else 'not_due')
            if ref.hits and ref.total < 3:
                out.count('limited')
            if ref.hits and not ref.total and 'condition' in ref.args:
                out.count('condition_false')
            args = {k: v for k, v in ref.args.items() if k not in ('x-tag', 'log_msg')}
            out.case((sorted(args.items(), key=str), 'log_msg' in ref.args, ref.line, ref.path == base, len(ref.metrics),
                      ref.watches), {'args': ref.args, 'line': ref.line, 'fired': ref.total}, nontrivial=bool(ref.total))
        for handle in registered:
            handle.unregister()
    agent.stop()
    clock.remove()


@CHECK.planner
def plan(tier, seed):
    of = 24 if tier == 'quick' else 24
    rounds = 1 if tier == 'quick' else 10
    return [('tables', {'index': i, 'of': of, 'base': seed, 'seed': seed * 1000 + r}) for r in range(rounds) for i in range(of)]


if __name__ == '__main__':
    sys.exit(CHECK.main())
