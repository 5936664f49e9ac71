"""C17: metric tracepoints report each defined metric with the right type, labels, value."""
import itertools
import math
import os
import sys
import threading
import time
from collections import Counter, defaultdict

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, extra, model, rig  # noqa: E402
from harness.scenes import FAILING, SOURCE, SYNTAX, program  # noqa: E402

CHECK = core.Check(
    'C17', 'exploration',
    'A case is one run of a generated program with metric tracepoints (from the service or registered in code) whose '
    'definitions are generated: all four types, names, namespaces, help and units given or not, any mix of static and '
    'expression labels, values from expressions that are numeric, not numeric, or fail in many ways. Another trace function '
    'evaluates the expressions in the same frame at the same event; the calls that every recording metric processor got for '
    'the hit have to be those of the definitions, for every permitted hit and every processor. Runs where no processor is '
    'active report nothing; when one becomes active later the whole budget has to be left. The built in processors '
    '(prometheus, opentelemetry) are observed through their registries. Non-trivial: at least one reported metric. Distinct '
    'by (definitions, processors).',
    ['the value that is reported for text that looks like a number (or an int that is too large for a float) is not judged',
     'the text of a label whose expression fails is not judged, only that the label and the metric are there'],
    required=['reports', 'type_counter', 'type_gauge', 'type_histogram', 'type_summary', 'static_labels', 'expression_labels',
              'failing_labels', 'numeric_values', 'fallback_values', 'no_expression', 'several_processors', 'no_processor_hits',
              'late_processor_reports', 'limited_tracepoints', 'conditions', 'registered_in_code', 'threads_run', 'raising_processors',
              'default_namespaces', 'prometheus_samples', 'otel_points', 'shared_metrics', 'inactive_processors', 'special_numbers'])

UNLIMITED = {'fire_count': '-1', 'fire_period': '0'}
OPS = ('counter', 'gauge', 'histogram', 'summary')

NUMERIC = ['a', 'b', 'a + b', 'a * 1.5', 'len(items)', 'sum(items)', 'flag', 'not flag', 'a / 3', '-a', '0', '1', '-1', '0.0', '1.5',
           '1e300', '1e-300', 'items[0]', 'items[-1] * a', 'mapping["k"][0]', 'nested["a"]["b"][1]["c"]', 'point.x', 'a ** 2',
           'max(a, b)', 'a if flag else b', 'n\u00e4me and a', 'len(big)', 'a == 1', 'a < b', 'True', 'False', '0x10', '1_000',
           '2 ** 60 + 1', '-2 ** 70', 'Ratio(1, 3)', 'Dec("1.25")', 'Floaty(2.5)', 'Indexy(7)', 'sum(i for i in items)', ' a', 'a ',
           'float("nan")', 'float("inf")', '-float("inf")', '-0.0', 'G_LIST[0]', '(lambda v: v * 2)(a)', 'data[0]', 'len(mapping)',
           'items.index(7)', 'obj.method(1).count("(")', 'hash("") * 0', 'int(a)', 'round(a / 7, 2)', 'helper(a).find("h") + 5',
           'Sub(6)']
SPECIAL = ('float(', '-0.0', 'Ratio', 'Dec', 'Floaty', 'Indexy', 'True', 'False', '2 **', '-2 **', 'Sub')
NOT_NUMERIC = ['text', 'items', 'mapping', 'none', 'obj', 'point', '1j', 'print', 'Point', '"word"', '""', 'data', '()', '[a]',
               'error', 'colored', 'brackets', 'percent', 'helper', '...', 'Floaty("no")', 'Floaty(None)', 'Boom', 'Angry()', 'once']
UNCLEAR = ['"5"', '" 1.5 "', 'str(a)', 'b"7"', '10 ** 400', '"nan"', '"1_0"']
LABELS = ['a', 'text', 'obj', 'obj.name', 'point', 'items', 'mapping["k"]', 'none', 'flag', 'len(items)', 'closed', 'big', 'G',
          'brackets', 'percent', 'helper(a)', 'type(a).__name__', '"{}"', "'it\\'s'", 'data', 'error', 'f"{a}-{b}"', 'n\u00e4me',
          'a == b', '""', 'Text("sub")', 'colored.RED', '"\u4e2d"', 'Boom("x")', '1.0', '(a, b)', ' a']
KEYS = ['k', 'label', 'a.b', 'a-b', 'with space', '\u00e9', 'K', '1', '_x', 'le', 'host', 'service', 'name', 'value']
STATICS = ['v', '', 'text with space', '\u4e2d', '5', 'None', '{a}', 'a', 0, 1, -7, 2 ** 40, True, False, 1.5, 0.0]
NAMES = ['m%d', 'metric.%d', 'my-metric-%d', 'm\u00e9tric_%d', 'UPPER%d', 'with space %d', 'counter%d', '%d']

MORE = '''
from fractions import Fraction as Ratio
from decimal import Decimal as Dec

class Floaty:
    def __init__(self, v):
        self.v = v
    def __float__(self):
        return self.v

class Indexy:
    def __init__(self, v):
        self.v = v
    def __index__(self):
        return self.v

class Sub(int):
    pass

class Angry:
    def __float__(self):
        raise Boom('no number {0} %s')

'''


class Metric:
    """A metric definition."""

    def __init__(self, rng, out, name):
        self.name = name
        self.type = rng.choice(OPS)
        self.expression, self.sort = rng.choice(
            [(None, 'none')] + [(rng.choice(NUMERIC), 'numeric')] * 4 + [(rng.choice(NOT_NUMERIC), 'not')] +
            [(rng.choice(FAILING), 'fails'), (rng.choice([s for s in SYNTAX if s]), 'fails')] +
            ([(rng.choice(UNCLEAR), 'unclear')] if rng.random() < .3 else []))
        self.namespace = rng.choice([None, None, 'ns', 'my.namespace', '\u00e9', 'deep', 'x' * 50])
        self.help = rng.choice([None, 'help', 'help with %s {x}', '\u4e2d'])
        self.unit = rng.choice([None, 'ms', 'bytes', '1'])
        self.labels = []
        for key in rng.sample(KEYS, rng.choice([0, 0, 1, 2, 5])):
            r = rng.random()
            if r < .45:
                self.labels.append((key, 'static', rng.choice(STATICS)))
            elif r < .85:
                self.labels.append((key, 'expression', rng.choice(LABELS)))
            else:
                self.labels.append((key, 'fails', rng.choice(FAILING + [s for s in SYNTAX if s])))

    def proto(self):
        return rig.metric(self.name, self.type.upper(),
                          [rig.label(k, static=v) if kind == 'static' else rig.label(k, expression=v)
                           for k, kind, v in self.labels],
                          self.expression, self.namespace, self.help, self.unit)

    def definition(self, rng):
        from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
        labels = [LabelExpression(k, v, None) if kind == 'static' else LabelExpression(k, None, v) for k, kind, v in self.labels]
        return MetricDefinition(self.name, rng.choice([self.type, self.type.upper(), self.type.capitalize()]),
                                labels or rng.choice([None, []]), self.expression, self.namespace, self.help, self.unit)

    def about(self):
        return [self.type, self.sort, [k for _, k, _ in self.labels], self.namespace is None, self.help is None, self.unit is None]


def evaluate(expression, scope):
    return eval(compile(expression.strip(' \t'), '<expected>', 'eval'), scope)


def expected(metric, frame, out):
    """What has to be reported at an event: (op, name, labels, namespace, help, unit, value)."""
    scope = dict(frame.f_globals)
    scope.update(model.locals_of(frame))
    if metric.expression is None:
        value = 1.0
        out.count('no_expression')
    elif metric.sort == 'unclear':
        value = None
    else:
        try:
            value = float(evaluate(metric.expression, scope))
            out.count('numeric_values')
            if any(s in metric.expression for s in SPECIAL):
                out.count('special_numbers')
        except BaseException:
            value = 1.0
            out.count('fallback_values')
    labels = {}
    for key, kind, text in metric.labels:
        if kind == 'static':
            labels[key] = ('static', text)
            out.count('static_labels')
            continue
        try:
            labels[key] = ('value', str(evaluate(text, scope)))
            out.count('expression_labels')
        except BaseException:
            labels[key] = ('failed', None)
            out.count('failing_labels')
    return {'op': metric.type, 'name': metric.name, 'labels': labels, 'namespace': metric.namespace or 'deep',
            'help': metric.help or '', 'unit': metric.unit or '', 'value': value}


def same_number(got, want):
    if not isinstance(got, (int, float)):
        return False
    if want is None:
        return True
    return math.isnan(got) and math.isnan(want) or got == want


def same_labels(got, want):
    if not isinstance(got, dict) or set(got) != set(want):
        return False
    for key, (kind, text) in want.items():
        value = got[key]
        if kind == 'static':
            if not (type(value) is type(text) and value == text or value == str(text)):
                return False
        elif kind == 'value':
            if value != text:
                return False
        elif not isinstance(value, str):
            return False
    return True


def difference(got, want):
    """What is wrong with a report (or None)."""
    if got['op'] != want['op']:
        return 'a metric is reported through the operation of another type'
    if got['name'] != want['name']:
        return 'a metric is reported with another name'
    if not same_labels(got['labels'], want['labels']):
        return 'a metric is reported with other labels'
    if got['namespace'] != want['namespace']:
        return 'a metric is reported with another namespace'
    if (got['help'] or '') != want['help']:
        return 'a metric is reported with another help text'
    if (got['unit'] or '') != want['unit']:
        return 'a metric is reported with another unit'
    if not same_number(got['value'], want['value']):
        return 'a metric is reported with another value'
    return None


class Tracepoint:
    def __init__(self, rng, out, number, line, fn, in_code):
        self.id = 'tp-%d' % number
        self.line = line
        self.method = fn if fn is not None and rng.random() < .15 and not in_code else None
        self.in_code = in_code
        self.metrics = []
        for i in range(rng.choice([1, 1, 2, 3, 6])):
            name = rng.choice(NAMES) % (number * 100 + i)
            if self.metrics and rng.random() < .1:
                name = self.metrics[-1].name
            self.metrics.append(Metric(rng, out, name))
        self.args = dict(UNLIMITED)
        self.limit = None
        if rng.random() < .3:
            self.limit = rng.choice([1, 2, 3])
            self.args['fire_count'] = str(self.limit)
            out.count('limited_tracepoints')
        self.condition = None
        if rng.random() < .25:
            self.condition = rng.choice(['a > 0', 'flag', 'not flag', 'a == 10', 'undefined', 'len(items) > 3'])
            self.args['condition'] = self.condition
            out.count('conditions')
        self.log = rng.random() < .2
        if self.log:
            self.args['log_msg'] = 'at %s' % self.id
        if rng.random() < .7:
            self.args['snapshot'] = 'no_collect'
        if self.method:
            self.args['method_name'] = self.method
        elif rng.random() < .2:
            self.args['stage'] = 'line_start'
        if in_code:
            out.count('registered_in_code')

    def permitted(self, frame):
        if self.condition is None:
            return True
        scope = dict(frame.f_globals)
        scope.update(model.locals_of(frame))
        try:
            return bool(eval(self.condition, scope))
        except Exception:
            return False


FAILURES = [lambda: ValueError('processor {0} %s'), lambda: SystemExit('processor'), lambda: KeyboardInterrupt(),
            lambda: StopIteration(), lambda: AttributeError('counter'), lambda: NotImplementedError()]


def processors(rng, out, mode):
    """The plugins of a run -> (plugin paths, tags of the active processors)."""
    if mode == 'none':
        extra.reset({})
        return [], []
    table, plugins, tags = {}, [], []
    for cls, tag in (('RecMetrics', 'A'), ('RecMetricsB', 'B')):
        if rng.random() < .6:
            plugins.append(cls)
            tags.append(tag)
    for i in range(rng.choice([0, 0, 1, 2])):
        name = 'Extra%d' % i
        spec = {'kinds': ('metric',), 'order': rng.choice([0, -5, 7])}
        if rng.random() < .5:
            fail = rng.choice(FAILURES)
            spec['fail'] = {rng.choice(OPS + ('metric',)): fail}
            out.count('raising_processors')
        if rng.random() < .3:
            spec['mutate'] = True
            out.count('mutating_processors')
        if rng.random() < .2:
            spec['active'] = False
            out.count('inactive_processors')
        else:
            tags.append(name)
        if rng.random() < .3:
            spec['kinds'] = ('metric', 'decorator', 'logger')
        table[name] = spec
        plugins.append(extra.path(name))
    if mode == 'inactive':
        plugins, tags = [], []
        table = {'Extra0': {'kinds': ('metric',), 'active': False}, 'Extra1': {'kinds': ('decorator',)}}
        plugins = [extra.path('Extra0'), extra.path('Extra1')]
        out.count('inactive_processors')
    extra.reset(table)
    if rng.random() < .5:
        plugins.append('RecSpans')
    rng.shuffle(plugins)
    return plugins, tags


@CHECK.unit
def reports(out, rng, params):
    tmp = rig.scratch()
    end = time.monotonic() + params['seconds']
    for n in itertools.count():
        if time.monotonic() > end or out.violations:
            return
        source, marks = program(rng, rng.choice([2, 4]))
        extra_lines = MORE.count('\n')
        source = MORE + source
        marks = [(line + extra_lines, fn) for line, fn in marks]
        path = rig.write_module(os.path.join(tmp, str(n)), 'metered.py', source)
        code, ns = rig.load_module(path)
        exec(code, ns)
        mode = rng.choice(['some', 'some', 'some', 'some', 'late', 'late', 'inactive', 'none'])
        plugins, tags = processors(rng, out, {'late': 'none'}.get(mode, mode))
        if len(tags) > 1:
            out.count('several_processors')
        in_code = rng.random() < .3
        tps = []
        for i in range(rng.choice([1, 3, 8])):
            line, fn = rng.choice(marks)
            tps.append(Tracepoint(rng, out, i, line, fn, in_code))
        rig.EVENTS.clear()
        clock = rig.VirtualClock().install()
        tee = None
        try:
            agent = rig.Agent(plugins=['RecLogger'] + plugins)
            if in_code:
                for tp in tps:
                    agent.register('metered.py', tp.line, tp.args, rng.choice([[], ['a']]), [m.definition(rng) for m in tp.metrics])
            else:
                agent.install([rig.tp(tp.id, 'metered.py', 0 if tp.method else tp.line, tp.args, (),
                                      [m.proto() for m in tp.metrics]) for tp in tps])
            due = []

            def observe(inv, number, frame, event, arg):
                for i, tp in enumerate(tps):
                    if tp.method is not None:
                        at = event == 'call' and frame.f_code.co_name == tp.method
                    else:
                        at = event == 'line' and frame.f_lineno == tp.line
                    if at and tp.permitted(frame):
                        due.append((number, threading.current_thread().name, i, [expected(m, frame, out) for m in tp.metrics]))

            threads = rng.choice([0, 0, 0, 3]) if mode != 'late' else 0
            tee = rig.Tee(sys.gettrace(), observe, {path})
            tee.install()
            ns['main']()
            ts = [threading.Thread(target=ns['main'], name='t%d' % i) for i in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            first, reported = list(due), rig.events('metric')
            if mode == 'late':
                # a processor becomes active, the hits until now have used nothing
                out.check(not reported, 'a metric is reported without an active processor', got=reported[:2])
                out.count('no_processor_hits', len(due))
                agent.service.plugins = list(agent.service.plugins) + [rig.RecMetrics(agent.service)]
                tags = ['A']
                del due[:]
                ns['main']()
                reported = rig.events('metric')
                out.count('late_processor_reports', len(reported))
        finally:
            if tee is not None:
                tee.remove()
            clock.remove()
        agent.stop()
        out.count('threads_run', threads)
        out.check(not tee.raised, 'the trace function raised', raised=tee.raised[:3])
        if not tags:
            out.check(not reported, 'a metric is reported without an active processor', got=reported[:2])
            out.count('no_processor_hits', len(first))
        else:
            judge(out, tps, tags, due, reported, threads)
        logs = Counter(d['tp'] for d in rig.events('log'))
        if mode != 'late' and not in_code:
            for i, tp in enumerate(tps):
                hits = sum(1 for d in first if d[2] == i)
                want = (hits if tp.limit is None else min(hits, tp.limit)) if tp.log else 0
                out.check(logs[tp.id] == want, 'the metrics change what else the tracepoint does', got=logs[tp.id], want=want)
        out.case((mode, tags, threads, [[m.about() for m in tp.metrics] for tp in tps][:3]),
                 {'metrics': [m.__dict__ for m in tps[0].metrics][:2], 'processors': tags, 'mode': mode}, bool(reported))


def judge(out, tps, tags, due, reported, threads):
    by_hit = defaultdict(list)
    owner = {m.name: i for i, tp in enumerate(tps) for m in tp.metrics}
    for d in reported:
        if not out.check(d['name'] in owner, 'a metric that is not defined is reported', got=d):
            return
        if not out.check(d['proc'] in tags, 'a metric is reported to a processor that is not active', got=d):
            return
        by_hit[(owner[d['name']], d['hit'][1] if d['hit'] else None, d['proc'])].append(d)
    hits = defaultdict(list)
    for number, tname, i, wanted in sorted(due, key=lambda h: h[0]):
        hits[i].append((number, tname, wanted))
    for i, tp in enumerate(tps):
        mine = hits[i]
        if threads and tp.limit is not None:
            got = {n for (j, n, _) in by_hit if j == i}
            out.check(len(got) == min(len(mine), tp.limit), 'the number of reported hits is not that of the permitted hits',
                      got=len(got), limit=tp.limit, hits=len(mine))
            mine = [h for h in mine if h[0] in got]
        elif tp.limit is not None:
            mine = mine[:tp.limit]
        expect = {h[0]: h for h in mine}
        got = {n for (j, n, _) in by_hit if j == i}
        if not out.check(got <= set(expect), 'a metric is reported for a hit that is not permitted', metrics=[m.name for m in tp.metrics],
                         extra=sorted(got - set(expect), key=str)[:3], limit=tp.limit, condition=tp.condition):
            return
        for number, tname, wanted in mine:
            for tag in tags:
                ds = by_hit.get((i, number, tag), [])
                where = {'processor': tag, 'tracepoint': i, 'definitions': [m.__dict__ for m in tp.metrics][:4],
                         'processors': tags, 'limit': tp.limit}
                if not out.check(Counter(d['name'] for d in ds) == Counter(w['name'] for w in wanted),
                                 'the metrics are not reported once each to every processor', got=[d['name'] for d in ds],
                                 want=[w['name'] for w in wanted], **where):
                    return
                # several can have the same name, so find a match for each of them
                left = list(ds)
                for w in wanted:
                    same = [d for d in left if d['name'] == w['name']]
                    match = next((d for d in same if difference(d, w) is None), None)
                    if not out.check(match is not None, difference(same[0], w), got={k: same[0][k] for k in w}, want=w, **where):
                        return
                    left.remove(match)
                    out.check(match['tname'] == tname, 'a metric is reported by another thread')
                    out.count('reports')
                    out.count('type_' + w['op'])
                    if w['namespace'] == 'deep':
                        out.count('default_namespaces')


@CHECK.unit
def builtin(out, rng, params):
    """The processors that come with the agent: one hit of metrics with names of their own."""
    from prometheus_client import REGISTRY
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from opentelemetry import metrics as otel
    reader = InMemoryMetricReader()
    otel.set_meter_provider(MeterProvider([reader]))
    tmp = rig.scratch()
    path = rig.write_module(tmp, 'metered.py', MORE + SOURCE + '\ndef main(a, text):\n    items = [1, a]\n    mark = 1\n    return mark\n')
    line = (MORE + SOURCE).count('\n') + 4
    code, ns = rig.load_module(path)
    exec(code, ns)
    for n in range(params['n']):
        agent = rig.Agent(config={'PLUGIN_OTELMETRICS': 'True', 'PLUGIN_PROMETHEUSPLUGIN': 'True'},
                          plugins=rng.choice([[], ['RecMetrics']]))
        definitions = []
        for i in range(8):
            op = rng.choice(OPS)
            value = rng.choice([('a', 12.0), ('len(items)', 2.0), (None, 1.0), ('text', 1.0), ('undefined', 1.0), ('a / 5', 2.4)])
            labels = rng.choice([[], [('k', 'static', 'v')], [('k', 'expression', 'text'), ('l', 'static', 'w')],
                                 [('k', 'expression', 'a')]])
            definitions.append((op, 'c17_%s_%d_%d' % (rng.randrange(10 ** 9), n, i), value, labels,
                                rng.choice([None, 'space']), rng.choice([None, 'some help']), rng.choice([None, 'ms'])))
        agent.install([rig.tp('t%d' % i, 'metered.py', line, {'snapshot': 'no_collect'}, (),
                              [rig.metric(name, op.upper(), [rig.label(k, static=v) if kind == 'static' else
                                                             rig.label(k, expression=v) for k, kind, v in labels],
                                          value[0], ns_, help_, unit)])
                       for i, (op, name, value, labels, ns_, help_, unit) in enumerate(definitions)])
        sys.settrace(agent.deep.trigger_handler.trace_call)
        ns['main'](12, 'some text')
        sys.settrace(None)
        samples = [(s, m) for m in REGISTRY.collect() for s in m.samples]
        points = defaultdict(list)
        data = reader.get_metrics_data()
        for rm in data.resource_metrics if data else ():
            for sm in rm.scope_metrics:
                for m in sm.metrics:
                    for p in m.data.data_points:
                        points[m.name].append((m, p))
        for op, name, (expression, value), labels, ns_, help_, unit in definitions:
            want = {k: v if kind == 'static' else {'text': 'some text', 'a': '12'}[v] for k, kind, v in labels}
            where = {'op': op, 'expression': expression, 'labels': want, 'namespace': ns_, 'unit': unit}
            suffix = {'counter': '_total', 'gauge': '', 'histogram': '_sum', 'summary': '_sum'}[op]
            full = '%s_%s%s%s' % (ns_ or 'deep', name, '_' + unit if unit else '', suffix)
            found = [(s, m) for s, m in samples if s.name == full]
            if out.check(len(found) == 1, 'the metric is not in the prometheus registry', name=full, **where):
                s, m = found[0]
                out.check(s.value == value and dict(s.labels) == want and m.type == op and m.documentation == (help_ or ''),
                          'the metric in the prometheus registry is not the defined one', got=repr(s), type=m.type, **where)
                out.count('prometheus_samples')
            found = points.get('%s_%s' % (ns_ or 'deep', name), [])
            if out.check(len(found) == 1, 'the metric is not reported to opentelemetry', name=name, **where):
                m, p = found[0]
                got = p.sum if op in ('histogram', 'summary') else p.value
                out.check(got == value and dict(p.attributes) == want and (m.unit or '') == (unit or '') and
                          (m.description or '') == (help_ or ''),
                          'the metric of opentelemetry is not the defined one', got=repr(p), **where)
                out.count('otel_points')
        agent.stop()
        left = [s.name for m in REGISTRY.collect() for s in m.samples if any(d[1] in s.name for d in definitions)]
        out.count('registries_after_shutdown', 1 if not left else 0)
        out.case(('builtin', [d[0] for d in definitions], [d[2][0] for d in definitions]), None, True)


@CHECK.unit
def shared(out, rng, params):
    """The processors that come with the agent: several hits of the same metrics, also from several threads at once."""
    from prometheus_client import REGISTRY
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from opentelemetry import metrics as otel
    reader = InMemoryMetricReader()
    otel.set_meter_provider(MeterProvider([reader]))
    tmp = rig.scratch()
    path = rig.write_module(tmp, 'counted.py', 'def main(a, kind):\n    mark = 1\n    return mark\n')
    code, ns = rig.load_module(path)
    exec(code, ns)
    register = REGISTRY.register

    def slowly(collector):
        # others run while a metric is made
        time.sleep(.004)
        return register(collector)

    REGISTRY.register = slowly
    for n in range(params['n']):
        agent = rig.Agent(config={'PLUGIN_OTELMETRICS': 'True', 'PLUGIN_PROMETHEUSPLUGIN': 'True'}, plugins=['RecMetrics'])
        names = [('c17s_%s_%d_%d' % (rng.randrange(10 ** 9), n, i), rng.choice(['counter', 'histogram', 'summary']),
                  rng.random() < .5) for i in range(4)]
        agent.install([rig.tp('t%d' % i, 'counted.py', 2, {'snapshot': 'no_collect', 'fire_count': '-1', 'fire_period': '0'}, (), [
            rig.metric(name, op.upper(), [rig.label('kind', expression='kind')] if labelled else [], 'a')])
            for i, (name, op, labelled) in enumerate(names)])
        threads, hits = rng.choice([1, 2, 4]), rng.choice([1, 3])
        barrier = threading.Barrier(threads)

        def host(i):
            barrier.wait()
            for k in range(hits):
                ns['main'](i * 10 + k + 1, 'k%d' % (k % 2))

        threading.settrace(agent.deep.trigger_handler.trace_call)
        running = [threading.Thread(target=host, args=(i,)) for i in range(threads)]
        for t in running:
            t.start()
        for t in running:
            t.join()
        threading.settrace(None)
        want = defaultdict(float)
        for i in range(threads):
            for k in range(hits):
                want['k%d' % (k % 2)] += i * 10 + k + 1
        samples = [s for m in REGISTRY.collect() for s in m.samples]
        points = defaultdict(list)
        data = reader.get_metrics_data()
        for rm in data.resource_metrics if data else ():
            for sm in rm.scope_metrics:
                for m in sm.metrics:
                    points[m.name].extend(m.data.data_points)
        for name, op, labelled in names:
            expected = dict(want) if labelled else {None: sum(want.values())}
            where = {'op': op, 'threads': threads, 'hits': hits, 'want': expected}
            full = 'deep_%s%s' % (name, '_total' if op == 'counter' else '_sum')
            got = {s.labels.get('kind'): s.value for s in samples if s.name == full}
            out.check(got == expected, 'the reports of several hits are not all in the prometheus registry', got=got, **where)
            got = defaultdict(float)
            for p in points.get('deep_' + name, ()):
                got[p.attributes.get('kind')] += p.sum if op != 'counter' else p.value
            out.check(got == expected, 'the reports of several hits are not all in opentelemetry', got=dict(got), **where)
            out.count('shared_metrics')
        out.case(('shared', threads, hits, [x[1:] for x in names]), None, True)
        agent.stop()
    REGISTRY.register = register


@CHECK.planner
def plan(tier, seed):
    if tier == 'quick':
        return core.spread('reports', 15, seed, seconds=14) + core.spread('builtin', 1, seed, n=15) + core.spread('shared', 1, seed, n=60)
    return core.spread('reports', 56, seed, seconds=80) + core.spread('builtin', 8, seed, n=150) + core.spread('shared', 8, seed, n=400)


if __name__ == '__main__':
    sys.exit(CHECK.main())
