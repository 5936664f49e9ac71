"""C10: conditions gate the firing, expressions see the frame and nothing else, errors are contained."""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, model, progs, rig  # noqa: E402

CHECK = core.Check(
    'C10', 'exploration',
    'A case is one (tracepoint, hit): a condition and expressions of a tracepoint at one hit of a program, compared '
    'with the same expressions evaluated independently in the same frame at the same event. Non-trivial: the tracepoint '
    'has a condition or an expression. Distinct by (expressions, outcome, position in the budget).',
    ['only conditions that are booleans or that fail are judged', 'the expressions have no side effects',
     'the reference evaluates in the globals of the module overlaid with the locals of the frame'],
    required=['hits', 'condition_true', 'condition_false', 'condition_error', 'budget_exhausted', 'fired_after_rejection',
              'expression_errors', 'expression_values', 'agent_names_tried', 'metric_values', 'label_values',
              'log_fields', 'base_exceptions'])

SOURCE = '''
import math
G = 10
glist = [1, 2, 3]
shadow = 'global'
SHADOW = _under = __both__ = 'global'
id = 'a global with the name of a builtin'
Late = 1
only_global = {'k': 1}

class Evil:
    def __init__(self, kind=ValueError):
        self.kind = kind
    def __eq__(self, other):
        raise self.kind('eq')
    def __hash__(self):
        return 1
    def __bool__(self):
        raise self.kind('bool')
    def __len__(self):
        raise self.kind('len')
    @property
    def attr(self):
        raise self.kind('attr')
    def __str__(self):
        raise self.kind('str')
    __repr__ = __str__
    def __getitem__(self, k):
        raise self.kind('item')
    def __call__(self):
        raise self.kind('call')

class BadStr(Exception):
    def __str__(self):
        raise RuntimeError('no text')

class Thing:
    cls_attr = 5
    def __init__(self, n):
        self.n = n
        self.__hidden = n
        self.flag = n % 2 == 0
    def method(self, k):
        local = self.n + k
        shadow = 'method'
        done = local > k
        return done

def boom(kind=KeyError):
    raise kind('boom')

def badstr():
    raise BadStr()

def deep_recursion(n=0):
    return deep_recursion(n + 1)

def work(i, name, flag, items, evil, wicked):
    total = i * 2
    half = i / 2
    def inner(k):
        free = total + k
        seen = free > 5
        return seen
    for j in range(3):
        acc = j + total
        even = acc % 2 == 0
    shadow = [name] * j
    thing = Thing(i)
    inner(i)
    thing.method(j)
    comp = [x for x in items if x]
    gen = list(step(i))
    if flag:
        extra = 'only if flag'
        later = extra
    return total

def shadows(i, G, sum=5, *math, **Thing):
    SHADOW = 'local'
    _under = __both__ = ['local']
    __name__ = 'local'
    __doc__ = 'local'
    len = max = i
    id = 'local'
    str2bool = sys = 'local'
    glist = Late = None
    def uses():
        inside = (SHADOW, G, Late)
        return inside
    uses()
    del SHADOW, len
    Late = only_global = True
    boom = work = step = i
    return uses

def step(n):
    at = n
    yield at
    at = n + 1
    yield at

class Body:
    n = 3
    flag = True
    double = n * 2
    last = double

def main(hits, wicked):
    for h in range(hits):
        state = h
        try:
            shadows(h, 'G%d' % h, h * 2, h, h, k=h)
        except NameError:
            pass
        work(h, 'n%d' % h, h % 3 == 0, [h, None, 'x' * h], Evil(), wicked)
    return state
'''

TRUTHS = ['i > {k}', 'i == {k}', 'i % 2 == 0', 'flag', 'not flag', 'name == "n{k}"', 'True', 'False', 'G == 10',
          'shadow == "global"', 'total >= {k} and flag', 'any(x == {k} for x in items)', 'len(items) == 3',
          '[y for y in items if y == i] == [i]', 'thing.flag', 'thing.n > {k}', 'isinstance(shadow, list)', 'j == 2',
          'acc > {k}', 'even', 'self.n > {k}', 'self.flag', 'free > {k}', 'k == {k}', 'total + k == free',
          'math.floor(half) == {k}', 'only_global["k"] == 1', 'state == {k}', 'h % 2 == 1', '(lambda v: v > {k})(i)',
          'done', 'i in glist', '"total" in dir()', '__name__ == "scoped"', 'at == {k}', 'n > {k}', 'double == 6',
          ' i > {k}', 'bool(i)', 'all(G > g for g in glist)', 'max(glist) == 3', 'isinstance(thing, Thing)',
          'hasattr(evil, "kind")', 'i != {k} or False', 'f"{{i}}" == "{k}"', '{{"a": i}}["a"] == {k}', 'extra == later',
          'comp == [x for x in items if x]', 'True if i > {k} else False', 'wicked is None', 'len(name) > 1',
          'sum(1 for g in glist if g > 1) == 2', 'cls_attr == 5'] + [
    'SHADOW == "local"', 'SHADOW == "global"', '_under == ["local"]', '_under == "global"', '__both__ == "global"',
    '__name__ == "local"', '__doc__ == "local"', 'len == i', 'len("abc") == 3', 'id == "local"', 'id("x") > 0', 'callable(id)',
    'G == "G{k}"', 'Late is None', 'Late is True', 'Late == 1', 'max == {k}', 'math == (i, i)', 'Thing == {{"k": i}}', 'sum == i * 2',
    'only_global is True', 'glist is None', 'str2bool == "local"', 'sys == "local"', 'inside[0] == "local"', 'boom == {k}', 'work == i',
    'callable(work)', 'step is not None']
FAILS = ['missing_name', '1 / 0', 'evil == 1', 'bool(evil)', 'len(evil)', 'evil.attr', 'evil[0]', 'evil()', 'i +', 'i i',
         'boom()', 'boom(SystemExit)', 'boom(KeyboardInterrupt)', 'boom(GeneratorExit)', 'boom(MemoryError)',
         'boom(StopIteration)', 'boom(BaseException)', 'badstr()', 'deep_recursion()', 'items["x"]', 'name.nope', 'def f(): pass', 'x = 1',
         'self.__hidden', 'int("no")', '"\\ud800".encode()', 'next(iter(()))', '[][1]', 'not_there > 1', 'str(evil)',
         'exit(3)', 'wicked.attr', 'wicked == 1', 'raise ValueError', 'lambda', '\x00', 'import os', 'evil > 2 and True']
AGENT_NAMES = ['deep', 'logging', 'uuid', 'TriggerContext', 'trigger_context', 'expression', 'scope', 'frame', 'event',
               'ActionContext', 'str2bool', 'LocationAction', 'FrameCollector', 'time_ns', 'watch', 'ctx', 'action',
               'config', 'location_action', 'arg', 'TracepointLogger', 'NoActionContext', 'abc', 'sys', 'os', 'threading',
               'var_lookup', 'log_msg', 'Dict', 'Optional', 'List', 'FrameType', 'self', 'result', 'safe_str']
VALUES = ['i', 'name', 'items', 'total', 'G', 'shadow', 'glist[0]', 'thing.n', 'thing.method(1)', '[x for x in items]',
          'len(items)', 'half', 'str(i) + "x"', 'only_global', 'self.n', 'free', 'acc', '1', '2.5', '"7"', 'True',
          'sum(v for v in glist)', '{"i": i}["i"]', 'not_there if False else 4', 'None', 'math.pi', 'state', 'Thing.cls_attr',
          '(i, name)', 'flag', 'at', 'n', 'sorted(items, key=str)', 'i if i > 2 else name', '-i', 'i ** 50', 'total / 4',
          'SHADOW', '_under', '__both__', '__name__', '__doc__', 'len', 'id', 'Late',
          'math', 'Thing', 'sum', 'max', 'only_global', 'work', 'inside', 'sys', '__builtins__ is not None', '__file__',
          '[a + total for a in glist]', '(lambda q: q + total)(1)', 'dict(a=i)', '"%s-%s" % (i, name)']


def outcome(expr, scope):
    try:
        return 'value', eval(expr, dict(scope))
    except BaseException as e:
        if not isinstance(e, Exception):
            return 'base_error', e
        return 'error', e


def err_text(e):
    try:
        return str(e)
    except BaseException:
        return None


@CHECK.unit
def scopes(out, rng, params):
    sys.setrecursionlimit(400)
    rig.SILENT_CONF  # noqa: B018
    clock = rig.VirtualClock().install()
    path = rig.write_module(rig.scratch(), 'scoped.py', SOURCE)
    function_lines = sorted(x for x, f in progs.lines_of(SOURCE).items() if f in
                            ('work', 'inner', 'method', 'step', 'main', 'Body', 'shadows', 'uses'))
    for round_ in range(params['rounds']):
        rig.EVENTS.clear()
        agent = rig.Agent(plugins=('RecLogger', 'RecSpans', 'RecMetrics', 'RecMetricsB'))
        tps = []
        for k in range(rng.randrange(2, 9)):
            def pick(pool):
                return rng.choice(pool).replace('{{', '\1').replace('}}', '\2').replace(
                    '{k}', str(rng.randrange(6))).replace('\1', '{').replace('\2', '}')

            def anything(good=VALUES):
                r = rng.random()
                if r < .25:
                    return pick(FAILS)
                if r < .4:
                    out.count('agent_names_tried')
                    return rng.choice(AGENT_NAMES)
                return rng.choice(good)

            args = {'fire_count': rng.choice(['-1', '-1', '1', '2', '3', '5']), 'fire_period': '0'}
            condition = None
            r = rng.random()
            if r < .5:
                condition = pick(TRUTHS)
            elif r < .7:
                condition = pick(FAILS)
            elif r < .8:
                condition = rng.choice(AGENT_NAMES) + rng.choice([' is not None', '', '.__name__ != ""'])
                out.count('agent_names_tried')
            if condition is not None:
                args['condition'] = condition
            kind = rng.choice(['snapshot', 'snapshot', 'log', 'metric', 'span', 'snaplog', 'everything'])
            watches, metrics = [], []
            if kind in ('snapshot', 'snaplog', 'everything'):
                watches = [anything() for _ in range(rng.randrange(0, 4))]
                args['frame_type'] = rng.choice(['no_frame', 'single_frame'])
            else:
                args['snapshot'] = 'no_collect'
            if kind in ('log', 'snaplog', 'everything'):
                args['log_msg'] = 'L%d' % k + ''.join('|{%s}' % e for e in
                                                      [rng.choice(['i', 'G', 'name', 'nope_nope', 'total', 'shadow', 'expression', 'evil.attr', 'boom(SystemExit)', 'thing.n + 1',
                                                                   'len(items)']) for _ in range(rng.randrange(0, 4))])
            if kind in ('metric', 'everything'):
                metrics = [rig.metric('m%d_%d' % (k, m), expression=rng.choice([None, anything(), anything()]),
                                      labels=[rig.label('l%d' % i, expression=anything()) for i in
                                              range(rng.randrange(0, 3))])
                           for m in range(rng.randrange(1, 3))]
            if kind in ('span', 'everything'):
                args['span'] = 'line'
            line = rng.choice(function_lines)
            if rng.random() < .12:
                args['method_name'] = rng.choice(['work', 'inner', 'method', 'main'])
                if 'span' in args:
                    args['span'] = 'method'
            tps.append(rig.tp('t%d' % k, 'scoped.py', line, args, watches, metrics))
        agent.install(tps)
        expected = {}
        fired, rejected = {}, {}

        def observe(inv, n, frame, event, arg):
            if event not in ('line', 'call') or n < 0:
                return
            for t in tps:
                if 'method_name' in t.args:
                    if event != 'call' or frame.f_code.co_name != t.args['method_name']:
                        continue
                elif event != 'line' or frame.f_lineno != t.line_number:
                    continue
                scope = dict(frame.f_globals)
                scope.update(model.locals_of(frame))
                cond = ('none', True)
                if 'condition' in t.args:
                    cond = outcome(t.args['condition'], scope)
                if cond[0] == 'value' and type(cond[1]) is not bool:
                    cond = ('unjudged', None)
                limit = int(t.args['fire_count'])
                passes = cond[0] == 'none' or cond[0] == 'value' and cond[1]
                due = passes and (limit == -1 or fired.get(t.ID, 0) < limit)
                out.count('hits')
                if cond[0] == 'value':
                    out.count('condition_true' if cond[1] else 'condition_false')
                elif 'error' in cond[0]:
                    out.count('condition_error')
                if cond[0] == 'base_error':
                    out.count('base_exceptions')
                item = {'tp': t, 'cond': cond, 'due': due}
                if cond[0] == 'unjudged':
                    expected.setdefault('skip', set()).add(t.ID)
                if passes and not due:
                    out.count('budget_exhausted')
                if due:
                    if rejected.get(t.ID):
                        out.count('fired_after_rejection')
                    fired[t.ID] = fired.get(t.ID, 0) + 1
                    item['watches'] = [(w, view(outcome(w, scope))) for w in t.watches]
                    item['metrics'] = [(m.name, view(outcome(m.expression, scope)) if m.expression else None,
                                        [(x.key, view(outcome(x.expression, scope))) for x in m.labelExpressions])
                                       for m in t.metrics]
                    if 'log_msg' in t.args:
                        item['fields'] = [(f[1:-1], view(outcome(f[1:-1], scope))) for f in
                                          t.args['log_msg'].split('|')[1:]]
                elif not passes:
                    rejected[t.ID] = rejected.get(t.ID, 0) + 1
                expected[(n, t.ID)] = item

        def view(result):
            kind, v = result
            if 'error' in kind:
                if kind == 'base_error':
                    out.count('base_exceptions')
                return kind, err_text(v)
            number = None
            try:
                number = float(v)
            except BaseException:
                pass
            return kind, model.describe(v), model.text_of(v), number

        tee = rig.Tee(sys.gettrace(), observe, {path})
        tee.install()

        def run():
            code, ns = rig.load_module(path)
            exec(code, ns)
            ns['main'](7, rng_wicked)

        rng_wicked = rng.choice([None, None, 1])
        ok = []
        t = threading.Thread(target=lambda: (run(), ok.append(1)))
        t.start()
        t.join()
        tee.remove()
        out.check(ok and not tee.raised, 'an expression raised into the application', raised=tee.raised[:2])
        agent.stop()
        judge(out, tps, expected)
    clock.remove()


def judge(out, tps, expected):
    skip = expected.pop('skip', set())
    logs, pushes, metrics, spans = {}, {}, {}, {}
    ids = {t.ID: t for t in tps}
    for kind, d in rig.EVENTS:
        n = d['hit'][1] if d.get('hit') else None
        if kind == 'log':
            key = d['msg'][len('[deep] L'):].split('|')[0]
            logs.setdefault((n, 't' + key), []).append(d['msg'])
        elif kind == 'push':
            pushes.setdefault((n, d['tp']), []).append(d['snapshot'])
        elif kind == 'metric':
            metrics.setdefault((n, 't' + d['name'][1:].split('_')[0]), []).append(d)
        elif kind == 'span_open':
            spans.setdefault((n, d['tp']), []).append(d)
    for key in set(logs) | set(pushes) | set(metrics) | set(spans):
        item = expected.get(key)
        if key[1] in skip:
            continue
        out.check(item is not None and item['due'],
                  'an action although %s' % ('the location was not reached' if item is None else
                                             'the condition is not true' if item['cond'][0] != 'none' and not (
                                                 item['cond'][0] == 'value' and item['cond'][1]) else
                                             'the budget is used up'),
                  tp=str(ids.get(key[1])), condition=item and item['cond'])
    for key, item in expected.items():
        t = item['tp']
        if t.ID in skip:
            continue
        args = dict(t.args)
        out.case((args.get('condition'), list(t.watches), item['cond'][0], item['due'], args['fire_count']),
                 sample={'condition': args.get('condition'), 'watches': list(t.watches), 'outcome': item['cond'][0],
                         'due': item['due']},
                 nontrivial='condition' in args or bool(t.watches))
        if not item['due']:
            continue
        collects = args.get('snapshot') != 'no_collect'
        where = {'condition': args.get('condition'), 'tp': str(t)[:600]}
        if collects:
            snaps = pushes.get(key, [])
            if out.check(len(snaps) == 1, 'a hit with a true condition gave %d snapshots' % len(snaps), **where):
                snapshot(out, snaps[0], item, where)
        if 'log_msg' in args:
            have = logs.get(key, [])
            if out.check(len(have) == 1, 'a hit with a true condition gave %d logs' % len(have), **where):
                parts = have[0].split('|')[1:]
                problem = None
                pattern_ok = have[0].startswith('[deep] L' + t.ID[1:])
                rest = have[0]
                for expr, result in item['fields']:
                    out.count('log_fields')
                    want = result[1] if 'error' in result[0] else result[2]
                    if want is None:
                        continue
                    if want not in rest:
                        problem = (expr, want)
                out.check(pattern_ok and problem is None and len(parts) >= len(item['fields']),
                          'a log field differs from its expression in the frame', problem=problem, log=have[0],
                          **where)
        if t.metrics:
            have = metrics.get(key, [])
            names = sorted(d['name'] for d in have)
            want = sorted([m[0] for m in item['metrics']] * 2)
            if out.check(names == want, 'a hit with a true condition gave the metrics %s' % names, want=want, **where):
                for name, value, labels in item['metrics']:
                    for d in have:
                        if d['name'] != name:
                            continue
                        number = 1 if value is None or 'error' in value[0] or value[3] is None else value[3]
                        out.count('metric_values')
                        out.check(d['value'] == number or number != number, 'a metric value differs from its expression',
                                  value=d['value'], want=number, name=name, **where)
                        for k, v in labels:
                            out.count('label_values')
                            if 'error' in v[0]:
                                out.check(isinstance(d['labels'].get(k), str), 'a failing label lost its key', **where)
                                out.count('expression_errors')
                            elif v[2] is not None and ' at 0x' not in v[2]:
                                out.check(d['labels'].get(k) == v[2], 'a label differs from its expression',
                                          label=d['labels'].get(k), want=v[2], **where)
        if 'span' in args:
            out.check(len(spans.get(key, [])) == 1, 'a hit with a true condition gave %d spans' %
                      len(spans.get(key, [])), **where)


def snapshot(out, snap, item, where):
    watches = [w for w in snap.watches if w.source == 'WATCH']
    if not out.check([w.expression for w in watches] == [w for w, _ in item['watches']],
                     'the watches differ from the configured ones', have=[w.expression for w in watches], **where):
        return
    for w, (expr, result) in zip(watches, item['watches']):
        if 'error' in result[0]:
            out.count('expression_errors')
            out.check(w.result is None and w.error is not None and (result[1] is None or result[1] in w.error),
                      'a failing watch has no error', expr=expr, error=w.error, want=result[1], result=str(w.result))
            continue
        out.count('expression_values')
        if not out.check(w.result is not None and w.result.vid in snap.var_lookup, 'a watch has no result', expr=expr,
                         error=w.error):
            continue
        v = snap.var_lookup[w.result.vid]
        rec = result[1]
        out.check(v.type == rec.type and (rec.texts is None or rec.texts[0] is None or ' at 0x' in rec.texts[0]
                                          or v.value in [x[:1024] for x in rec.texts if x is not None]),
                  'a watch differs from its expression in the frame', expr=expr, have=(v.type, v.value),
                  want=(rec.type, rec.texts))


@CHECK.planner
def plan(tier, seed):
    return core.spread('scopes', 24 if tier == 'quick' else 240, seed, rounds=15)


if __name__ == '__main__':
    sys.exit(CHECK.main())
