"""C20: plugins are optional: ordered, skipped when inactive, isolated when faulty."""
import itertools
import json
import os
import random
import re
import subprocess
import sys
import threading
import time
from collections import Counter, defaultdict

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, extra, rig  # noqa: E402

CHECK = core.Check(
    'C20', 'fault_enumeration',
    'A case is (a) a set of configured plugins with entries that cannot be imported, constructed or used, that are switched off '
    'and with orders of all kinds, started (also again, with other settings): those that are loaded, their order and the order '
    'of their calls are compared with the table; (b) one placement of faults in the callbacks of a set of plugins (every single '
    'callback x exception x position is enumerated, subsets of callbacks with patterns of failing calls are drawn): the same '
    'program under the same tracepoints is run with faults and without, and what the other plugins were given, the snapshots '
    'that were sent with their attributes, the result of the program and the shutdown have to be the same except for the '
    'contributions that failed; (c) a fresh interpreter in which optional packages are missing or broken. Non-trivial: at '
    'least one plugin is skipped or fails. Distinct by the table of plugins, faults, and tracepoints.',
    ['a plugin that fails to say whether it is active may be loaded or not', 'the position of a plugin whose order is not a '
     'number is not judged', 'of several loggers only the first one is used, so a log that fails is not given to the next one'],
    required=['tables', 'loaded_plugins', 'skipped_inactive', 'skipped_not_importable', 'skipped_construction', 'order_compared',
              'odd_orders', 'restarts', 'call_orders', 'fault_runs', 'faults_injected', 'failed_resource', 'failed_decorate',
              'failed_log', 'failed_create_span', 'failed_close', 'failed_metric', 'failed_shutdown', 'failed_construct',
              'failed_order', 'single_faults', 'snapshots_compared', 'decorations_compared', 'spans_compared', 'metrics_compared',
              'logs_compared', 'resources_compared', 'shutdowns_compared', 'wrong_results', 'threaded_runs', 'fresh_processes',
              'missing_packages', 'broken_packages', 'builtin_faults'])

UNLIMITED = {'fire_count': '-1', 'fire_period': '0'}
OPS = ('counter', 'gauge', 'histogram', 'summary')


# ---------------------------------------------------------------- what can be raised

class Boom(BaseException):
    pass


class BadStr(Exception):
    def __str__(self):
        raise ValueError('no str')


class BadRepr(Exception):
    def __repr__(self):
        raise SystemExit(3)
    __str__ = __repr__


class NoText(Exception):
    def __str__(self):
        return None


class BadArgs(Exception):
    @property
    def args(self):
        raise RuntimeError('args')

    @property
    def __cause__(self):
        raise RuntimeError('cause')


def cyclic():
    e = ValueError('cycle')
    e.__cause__ = e.__context__ = e
    return e


def deep_recursion():
    def down():
        down()
    try:
        down()
    except RecursionError as e:
        return e


ERRORS = {
    'Exception': lambda: Exception('injected'), 'ValueError': lambda: ValueError('%s {} %d'), 'KeyError': lambda: KeyError('k'),
    'AttributeError': lambda: AttributeError('close'), 'TypeError': lambda: TypeError(), 'SystemExit': lambda: SystemExit(1),
    'KeyboardInterrupt': lambda: KeyboardInterrupt(), 'GeneratorExit': lambda: GeneratorExit(),
    'StopIteration': lambda: StopIteration(3), 'MemoryError': lambda: MemoryError(), 'RecursionError': deep_recursion,
    'AssertionError': lambda: AssertionError(), 'ImportError': lambda: ImportError('late'), 'OSError': lambda: OSError(5, 'io'),
    'NotImplementedError': lambda: NotImplementedError(), 'Boom': lambda: Boom('base'), 'BadStr': lambda: BadStr(),
    'BadRepr': lambda: BadRepr(), 'NoText': lambda: NoText(), 'BadArgs': lambda: BadArgs(), 'cyclic': cyclic,
    'group': lambda: BaseExceptionGroup('many', [ValueError(1), KeyboardInterrupt()]),
    'SyntaxError': lambda: SyntaxError('s', (1, 'x', [], {})), 'UnicodeError': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'u'),
    'StopAsyncIteration': lambda: StopAsyncIteration(), 'TimeoutError': lambda: TimeoutError('slow'),
    'DidNotEnable': lambda: did_not_enable()}


def did_not_enable():
    from deep.api.plugin import DidNotEnable
    return DidNotEnable('late')


SAME = [None]


def same():
    """One exception object that is raised again and again."""
    SAME[0] = SAME[0] or ValueError('the same')
    return SAME[0]


ERRORS['same'] = same
PATTERNS = ('always', 'always', 'first', 'second', 'odd', 'random', 'late')


class Fault:
    """Raises at some of its calls."""

    def __init__(self, error, pattern, seed):
        self.error, self.pattern = error, pattern
        self.calls = itertools.count()
        self.rng = random.Random(seed)

    def __call__(self):
        n = next(self.calls)
        if {'always': True, 'first': n == 0, 'second': n == 1, 'odd': n % 2 == 1, 'late': n > 3,
                'random': self.pattern == 'random' and self.rng.random() < .5}[self.pattern]:
            return ERRORS[self.error]()
        return None


# ---------------------------------------------------------------- the program

PROGRAM = '''class Err(Exception):
    pass


class Item:
    def __init__(self, n):
        self.n = n
        self.name = 'item %d' % n

    def total(self, more):
        value = self.n + more
        return value

    def __str__(self):
        return self.name


def leaf(n, text):
    total = n
    for i in range(2):
        total += i
    return total


def gen(n):
    for i in range(n):
        got = i * 2
        yield got


def fails(n):
    if n > 1:
        raise Err('no %d' % n)
    return n


def nested(n):
    item = Item(n)
    if n == 0:
        return leaf(0, 'x')
    return nested(n - 1) + item.total(n)


def catches(n):
    try:
        return fails(n)
    except Err as e:
        return str(e)


def few():
    return [leaf(1, 'a'), leaf(2, 'b')]


def main():
    out = []
    for n in range(3):
        out.append(leaf(n, 'text'))
        out.append(list(gen(n)))
        out.append(catches(n))
    out.append(nested(2))
    return out
'''
LINES = PROGRAM.split('\n')
MARKS = [(no, fn) for fn, first, last in (
    ('total', 'value = self.n', 'return value'), ('leaf', 'total = n', 'return total'), ('gen', 'got = i', 'yield got'),
    ('fails', 'if n > 1', 'return n'), ('nested', 'item = Item', 'return nested'), ('catches', 'return fails', 'return str'))
    for no in range(next(i for i, v in enumerate(LINES) if v.strip().startswith(first)) + 1,
                    next(i for i, v in enumerate(LINES) if v.strip().startswith(last)) + 2)
    if LINES[no - 1].strip() and not LINES[no - 1].strip().startswith('except')]


def tracepoint(rng, i, method=None):
    line, fn = rng.choice(MARKS)
    args = dict(UNLIMITED)
    if rng.random() < .3 if method is None else method:
        args['method_name'] = fn
        line = 0
    args['frame_type'] = rng.choice(['single_frame', 'single_frame', 'no_frame', 'all_frame'])
    if args['frame_type'] == 'all_frame':
        # the frames below main are those of the harness
        args['frame_type'] = 'single_frame'
    kind = rng.choice(['snapshot', 'snapshot', 'capture', 'log', 'span', 'metric', 'all', 'all'])
    metrics = []
    if kind in ('log', 'span', 'metric'):
        args['snapshot'] = 'no_collect'
    if kind == 'capture' or kind == 'all' and rng.random() < .3:
        args['stage'] = 'method_capture' if 'method_name' in args else 'line_capture'
    if kind in ('log', 'all') or kind in ('snapshot', 'capture') and rng.random() < .3:
        args['log_msg'] = rng.choice(['hit', 'n is {n}', 'of {undefined} {n}'])
    if kind in ('span', 'all'):
        args['span'] = 'method' if 'method_name' in args else 'line'
    if kind in ('metric', 'all'):
        for k in range(rng.choice([1, 2, 4])):
            metrics.append(rig.metric('m%d_%d' % (i, k), rng.choice(OPS).upper(), rng.choice(
                [[], [rig.label('k', static='v')], [rig.label('k', expression='n')]]), rng.choice([None, 'n', 'undefined'])))
    return rig.tp('t%d' % i, 'plugged.py', line, args, rng.choice([[], ['n'], ['n + 1', 'undefined']]), metrics)


# ---------------------------------------------------------------- one run

class Run:
    """What happened in one life of the agent."""

    def __init__(self, table, names, tps, code, path, config=None, threads=0, entry='main'):
        extra.reset(table)
        rig.EVENTS.clear()
        SAME[0] = None
        self.keys = {}
        counts = Counter()
        self.raised = self.start_raised = self.stop_raised = None
        self.results = {}

        def observe(inv, number, frame, event, arg):
            tname = threading.current_thread().name
            counts[tname] += 1
            self.keys[number] = (tname, counts[tname])

        ns = {'__name__': 'plugged'}
        exec(code, ns)
        clock = rig.VirtualClock().install()
        tee = None
        self.agent = agent = rig.Agent(config, [extra.path(n) for n in names], start=False)
        try:
            try:
                agent.deep.start()
            except BaseException as e:
                self.start_raised = e
                return
            self.loaded = list(agent.service.plugins)
            self.names = [type(p).__name__ for p in self.loaded]
            self.resource = dict(agent.service.resource.attributes)
            agent.install(tps)
            tee = rig.Tee(sys.gettrace(), observe, {path})
            tee.install()

            def go(key):
                try:
                    self.results[key] = ns[entry]()
                except BaseException as e:
                    self.results[key] = repr(e)
            go('main')
            ts = [threading.Thread(target=go, args=('t%d' % i,), name='t%d' % i) for i in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            tee.remove()
        finally:
            if tee is not None:
                tee.remove()
            sys.settrace(None)
            threading.settrace(None)
            try:
                agent.stop()
            except BaseException as e:
                self.stop_raised = e
            clock.remove()
        self.raised = tee.raised if tee is not None else []
        self.events = list(rig.EVENTS)
        self.pushed = list(agent.pushed)
        self.sent = agent.sent()
        self.sent_resources = [s.resource for s in self.sent]
        self.poll_resources = [p['msg'].resource for p in agent.wire.polls]

    def key(self, data):
        return self.keys.get(data['hit'][1]) if data['hit'] else None

    def of(self, kind):
        return [d for k, d in self.events if k == kind]

    def failed(self, callback):
        return [d for d in self.of('failed') if d['callback'] == callback]


def text(v):
    return {kv.key: (kv.value.string_value if kv.value.HasField('string_value') else str(kv.value)) for kv in v}


ADDRESS = re.compile(r' at 0x[0-9a-f]+')


def content(snapshot):
    """A snapshot without what differs between two runs."""
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot
    s = Snapshot()
    s.CopyFrom(snapshot)
    for name in ('ID', 'ts_nanos', 'duration_nanos', 'attributes', 'resource'):
        s.ClearField(name)
    for v in s.var_lookup.values():
        v.hash = ''
        v.value = ADDRESS.sub(' at X', v.value)
    for frame in s.frames:
        if not frame.file_name.endswith('plugged.py'):
            # a frame of the harness
            frame.line_number = 0
    return s.SerializeToString(deterministic=True)


def difference(more, missing):
    """The lines that differ, of the first snapshots of both."""
    import difflib
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot
    a, b = (str(Snapshot.FromString(next(iter(c)))).split('\n') if c else [] for c in (missing, more))
    return [d for d in difflib.unified_diff(a, b, 'without', 'with', n=2)][:40]


def compare(out, faulty, healthy, where, wrong=()):
    """The run with faults has to be the run without, except for the contributions that failed."""
    f, h = faulty, healthy

    def ok(cond, what, **detail):
        return out.check(cond, what, **detail, **where)

    if not ok(f.start_raised is None, 'the agent does not start', raised=repr(type(f.start_raised)), log=rig.AGENT_LOG[-2:]):
        return
    ok(not f.raised, 'the trace function raised', raised=f.raised[:2])
    ok(f.stop_raised is None, 'the shutdown raised', raised=repr(type(f.stop_raised)))
    if h.start_raised is not None or h.raised or h.stop_raised:
        raise core.Inconclusive('the run without faults failed: %r' % ((h.start_raised, h.raised, h.stop_raised),))
    ok(f.names == h.names, 'the loaded plugins are not the same', got=f.names, want=h.names)
    ok(f.results == h.results, 'the result of the program is not the same', got=f.results, want=h.results)

    # start and shutdown: every plugin is called
    def names(run, kind):
        return [d['plugin'] for d in run.of(kind)]
    ok(names(f, 'resource') == names(h, 'resource'), 'not all resource providers are called', got=names(f, 'resource'),
       want=names(h, 'resource'))
    ok(names(f, 'plugin_shutdown') == names(h, 'plugin_shutdown'), 'not all plugins are shut down once',
       got=names(f, 'plugin_shutdown'), want=names(h, 'plugin_shutdown'))
    out.count('shutdowns_compared')
    failing = {d['plugin'] for d in f.failed('resource')} | {n for n, k in wrong if k == 'resource'}
    providers = [n for n in names(f, 'resource') if n not in failing]
    want = {'extra.%s' % n: n for n in providers}
    own = {'extra.%s' % n for n in failing}
    shared = 'extra.shared'

    def relevant(attributes):
        return {k: v for k, v in attributes.items() if k.startswith('extra.') and k != shared and k not in own}

    ok(relevant(f.resource) == want, 'the resource is not that of the providers that did not fail', got=f.resource, want=want)
    if providers:
        ok(f.resource.get(shared) == providers[-1], 'the later resource provider does not win', got=f.resource.get(shared),
           want=providers[-1])
    for sent in f.poll_resources + f.sent_resources:
        sent = text(sent.attributes if hasattr(sent, 'attributes') else sent)
        if not ok(relevant(sent) == want, 'the resource that is sent is not that of the providers', got=sent, want=want):
            break
        ok(sent.get('telemetry.sdk.name') is not None and sent.get('service.name'), 'the resource misses the mandatory keys', got=sent)
        out.count('resources_compared')

    # metrics and logs
    for kind, fields in (('metric', ('plugin', 'op', 'name', 'labels', 'namespace', 'help', 'unit', 'value')),
                         ('log', ('plugin', 'msg', 'tp'))):
        def calls(run):
            return Counter((run.key(d), repr([d[x] for x in fields])) for d in run.of(kind))
        cf, ch = calls(f), calls(h)
        ok(cf == ch, 'the calls to the plugins are not those of the run without faults', kind=kind,
           missing=list((ch - cf).items())[:3], more=list((cf - ch).items())[:3])
        out.count(kind + 's_compared', sum(ch.values()))

    # spans
    def opened(run):
        return Counter((run.key(d), d['plugin'], d['name'], d['tp']) for d in run.of('span_open'))
    lost = Counter((f.key(d), d['plugin'], d['name'], d['tp']) for d in f.failed('create_span'))
    of, oh = opened(f), opened(h)
    ok(of + lost == oh, 'the spans are not those of the run without faults', missing=list((oh - of - lost).items())[:3],
       more=list((of + lost - oh).items())[:3])
    odd = {n for n, k in wrong if k == 'span'}

    def closed(run):
        at = defaultdict(list)
        for d in run.of('span_close'):
            at[d['span']].append(run.key(d))
        return Counter((run.key(d), d['plugin'], d['name'], d['tp'], tuple(at[d['span']])) for d in run.of('span_open')
                       if d['plugin'] not in odd)
    cf, ch = closed(f), closed(h)
    rest = cf - ch
    ok(not rest, 'a span is not closed as in the run without faults', got=list(rest)[:3],
       want=[k for k in ch if any(k[:4] == r[:4] for r in rest)][:3])
    ok(all(len(k[4]) == 1 for k in cf), 'a span is not closed once', got=[k for k in cf if len(k[4]) != 1][:3])
    out.count('spans_compared', sum(oh.values()))

    # decorations
    def decorated(run):
        return Counter((run.key(d), d['plugin']) for d in run.of('decorate'))
    ok(decorated(f) == decorated(h), 'the decorators are not called as in the run without faults',
       missing=list((decorated(h) - decorated(f)).items())[:3], more=list((decorated(f) - decorated(h)).items())[:3])

    # snapshots
    def pushed(run):
        return Counter((run.key(d), d['tp']) for d in run.pushed)
    ok(pushed(f) == pushed(h), 'the snapshots are not those of the run without faults',
       missing=list((pushed(h) - pushed(f)).items())[:3], more=list((pushed(f) - pushed(h)).items())[:3])
    ok(len(f.sent) == len(h.sent), 'not all snapshots are sent', got=len(f.sent), want=len(h.sent))
    sf, sh = Counter(content(s) for s in f.sent), Counter(content(s) for s in h.sent)
    ok(sf == sh, 'the content of the snapshots is not that of the run without faults',
       differs=difference(sf - sh, sh - sf))
    out.count('snapshots_compared', len(h.sent))
    failures = defaultdict(set)
    for d in f.failed('decorate'):
        failures[norm(d['snapshot'])].add(d['plugin'])
    asked = defaultdict(list)
    for d in f.of('decorate'):
        asked[norm(d['snapshot'])].append(d['plugin'])
    strange = {n for n, k in wrong if k == 'decorate'}
    for s in f.sent:
        sid = norm(s.ID)
        good = [n for n in asked[sid] if n not in failures[sid] and n not in strange]
        got = {k: v for k, v in text(s.attributes).items() if k.startswith('extra.') and k != shared and
               k[6:] not in strange}
        if not ok(got == {'extra.%s' % n: n for n in good}, 'the snapshot does not have the decorations that did not fail',
                  got=got, want=good, failed=sorted(failures[sid])):
            break
        if good:
            ok(text(s.attributes).get(shared) == good[-1], 'the later decorator does not win', got=text(s.attributes), want=good[-1])
        ok('context' in text(s.attributes) and 'tracepoint' in text(s.attributes), 'the snapshot misses its own attributes',
           got=text(s.attributes))
        out.count('decorations_compared', len(good))
    for d in f.of('failed'):
        out.count('faults_injected')
        out.count('failed_' + ('metric' if d['callback'] in OPS else d['callback']))


def norm(snapshot_id):
    return snapshot_id.hex() if isinstance(snapshot_id, bytes) else str(snapshot_id)


def healthy_table(table, loaded):
    """The table without faults, of what was loaded, in the order in which it was loaded."""
    result = {}
    zero = loaded.index('PythonPlugin') if 'PythonPlugin' in loaded else 0
    for i, name in enumerate(loaded):
        if name in table:
            result[name] = {'kinds': table[name].get('kinds', ()), 'order': i - zero}
    return result


def module():
    path = rig.write_module(rig.scratch(), 'plugged.py', PROGRAM)
    return path, compile(PROGRAM, path, 'exec')


CALLBACKS = {'decorator': ('decorate',), 'resource': ('resource',), 'logger': ('log',), 'metric': OPS + ('metric',),
             'span': ('create_span', 'close')}
LIFE = ('construct', 'order', 'shutdown')


def both(out, table, names, tps, path, code, where, config=None, threads=0, wrong=(), entry='main'):
    f = Run(table, names, tps, code, path, config, threads, entry)
    if f.start_raised is not None:
        compare(out, f, f, where)
        return f
    mine = [n for n in f.names if n in table]
    out.count('skipped_construction', len(names) - len(mine))
    h_table = healthy_table(table, f.names)
    h = Run(h_table, mine, tps, code, path, config, threads, entry)
    compare(out, f, h, where, wrong)
    out.count('fault_runs')
    # those that should be loaded are
    for n in names:
        spec = table[n]
        due = not f_failed(f, n, 'construct')
        out.check((n in mine) == due or spec.get('active') is not None, 'a plugin is not loaded (or one that failed is)', plugin=n,
                  loaded=mine, **where)
    return f


def f_failed(run, name, callback):
    return any(d['plugin'] == name for d in run.failed(callback))


# ---------------------------------------------------------------- units

@CHECK.unit
def single(out, rng, params):
    """Every callback x exception x position, one at a time."""
    path, code = module()
    kinds = ('decorator', 'resource', 'logger', 'metric', 'span')
    cases = [(callback, error, position) for callback in LIFE + ('resource', 'decorate', 'log', 'create_span', 'close') + OPS
             for error in ERRORS for position in range(3)]
    line = next(i for i, v in enumerate(LINES) if 'total = n' in v) + 1
    metrics = [rig.metric('m_%s' % op, op.upper(), [rig.label('k', expression='n')], 'n') for op in OPS]
    tps = [rig.tp('a', 'plugged.py', line, dict(UNLIMITED, log_msg='n {n}', span='line'), ['n'], metrics),
           rig.tp('b', 'plugged.py', line + 2, dict(UNLIMITED, stage='line_capture', span='line', log_msg='second'), [], metrics[:1]),
           rig.tp('c', 'plugged.py', 0, dict(UNLIMITED, method_name='leaf', stage='method_capture', span='method'), [], [])]
    end = time.monotonic() + params['seconds']
    mine = cases[params['part']::params['of']]
    rng.shuffle(mine)
    for callback, error, position in mine:
        if time.monotonic() > end or out.violations:
            out.count('enumeration_incomplete')
            return
        pattern = rng.choice(('always', 'always', 'first', 'odd'))
        table = {'Extra%d' % i: {'kinds': kinds, 'order': i} for i in range(3)}
        table['Extra%d' % position]['fail'] = {callback: Fault(error, pattern, 1)}
        names = sorted(table)
        rng.shuffle(names)
        where = {'fails': callback, 'error': error, 'position': position, 'pattern': pattern}
        f = both(out, table, names, tps, path, code, where, {'PLUGIN_PYTHONPLUGIN': 'False'}, entry='few')
        # with that table there is one logger that is used: the first one
        if callback == 'log' and position:
            out.count('log_not_first')
        elif pattern != 'odd':
            out.check(f.failed(callback), 'the fault was not reached', **where)
        out.count('single_faults')
        out.case(('single', callback, error, position, pattern), where, True)


class Hostile:
    """Wrong in every way."""

    def __init__(self, error):
        object.__setattr__(self, 'error', error)

    def __getattribute__(self, name):
        if name in ('error', '__class__'):
            return object.__getattribute__(self, name)
        raise ERRORS[self.error]()

    def __bool__(self):
        raise ERRORS[self.error]()

    def __iter__(self):
        raise ERRORS[self.error]()

    __len__ = __bool__


class Half(dict):
    """A mapping that fails in the middle."""

    def __init__(self, name, error):
        super().__init__({'extra.' + name: name, 'half.' + name: 'x', 'third': 'y'})
        self.error = error

    def items(self):
        yield 'half.' + self['extra.' + self.name()], 'x'
        raise ERRORS[self.error]()

    def name(self):
        return next(k for k in self.keys() if k.startswith('extra.'))[6:]

    __iter__ = items


class ResourceLike:
    schema_url = ''

    def __init__(self, attributes):
        self.attributes = attributes


def wrong_result(rng, kind, name):
    error = rng.choice(sorted(ERRORS))
    kinds = [lambda *a: None, lambda *a: 'text', lambda *a: 5, lambda *a: {}, lambda *a: [1, 2], lambda *a: Hostile(error),
             lambda *a: object(), lambda *a: type, lambda *a: Half(name, error), lambda *a: {5: object()},
             lambda *a: {'extra.%s' % name: name}, lambda *a: iter(()), lambda *a: ...]
    if kind == 'resource':
        kinds += [lambda *a: ResourceLike({'extra.%s' % name: object()}), lambda *a: ResourceLike(None),
                  lambda *a: ResourceLike(Hostile(error)), lambda *a: ResourceLike(Half(name, error))]
    return rng.choice(kinds)


@CHECK.unit
def faults(out, rng, params):
    path, code = module()
    end = time.monotonic() + params['seconds']
    for n in itertools.count():
        if time.monotonic() > end or out.violations:
            return
        table, wrong = {}, []
        p = rng.choice([.15, .4, .8, 1])
        for i in range(rng.choice([1, 2, 3, 4, 6])):
            name = 'Extra%d' % i
            kinds = rng.choice([('decorator', 'resource', 'logger', 'metric', 'span'),
                                tuple(k for k in CALLBACKS if rng.random() < .5)])
            spec = table[name] = {'kinds': kinds, 'order': rng.choice([i, -i, 0, rng.randrange(-50, 50), rng.random() * 10])}
            fail = spec['fail'] = {}
            for callback in [c for k in kinds for c in CALLBACKS[k]] + list(LIFE):
                if rng.random() < (p if callback != 'construct' else p / 4):
                    fail[callback] = Fault(rng.choice(sorted(ERRORS)), rng.choice(PATTERNS), rng.random())
            for kind, key in (('decorator', 'decorate'), ('resource', 'resource'), ('span', 'span')):
                if kind in kinds and rng.random() < .15:
                    spec[key] = wrong_result(rng, key, name)
                    wrong.append((name, key))
                    out.count('wrong_results')
        names = list(table)
        rng.shuffle(names)
        tps = [tracepoint(rng, i) for i in range(rng.choice([1, 2, 4, 7]))]
        config = rng.choice([{}, {'PLUGIN_PYTHONPLUGIN': 'False'}])
        threads = rng.choice([0, 0, 0, 3])
        about = {name: {c: (x.error, x.pattern) for c, x in s['fail'].items()} for name, s in table.items()}
        where = {'plugins': about, 'kinds': {n_: s['kinds'] for n_, s in table.items()}, 'wrong': wrong, 'threads': threads,
                 'tps': [(t.ID, t.line_number, dict(t.args)) for t in tps], 'loaded_in': names}
        f = both(out, table, names, tps, path, code, where, config, threads, wrong)
        if threads:
            out.count('threaded_runs')
        out.case((about, [str(t) for t in tps], threads, names), {'plugins': about}, bool(f.start_raised or f.of('failed')))


ORDERS = [0, 1, -1, 5, 10, 100, -100, 2 ** 70, -2 ** 70, .5, -.5, 1e300, float('inf'), float('-inf'), True, 7, 3, 2, -3, -2]
ODD_ORDERS = [float('nan'), None, 'first', '1', [], object(), 1j, b'1', (1,), {}]
OFF = ['False', 'false', 'FALSE', False, lambda: False, lambda: 'False', '0', 'no']
ON = ['True', 'true', True, lambda: True, lambda: 'True', 'yes', '1', None]
NOT_IMPORTABLE = [None, 5, b'a.b', '', 'nodots', '.', '..', 'a..b', '.a.b', 'nothing.here.Plugin', 'harness.extra.Nope', 'harness.nope.X',
                  'os.path.join', 'os.sep', 'builtins.dict', 'builtins.print', 'deep.api.plugin.ResourceProvider',
                  'deep.api.plugin.SnapshotDecorator', 'deep.api.plugin.metric.MetricProcessor', 'deep.config.ConfigService',
                  'harness.extra.', ' ', 'harness.extra.Extra 0', 'os.environ', 'builtins.None', 'builtins.KeyboardInterrupt', [], {}, ('a.b',),
                  object, 3.5, 'caf\u00e9.\u00fc', 'a.' * 500 + 'b', '\x00.\x00', 'sys.exit']

MODULES = {
    'raises ImportError': "raise ImportError('not here')", 'raises SystemExit': 'raise SystemExit(1)',
    'raises KeyboardInterrupt': 'raise KeyboardInterrupt()', 'syntax error': 'def broken(:\n', 'no such module': 'import not_there_at_all',
    'empty': '', 'recursion': 'def f():\n    f()\nf()', 'exits': 'import sys\nsys.exit(2)',
    'did not enable': "from deep.api.plugin import DidNotEnable\nraise DidNotEnable('no')",
    'lazy': "def __getattr__(name):\n    raise RuntimeError(name)", 'null': 'x = 1\x00', 'base': 'class B(BaseException):\n    pass\nraise B()',
    'not utf-8': '# coding: nonsense\n', 'class fails': 'class Mine(1, 2):\n    pass', 'value': 'Mine = 5', 'none': 'Mine = None',
    'no arguments': 'class Mine:\n    def __init__(self):\n        pass\n    def is_active(self):\n        return True\n'}
GOOD_MODULE = 'from deep.api.plugin import Plugin\n\n\nclass Mine(Plugin):\n    def order(self):\n        return %r\n'
_modules = itertools.count()


def entry_module(rng, tmp, out, good):
    name = 'vmod_%d_%d' % (os.getpid(), next(_modules))
    order = rng.choice(ORDERS[:8])
    what = 'good' if good else rng.choice(sorted(MODULES))
    source = GOOD_MODULE % (order,) if good else MODULES[what]
    folder = ''
    if rng.random() < .4:
        # in a package, that itself can be what fails
        folder = name + 'p'
        init = '' if good or rng.random() < .5 else source
        rig.write_module(tmp, os.path.join(folder, '__init__.py'), init)
    rig.write_module(tmp, os.path.join(folder, name + '.py'), source)
    return ('%s.%s.Mine' % (folder, name) if folder else name + '.Mine'), what, order, name


@CHECK.unit
def loading(out, rng, params):
    tmp = rig.scratch()
    sys.path.insert(0, tmp)
    end = time.monotonic() + params['seconds']
    path, code = module()
    line = next(i for i, v in enumerate(LINES) if 'total = n' in v) + 1
    while time.monotonic() < end and not out.violations:
        table, entries, expected, orders, config, about = {}, [], {}, {}, {}, []
        flips = []
        for i in range(rng.choice([0, 1, 2, 4, 9])):
            name = 'Extra%d' % i
            what = rng.choice(['good'] * 6 + ['bad order', 'order fails', 'inactive', 'is_active fails', 'off', 'on', 'on', 'construct',
                                              'not a class', 'getattr fails', 'abstract', 'named off', 'named on', 'name fails', 'flip',
                                              'env off', 'env on', 'active'])
            spec = table[name] = {'kinds': rng.choice([(), ('resource', 'decorator', 'metric', 'logger', 'span'), ('resource',),
                                                       ('decorator', 'metric')]), 'order': rng.choice(ORDERS)}
            loads, judged = True, True
            error = rng.choice(sorted(ERRORS))
            key = 'PLUGIN_' + name.upper()
            if what == 'bad order':
                spec['order'] = rng.choice(ODD_ORDERS)
                judged = False
                out.count('odd_orders')
            elif what == 'order fails':
                spec['fail'] = {'order': Fault(error, 'always', 1)}
                judged = False
                out.count('failed_order')
            elif what == 'inactive':
                spec['active'], loads = False, False
                out.count('skipped_inactive')
            elif what == 'active':
                spec['active'] = True
                config[key] = rng.choice(OFF)  # what the plugin itself says counts
            elif what == 'is_active fails':
                spec['fail'] = {'is_active': Fault(error, 'always', 1)}
                loads = None
            elif what == 'name fails':
                spec['fail'] = {'name': Fault(error, 'always', 1)}
                loads = None
            elif what == 'off':
                config[key], loads = rng.choice(OFF), False
                out.count('skipped_inactive')
            elif what == 'on':
                config[key] = rng.choice(ON)
            elif what in ('env off', 'env on'):
                os.environ['DEEP_' + key] = rng.choice(['False', 'false', '0'] if what == 'env off' else ['True', 'true', '1'])
                loads = what == 'env on'
                if not loads:
                    out.count('skipped_inactive')
            elif what == 'flip':
                state = [rng.random() < .5]
                config[key] = lambda state=state: state[0]
                flips.append((name, state))
                loads = state[0]
            elif what in ('named off', 'named on'):
                spec['init'], spec['plugin_name'] = 'named', rng.choice(['my_name', 'Mixed', 'x.y', 'with space']) + \
                    (str(i) if rng.random() < .6 else '_on' if what == 'named on' else '_off')
                loads = what == 'named on'
                config['PLUGIN_' + spec['plugin_name'].upper()] = rng.choice(ON[:3] if loads else OFF)
                if loads:
                    config[key] = 'False'  # that is not its name
                else:
                    out.count('skipped_inactive')
            elif what == 'construct':
                spec['fail'], loads = {'construct': Fault(error, 'always', 1)}, False
                out.count('skipped_construction')
            elif what == 'not a class':
                spec['not_a_class'], loads = [rng.choice([None, 5, 'text', {}, print, object(), (lambda: None), sys])], False
                out.count('skipped_construction')
            elif what == 'getattr fails':
                spec['getattr_fails'], loads = ERRORS[error], False
                out.count('skipped_not_importable')
            elif what == 'abstract':
                spec['kinds'], spec['missing'], loads = ('resource', 'decorator'), ('resource',), False
                out.count('skipped_construction')
            entries.append(extra.path(name))
            expected[name] = loads
            if judged:
                orders[name] = spec['order']
            about.append((name, what, repr(spec['order'])))
        mine = []
        for _ in range(rng.choice([0, 0, 1, 3, 5])):
            if rng.random() < .4:
                entries.append(rng.choice(NOT_IMPORTABLE))
                about.append(repr(entries[-1])[:40])
                out.count('skipped_not_importable')
            else:
                # (several plugins can have the same class name)
                good = rng.random() < .5
                entry, what, order, in_module = entry_module(rng, tmp, out, good)
                if good:
                    mine.append(entry)
                    orders[entry] = order
                else:
                    out.count('skipped_not_importable')
                entries.append(entry)
                about.append(what)
        python = rng.choice([None, None, True, False])
        if python is not None:
            config['PLUGIN_PYTHONPLUGIN'] = rng.choice(ON[:5] if python else OFF)
        orders['PythonPlugin'] = 0
        rng.shuffle(entries)
        give = rng.choice([list, tuple, lambda e: (lambda: list(e))])
        if not entries and rng.random() < .5:
            give = rng.choice([lambda e: None, lambda e: ()])
        config['PLUGINS'] = give(entries)
        where = {'plugins': about, 'config': {k: repr(v)[:30] for k, v in config.items() if k != 'PLUGINS'}, 'entries': entries}
        rig.EVENTS.clear()
        extra.reset(table)
        agent = rig.Agent(config, start=False)
        try:
            for life in range(rng.choice([1, 1, 2])):
                if life:
                    out.count('restarts')
                    for name, state in flips:
                        state[0] = not state[0]
                        expected[name] = state[0]
                    del rig.EVENTS[:]
                try:
                    agent.deep.start()
                except BaseException as e:
                    out.violation('the agent does not start', raised=repr(type(e)), **where)
                    break
                loaded = agent.service.plugins
                names = [type(p).__name__ if type(p).__name__ != 'Mine' else '%s.Mine' % type(p).__module__ for p in loaded]
                out.count('same_names', max(len(mine) - 1, 0))
                sure = {n for n, v in expected.items() if v} | set(mine) | \
                    ({'PythonPlugin'} if python in (None, True) else set())
                maybe = {n for n, v in expected.items() if v is None}
                out.check(Counter(n for n in names if n not in maybe) == Counter(sure), 'the loaded plugins are not those that can be',
                          got=names, want=sorted(sure), maybe=sorted(maybe), **where)
                ranked = [(orders[n], n) for n in names if n in orders and n not in maybe]
                out.check(all(a[0] <= b[0] for a, b in zip(ranked, ranked[1:])), 'the plugins are not in their order', got=ranked, **where)
                out.count('order_compared', max(len(ranked) - 1, 0))
                out.count('loaded_plugins', len(names))
                # the agent works
                agent.install([rig.tp('t', 'plugged.py', line, dict(UNLIMITED), [], [rig.metric('m', 'COUNTER')])])
                ns = {'__name__': 'plugged'}
                exec(code, ns)
                before = len(agent.sent())
                sys.settrace(agent.deep.trigger_handler.trace_call)
                ns['leaf'](1, 'a')
                sys.settrace(None)
                try:
                    agent.deep.shutdown()
                except BaseException as e:
                    out.violation('the shutdown raised', raised=repr(type(e)), **where)
                out.check(len(agent.sent()) == before + 1, 'the agent does not send a snapshot', got=len(agent.sent()) - before, **where)
                for kind, needed in (('resource', 'resource'), ('decorate', 'decorator'), ('metric', 'metric'), ('plugin_shutdown', None)):
                    got = [d['plugin'] for d in rig.events(kind)]
                    want = [n for n in names if n in table and (needed is None or needed in table[n]['kinds'])]
                    out.check(Counter(got) == Counter(want), 'not every plugin is called once', kind=kind, got=got, want=want, **where)
                    if kind == 'plugin_shutdown':
                        continue
                    ranked = [(orders[n], n) for n in got if n in orders]
                    out.check(all(a[0] <= b[0] for a, b in zip(ranked, ranked[1:])), 'the plugins are not called in their order',
                              kind=kind, got=ranked, **where)
                    out.count('call_orders', max(len(ranked) - 1, 0))
                loggers = [n for n in names if n in table and 'logger' in table[n]['kinds']]
                out.count('loggers', len(loggers))
        finally:
            sys.settrace(None)
            threading.settrace(None)
            agent.stop()
            for k in [k for k in os.environ if k.startswith('DEEP_PLUGIN_')]:
                del os.environ[k]
        out.count('tables')
        out.case(('loading', about, [repr(e) for e in entries]), {'plugins': about}, len(about) > 0)
    sys.path.remove(tmp)


@CHECK.unit
def builtin(out, rng, params):
    """The plugins that come with the agent fail: their callbacks, and what they use."""
    from deep.api.plugin import otel
    from deep.api.plugin.python import PythonPlugin
    from deep.api.plugin.otel import OTelPlugin
    from deep.api.plugin.metric.prometheus_metrics import PrometheusPlugin
    from deep.api.plugin.metric.otel_metrics import OTelMetrics
    from opentelemetry.sdk.trace import TracerProvider
    otel.trace.set_tracer_provider(TracerProvider())
    path, code = module()
    targets = [(PythonPlugin, m) for m in ('decorate', 'resource', 'shutdown', 'order', 'is_active', '__init__', 'log_tracepoint')] + \
        [(OTelPlugin, m) for m in ('decorate', 'resource', 'create_span', 'shutdown', 'order')] + \
        [(c, m) for c in (PrometheusPlugin, OTelMetrics) for m in OPS + ('shutdown', 'order', '__init__', 'clear')]
    for n in range(params['n']):
        table = {'Extra0': {'kinds': ('decorator', 'resource', 'metric', 'span'), 'order': rng.choice([-5, 0, 5])}}
        chosen = rng.sample(targets, rng.choice([0, 1, 1, 2, 5, len(targets)]))
        saved = []
        error = rng.choice(sorted(ERRORS))
        injected = Counter()
        metric_name = 'c20_%d_%d' % (rng.randrange(10 ** 9), n)
        labels = rng.choice([[], [rig.label('k', static='v')], [rig.label('not valid!', static='v')], [rig.label('__x', expression='n')]])
        line, fn = rng.choice([m for m in MARKS if m[1] in ('leaf', 'nested')])
        tps = [rig.tp('t%d' % i, 'plugged.py', line, dict(UNLIMITED, span='line', log_msg='at {n}',
                                                          **({'stage': 'line_capture'} if i else {})), ['n'],
                      [rig.metric(rng.choice([metric_name, 'not valid {}', metric_name]), op.upper(), labels, rng.choice([None, 'n']))
                       for op in OPS]) for i in range(2)]
        config = {'PLUGIN_OTELPLUGIN': 'True', 'PLUGIN_PROMETHEUSPLUGIN': 'True', 'PLUGIN_OTELMETRICS': 'True'}
        runs = []
        try:
            for faulty in (True, False):
                if faulty:
                    for cls, m in chosen:
                        saved.append((cls, m, cls.__dict__.get(m, saved)))

                        def fail(self, *a, _m=(cls.__name__, m), **k):
                            injected[_m] += 1
                            raise ERRORS[error]()
                        setattr(cls, m, fail)
                try:
                    runs.append(Run(table, ['Extra0'], tps, code, path, config))
                finally:
                    while faulty and saved:
                        cls, m, old = saved.pop()
                        if old is saved:
                            delattr(cls, m)
                        else:
                            setattr(cls, m, old)
        finally:
            list(_prometheus(metric_name))
        f, h = runs
        where = {'failing': [(c.__name__, m) for c, m in chosen], 'error': error, 'labels': str(labels), 'line': line}
        if f.start_raised is None:
            gone = {c.__name__ for c, m in chosen if m in ('__init__', 'is_active')}
            out.check({n_ for n_ in h.names if n_ not in gone} <= set(f.names), 'a plugin is not loaded', got=f.names, want=h.names, **where)
            f.names = h.names
        compare(out, f, h, where)
        out.check(len(f.sent) > 0, 'no snapshot is sent', **where)
        for (c, m), k in injected.items():
            out.count('builtin_faults', k)
        out.case(('builtin', sorted(where['failing']), error, line, str(labels)), None, bool(chosen))
        if out.violations:
            return


def _prometheus(name):
    from prometheus_client import REGISTRY
    for collector in list(REGISTRY._collector_to_names):
        if any(name in n for n in REGISTRY._collector_to_names[collector]):
            REGISTRY.unregister(collector)
            yield collector


@CHECK.unit
def missing(out, rng, params):
    """Optional packages are not there, or are broken."""
    tmp = rig.scratch()
    program = rig.write_module(tmp, 'plugged.py', PROGRAM)
    line = next(i for i, v in enumerate(LINES) if 'total = n' in v) + 1
    for n in range(params['n']):
        none = rng.choice([[], ['opentelemetry'], ['prometheus_client'], ['opentelemetry', 'prometheus_client'], ['opentelemetry.sdk'],
                           ['opentelemetry.sdk.trace'], ['opentelemetry.metrics']])
        blocked = {name: rng.choice(['ImportError', 'ModuleNotFoundError', 'RuntimeError', 'SystemExit', 'AttributeError', 'OSError',
                                     'SyntaxError', 'KeyboardInterrupt'])
                   for name in rng.choice([[], ['opentelemetry'], ['prometheus_client'], ['opentelemetry.sdk', 'prometheus_client'],
                                           ['opentelemetry.metrics']])}
        off = {name: rng.choice(['False', 'false', '0']) for name in ('OTELPLUGIN', 'PYTHONPLUGIN', 'PROMETHEUSPLUGIN', 'OTELMETRICS')
               if rng.random() < .15}
        in_env = rng.random() < .5
        custom = rng.choice([[], ['RecLogger', 'RecMetrics', 'RecSpans', 'RecDecorator', 'RecResource']])
        spec = {'none': none, 'blocked': blocked, 'program': program, 'line': line, 'plugins': custom,
                'config': {} if in_env else {'PLUGIN_' + k: v for k, v in off.items()}}
        spec_path, result_path = os.path.join(tmp, 'spec.json'), os.path.join(tmp, 'result.json')
        with open(spec_path, 'w') as fh:
            json.dump(spec, fh)
        if os.path.exists(result_path):
            os.remove(result_path)
        env = {k: v for k, v in os.environ.items() if not k.startswith('DEEP_')}
        if in_env:
            env.update({'DEEP_PLUGIN_' + k: v for k, v in off.items()})
        p = subprocess.run([sys.executable, os.path.join(core.ROOT, 'harness', 'optional_boot.py'), spec_path, result_path], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        where = {'none': none, 'blocked': blocked, 'off': off, 'custom': bool(custom), 'env': in_env}
        if not os.path.exists(result_path):
            raise core.Inconclusive('the process ended: %s' % p.stdout[-1500:])
        with open(result_path) as fh:
            got = json.load(fh)
        if not out.check('error' not in got, 'the agent does not start without the optional packages', error=got.get('error'), **where):
            return
        if not got['where'].startswith(os.path.realpath(core.REPO_SRC)) and not got['where'].startswith(core.REPO_SRC):
            raise core.Inconclusive('deep was imported from %s' % got['where'])
        has = got['importable']
        want = {'PythonPlugin': True, 'OTelPlugin': has['opentelemetry.trace'] and has['opentelemetry.sdk.trace'],
                'PrometheusPlugin': has['prometheus_client'], 'OTelMetrics': has['opentelemetry.metrics']}
        want = [k for k, v in want.items() if v and k.upper() not in off] + custom
        out.check(Counter(got['plugins']) == Counter(want), 'the loaded plugins are not those that can be', got=got['plugins'], want=want,
                  **where)
        out.check(got['sent'] == 4, 'not all snapshots are sent', got=got['sent'], **where)
        if 'PYTHONPLUGIN' not in off:
            out.check(all('thread_name' in a for a in got['attributes']), 'the python plugin does not decorate', got=got['attributes'],
                      **where)
            out.check('python_version' in got['resource'], 'the python plugin does not provide its resource', **where)
        if custom:
            out.check((len(got['logs']), len(got['metrics']), got['spans']) == (4, 4, [4, 4]),
                      'the other plugins do not run', logs=got['logs'], metrics=got['metrics'], spans=got['spans'], **where)
        out.count('fresh_processes')
        out.count('missing_packages', len(none))
        out.count('broken_packages', len(blocked))
        out.case(('missing', none, blocked, off, in_env, bool(custom)), where, bool(none or blocked or off))


@CHECK.planner
def plan(tier, seed):
    if tier == 'quick':
        return core.spread('faults', 8, seed, seconds=10) + core.spread('loading', 4, seed, seconds=8) + \
            [('single', {'seed': seed * 1000 + i, 'part': i, 'of': 6, 'seconds': 60}) for i in range(6)] + \
            core.spread('builtin', 2, seed, n=25) + core.spread('missing', 2, seed, n=8)
    return core.spread('faults', 40, seed, seconds=80) + core.spread('loading', 16, seed, seconds=60) + \
        [('single', {'seed': seed * 1000 + i, 'part': i % 8, 'of': 8, 'seconds': 200}) for i in range(16)] + \
        core.spread('builtin', 8, seed, n=300) + core.spread('missing', 8, seed, n=60)


if __name__ == '__main__':
    sys.exit(CHECK.main())
