"""C01: host transparency."""
import hashlib
import os
import random
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import child, core, faults, hostile, kit, progs, rig, values  # noqa: E402

CHECK = core.Check(
    'C01', 'exploration',
    'A case is one program run three times from the same state: alone, alone under a recorder (ground truth), and with '
    'the agent and a set of tracepoints (all kinds, hostile watches/conditions/templates/labels). Programs are generated '
    'ones, a kit of behaviours that notice interference (iterators, generators, finalizers, random state, exceptions and '
    'their tracebacks, own tracers, asyncio, threads, context variables, output), programs that hold hostile values, and '
    'whole processes. Faults are injected into the plugins, the delivery and every function of the agent that handles '
    'an event. Compared: results, exceptions, log, stdout, stderr, globals, random state; the trace hook of every thread '
    'has to survive, and sentinel tracepoints have to fire as often as their lines are reached. Non-trivial: the agent '
    'acted in the program. Distinct by (program, tracepoints).',
    ['expressions that change the program by themselves are not judged (this is what they ask for)',
     'the side effects of __str__ functions of the program are not judged',
     'signals that raise exceptions are not judged'],
    required=['programs', 'acted', 'sentinel_hits', 'hooks_checked', 'generated', 'kit', 'hostile', 'processes', 'tattlers'],
    unit_timeout=300)


# ------------------------------------------------------------------------------------------ one run of a program
def execute(path, picked, n_threads, entry='main', args=()):
    """Run the program, in threads if asked to, and return everything that can be observed."""
    code, ns = rig.load_module(path, {'PICKED': picked})
    seen = {'hooks': [], 'results': []}
    random.seed(4711)

    def call(i):
        before = sys.gettrace()
        try:
            result = ['result', repr(ns[entry](*args))]
        except BaseException as e:
            result = ['raised', type(e).__name__, safe(e.args)]
        after = sys.gettrace()
        seen['hooks'].append(before == after)
        return result

    before = sys.gettrace()
    try:
        exec(code, ns)
    except BaseException as e:
        seen['results'].append(['module raised', type(e).__name__, safe(e.args)])
    if n_threads == 0:
        for i in range(2):
            seen['results'].append(call(i))
    else:
        results = [None] * n_threads
        gate = threading.Barrier(n_threads)

        def body(i):
            gate.wait()
            results[i] = call(i)

        ts = [threading.Thread(target=body, args=(i,), name='host-%d' % i) for i in range(n_threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        seen['results'] += results
    seen['hooks'].append(sys.gettrace() == before)
    seen['random'] = hashlib.sha1(repr(random.getstate()).encode()).hexdigest()
    seen['log'] = [safe(x) for x in ns.get('LOG', [])]
    seen['globals'] = {k: safe(v) for k, v in sorted(ns.items()) if type(v) in (int, str, list, dict, float, tuple, bool)
                       and k not in ('__builtins__', 'LOG', 'STEPS')}
    seen['names'] = sorted(ns)
    return seen


def safe(v):
    try:
        return repr(v)
    except BaseException as e:
        return 'unprintable %s' % type(e).__name__


KEYS = ('results', 'log', 'globals', 'names', 'random')


def compare(out, plain, agent, detail, ordered=True):
    for key in KEYS:
        a, b = plain['result'][key], agent['result'][key]
        if not ordered and key == 'log':
            a, b = sorted(map(str, a)), sorted(map(str, b))
        if a != b:
            if isinstance(a, list):
                diff = [(i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y][:2] or (a[len(b):], b[len(a):])
            elif isinstance(a, dict):
                diff = [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:2]
            else:
                diff = (a, b)
            out.check(False, 'the program does not do the same with the agent: %s' % key, diff=diff, **detail)
            return False
    for key in ('stdout', 'stderr'):
        a, b = plain[key], agent[key]
        if not ordered:
            a, b = sorted(a.splitlines()), sorted(b.splitlines())
        if not out.check(a == b, 'the program has other output with the agent: %s' % key, plain=a[-400:], agent=b[-400:],
                         **detail):
            return False
    return True


# ------------------------------------------------------------------------------------------ tracepoints
BAD_EXPRESSIONS = [
    '1/0', 'nothing', 'exit(3)', 'quit()', '(_ for _ in ()).throw(KeyboardInterrupt)',
    '(_ for _ in ()).throw(GeneratorExit("x"))', '(_ for _ in ()).throw(SystemExit(5))', 'next(iter(()))',
    '(lambda f: f(f))(lambda f: f(f))', 'def x(): pass', 'x = 1', '', ' ', '((((', '"', '\x00', 'a b', 'yield 1',
    'await x', 'lambda: 0', '(walrus := 5)', '[walrus := 1, G_INT]', 'open("/nonexistent/x")', 'int("x")',
    '10 ** 5000', '"\\ud800"', '__import__("nothing_here")', '[].x', 'raise ValueError', '*a', 'a if b', 'f"{nothing}"',
    '"%d" % "x"', 'b"\\xff".decode()', 'object()', 'type("T", (), {"__bool__": lambda s: 1/0})()',
    'type("T", (), {"__str__": lambda s: exit(1)})()', 'type("T", (BaseException,), {"__str__": lambda s: 1/0})()',
    '(_ for _ in ()).throw(type("T", (BaseException,), {"__str__": lambda s: exit(2), "__repr__": None})())',
    'memoryview(b"x").release()', '[0] * 3', '{}', 'globals', 'locals()', '__name__', 'self', 'float("nan")', 'None',
    'assert True', '(' * 300, '-' * 3000 + '1', '1;2', 'import os', 'type("T", (), {"__float__": lambda s: exit()})()',
    '__builtins__', '().__class__.__mro__', 'print', 'not', 'True', 'lambda', '{1: []}[2]', '[] + ()', 'a', 'b', 'len(LOG)',
    'sum(range(200))', 'sorted(locals())', 'n', 'x', 'LOG', 'h0', 'h1', 'str(h0)', 'h0 == 1', 'bool(h1)', 'e', 'err']

# a class that is made by an expression is cyclic garbage that keeps the scope of the expression alive
NO_GARBAGE = [e for e in BAD_EXPRESSIONS if 'type(' not in e]

TEMPLATES = ['plain', '{', '}', '{}', '{{}}', '{{', '{0}', '{a', '{a}', '{a!r}', '{a!x}', '{a:>9}', '{a:{b}}', '{:}', '{!r}',
             'mix {a} {nothing} {1/0}', '{exit(1)}', '{a.b.c}', '{a[0]}', '{LOG}', '%s %d {a}', '\x00', '\udcff {a}',
             '{' * 50, '{a}' * 40, '{(lambda: a)()}', '{"text"}', "{'a' 'b'}", '{x!s:^20}', '{[i for i in range(3)]}',
             '{h0}', '{h0!r:>5}', '{h1:x}', '{a:%Y}', '{{{a}}}', '{ a }', '{a=}', '{dict(a=1)}', '{a;b}', '']


def tracepoints(rng, base, lines, functions, expressions=BAD_EXPRESSIONS, numbers=None):
    tps = []
    for k in range(rng.choice([1, 2, 3, 4, 6, 10])):
        args = {'fire_count': rng.choice(['-1', '-1', '-1', '1', '3', 'x', '']),
                'fire_period': rng.choice(['0', '0', '0', '1', 'x'])}
        if rng.random() < .6:
            args['frame_type'] = rng.choice(['single_frame', 'all_frame', 'no_frame', 'bogus'])
        if rng.random() < .3:
            args['condition'] = rng.choice(numbers or expressions)
        if rng.random() < .4:
            args['log_msg'] = rng.choice(TEMPLATES)
        if rng.random() < .15:
            args['snapshot'] = rng.choice(['no_collect', 'collect', 'bogus'])
        if rng.random() < .3:
            args['span'] = rng.choice(['line', 'method', 'bogus'])
        if rng.random() < .4:
            args['stage'] = rng.choice(['line_start', 'line_end', 'line_capture', 'method_start', 'method_end',
                                        'method_capture', 'bogus'])
        if rng.random() < .25:
            args['method_name'] = rng.choice(functions + ['<module>', '<lambda>', '<genexpr>', 'nothing'])
        if rng.random() < .1:
            args['stack_type'] = rng.choice(['stack', 'no_stack', 'bogus'])
        if rng.random() < .1:
            args['window_start'] = rng.choice(['0', 'x', '99999999999999'])
        watches = [rng.choice(expressions) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        metrics = []
        if rng.random() < .3:
            for _ in range(rng.randrange(1, 3)):
                metrics.append(rig.metric(
                    'm', rng.choice(['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']),
                    [rig.label('l', static=rng.choice(['x', 1])), rig.label('k', expression=rng.choice(expressions))],
                    expression=rng.choice(numbers or expressions)))
        tps.append((('t%d' % k), rng.choice(lines), args, watches, metrics))
    out = []
    for tp_id, line, args, watches, metrics in tps:
        try:
            out.append(rig.tp(tp_id, base, line, args, watches, metrics))
        except (ValueError, UnicodeError):  # not possible on the wire
            args = {k: v.encode('utf-8', 'replace').decode() for k, v in args.items()}
            watches = [w.encode('utf-8', 'replace').decode() for w in watches]
            out.append(rig.tp(tp_id, base, line, args, watches, []))
    return out


def reference(path, picked, n_threads, entry, args):
    """The lines the program reaches, without an agent."""
    hits = {}
    lock = threading.RLock()

    def observe(inv, n, frame, event, arg):
        if event == 'line':
            with lock:
                hits[frame.f_lineno] = hits.get(frame.f_lineno, 0) + 1

    with rig.PlainTracer(observe, {path}):
        execute(path, picked, n_threads, entry, args)
    return hits


SENTINEL = {'log_msg': 'sentinel', 'snapshot': 'no_collect', 'fire_count': '-1', 'fire_period': '0'}


def with_agent(path, picked, n_threads, entry, args, tps, sentinels, fault, config=None):
    """Run the program with the agent."""
    rig.EVENTS.clear()
    base = os.path.basename(path)
    if fault.get('plugins'):
        fail = faults.thrower(fault)
        for kind in fault['plugins']:
            rig.FAULTS[kind] = fail
    agent = rig.Agent(config, plugins=('RecLogger', 'RecSpans', 'RecMetrics', 'RecDecorator', 'RecResource',
                                       'RecMetricsB'))
    if fault.get('send'):
        agent.wire.on_send = faults.thrower(fault)
    agent.install(tps + [rig.tp('s%d' % line, base, line, SENTINEL) for line in sentinels])
    injected = faults.inject(fault['inject'], fault['seed']) if fault.get('inject') else None
    if injected is not None:
        injected.on = True
    seen = execute(path, picked, n_threads, entry, args)
    if injected is not None:
        injected.on = False
    rig.FAULTS.clear()
    seen['hits'] = {}
    acted = 0
    for kind, data in list(rig.EVENTS):
        if kind == 'log' and data['tp'] in ['s%d' % x for x in sentinels] and data['msg'] == '[deep] sentinel':
            seen['hits'][data['tp']] = seen['hits'].get(data['tp'], 0) + 1
        elif kind in ('log', 'push', 'metric', 'span_open'):
            acted += 1
    seen['acted'] = acted
    seen['injected'] = injected.raised if injected is not None else 0
    seen['injected_in'] = sorted(injected.names)[:50] if injected is not None else []
    agent.stop()
    return seen


def trial(out, rng, path, source, picked, n_threads, entry='main', args=(), functions=(), kind='', fault=None,
          expressions=BAD_EXPRESSIONS, ordered=True, numbers=None):
    tmp = os.path.dirname(path)
    base = os.path.basename(path)
    fault = fault or {}
    plain = child.forked(lambda: execute(path, picked, n_threads, entry, args), tmp, 'plain')
    ref = child.forked(lambda: reference(path, picked, n_threads, entry, args), tmp, 'ref')
    if plain['end'] != 'ok' or ref['end'] != 'ok':
        raise core.Inconclusive('the program itself does not run: %s %s' % (plain['end'][-1500:], ref['end'][-500:]))
    hits = {int(k): v for k, v in ref['result'].items()}
    lines = sorted(hits) or [1]
    tps = tracepoints(rng, base, lines, list(functions) or ['main'], expressions, numbers)
    used = {t.line_number for t in tps}
    sentinels = rng.sample(lines, min(4, len(lines)))
    # a sentinel behind and at a tracepoint, and where the program ends
    for line in sorted(used)[:2]:
        after = [x for x in lines if x > line]
        sentinels += after[:1] + [line]
    # (the number of times that a thread waits is not fixed)
    free = [i + 1 for i, row in enumerate(open(path, errors='replace')) if '# free' in row]
    sentinels = sorted(set(sentinels) - set(free))
    agent = child.forked(lambda: with_agent(path, picked, n_threads, entry, args, tps, sentinels, fault), tmp, 'agent')
    detail = {'tps': [str(t) for t in tps], 'kind': kind, 'fault': {k: v for k, v in fault.items()}, 'threads': n_threads,
              'source': source[-2500:]}
    out.count('programs')
    out.count(kind)
    if not out.check(agent['end'] == 'ok', 'the program did not run to its end with the agent: %s' % agent['end'][:40],
                     end=agent['end'][-1500:], stderr=agent['stderr'][-1500:], **detail):
        if agent['end'] == 'hang':
            raise core.Enough()
        return
    seen = agent['result']
    out.case((kind, hashlib.sha1(source.encode('utf-8', 'replace')).hexdigest(), [str(t) for t in tps]),
             sample={'kind': kind, 'tracepoints': [str(t) for t in tps][:3], 'fault': str(fault)},
             nontrivial=seen['acted'] > 0)
    out.count('acted', seen['acted'])
    out.count('injected', seen['injected'])
    compare(out, plain, agent, detail, ordered)
    out.count('hooks_checked', len(seen['hooks']))
    out.check(all(seen['hooks']), 'tracing was switched off for a thread', hooks=seen['hooks'], **detail)
    for line in sentinels:
        have, want = seen['hits'].get('s%d' % line, 0), hits[line]
        out.count('sentinel_hits', have)
        lost = seen['injected'] if fault.get('inject') else 0
        out.check(want - lost <= have <= want, 'tracing was switched off: a line that is reached %d times was seen %d times'
                  % (want, have), line=line, injected=seen['injected'], injected_in=seen['injected_in'], **detail)


# ------------------------------------------------------------------------------------------ workloads
@CHECK.unit
def generated(out, rng, params):
    tmp = rig.scratch()
    for i in range(params['rounds']):
        prog = progs.generate(rng, n_funcs=rng.randrange(2, 5), size=rng.randrange(4, 10), raising=.4,
                              coroutines=rng.random() < .4)
        path = rig.write_module(tmp, 'gen%d.py' % i, prog.source)
        trial(out, rng, path, prog.source, [], rng.choice([0, 0, 1]), functions=prog.functions, kind='generated',
              fault=pick_fault(rng, params))


@CHECK.unit
def host_kit(out, rng, params):
    tmp = rig.scratch()
    import re
    functions = re.findall(r'def (\w+)\(', kit.KIT)
    for i in range(params['rounds']):
        picked = rng.sample(range(kit.N_STEPS), rng.randrange(2, 8))
        path = rig.write_module(tmp, 'kit%d.py' % i, kit.KIT)
        trial(out, rng, path, '%s' % picked, picked, 0, functions=functions, kind='kit', fault=pick_fault(rng, params),
              expressions=NO_GARBAGE)


@CHECK.unit
def threaded(out, rng, params):
    tmp = rig.scratch()
    for i in range(params['rounds']):
        src = THREADED.replace('SIZE', str(rng.randrange(3, 8 if params.get('faults') else 24)))
        path = rig.write_module(tmp, 'thr%d.py' % i, src)
        trial(out, rng, path, src, [], rng.choice([2, 3, 6]), functions=['main', 'work', 'gen'], kind='threads',
              fault=pick_fault(rng, params), ordered=False)


THREADED = '''
import threading
LOG = []
class AppError(Exception):
    pass
def gen(n):
    try:
        for i in range(n):
            yield i
    finally:
        LOG.append('closed')
def work(n):
    total = 0
    for i in gen(n):
        try:
            total += i
            if i % 3 == 2:
                raise AppError(i)
        except AppError as e:
            total += e.args[0]
        finally:
            last = i
    x = [total, last]
    return x
def main():
    out = []
    for a in range(SIZE):
        b = a % 4
        out.append(work(b + 1))
    return out
'''


@CHECK.unit
def hostile_values(out, rng, params):
    tmp = rig.scratch()
    for i in range(params['rounds']):
        body = []
        for k in range(rng.randrange(1, 6)):
            body.append('    h%d = %s' % (k, rng.choice(hostile.VALUES)))
        body += ['    g0 = [1, {"a": h0}]', '    a = 1', '    b = "text"']
        if rng.random() < .3:
            body.insert(0, '    self = %s' % rng.choice(hostile.VALUES))
        src = values.PREAMBLE + hostile.PREAMBLE + 'LOG = []\ndef target(p):\n%s\n    mark = 1\n    LOG.append("after")\n' \
            '    for i in range(3):\n        mark += i\n    return mark\n' % '\n'.join(body)
        src += 'def caller(p):\n    w0 = %s\n    return target(p)\n' % rng.choice(hostile.VALUES)
        src += 'def main():\n    return [caller([1]) for i in range(2)]\n'
        path = rig.write_module(tmp, 'hos%d.py' % i, src)
        rows = src.split('\n')
        start = rows.index('def target(p):')

        trial(out, rng, path, '\n'.join(rows[start:]), [], rng.choice([0, 1]), functions=['target', 'caller', 'main'],
              kind='hostile', fault=pick_fault(rng, params) if rng.random() < .3 else None)


TATTLE = '''
import collections, io
TOUCHED = collections.Counter()
NAMES = ('items', 'keys', 'values', 'get', 'copy', 'next', 'read', 'readline', 'pop', 'popitem', 'popleft', 'close', 'append',
         'update', 'clear', 'to_dict', 'as_dict', '_asdict', 'dict', 'json', 'to_json', '__json__', 'size', 'length', 'len',
         'name', 'value', 'count', 'index', 'keys_', 'message', 'args_', 'tolist', 'get_id', 'id', 'describe', 'encode',
         'decode', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'split', 'join', 'format', 'isoformat', 'seek',
         'tell', 'fileno', 'flush', 'start', 'stop', 'wait', 'acquire', 'release', 'with_traceback', 'add_note', 'result',
         'send', 'throw', 'cancel', 'done', 'mro_', 'setdefault', 'extend', 'sort', 'reverse', 'add', 'union', 'shape')
DUNDERS = ('__len__', '__iter__', '__next__', '__getitem__', '__contains__', '__bool__', '__hash__', '__eq__', '__ne__',
           '__lt__', '__le__', '__gt__', '__ge__', '__call__', '__enter__', '__exit__', '__index__', '__int__', '__float__',
           '__complex__', '__reduce__', '__reduce_ex__', '__getstate__', '__copy__', '__deepcopy__', '__format__',
           '__bytes__', '__dir__', '__sizeof__', '__getattr__', '__length_hint__', '__reversed__', '__add__',
           '__radd__', '__mod__', '__rmod__', '__mul__', '__getstate__', '__iadd__', '__or__', '__ror__', '__neg__',
           '__abs__', '__round__', '__trunc__', '__fspath__', '__await__', '__aiter__', '__anext__', '__get__', '__set__',
           '__setattr__', '__delattr__', '__setitem__', '__delitem__', '__missing__', '__instancecheck__',
           '__subclasscheck__', '__buffer__', '__prepare__')
SKIP = {str: ('__hash__', '__eq__'), int: ('__hash__', '__eq__')}
def tattler(cls, name):
    def method(self, *args, **kw):
        TOUCHED[cls, name] += 1
        if name == '__getattr__':
            raise AttributeError(args[0])
        base = getattr(super(KINDS[cls], type(self) and self), name, None)
        if base is None:
            return iter(()) if name in ('items', 'keys', 'values', '__iter__') else 0
        return base(*args, **kw)
    return method
def attribute(cls, name):
    def get(self):
        TOUCHED[cls, 'property ' + name] += 1
        return 5
    return property(get)
KINDS = {}
def kind(label, base, names, props=()):
    body = {n: tattler(label, n) for n in names if n not in SKIP.get(base, ())}
    body.update({n: attribute(label, n) for n in props})
    body['__str__'] = body['__repr__'] = lambda self: 'text of ' + label
    body['__init__'] = lambda self, *a: object.__setattr__(self, 'field', 1)
    KINDS[label] = type(label, (base,), body)
    return KINDS[label]
def clash(base):
    return [n for n in NAMES + DUNDERS if n not in ('__setattr__',)]
for label_, base_, arg_ in (('OfObject', object, None), ('OfDict', dict, {'k': 1}), ('OfList', list, [1, 2]), ('OfTuple', tuple, (1, 2)),
                            ('OfSet', set, {1}), ('OfFrozen', frozenset, {1}), ('OfStr', str, 'abc'), ('OfInt', int, 5),
                            ('OfFloat', float, 1.5), ('OfBytes', bytes, b'abc'), ('OfError', Exception, 'e'),
                            ('OfBase', BaseException, 'b'), ('OfDeque', collections.deque, [1]),
                            ('OfOrdered', collections.OrderedDict, {'k': 1}), ('OfDefault', collections.defaultdict, None),
                            ('OfUser', collections.UserDict, None), ('OfIO', io.StringIO, None)):
    try:
        kind(label_, base_, clash(base_))
    except TypeError:
        pass
kind('Props', object, (), NAMES + ('__class__', '__name__', 'is_active', '__wrapped__', '__traceback__', '__cause__'))
ARGS = {'OfDict': ({'k': 1},), 'OfList': ([1, 2],), 'OfTuple': ((1, 2),), 'OfSet': ({1},), 'OfFrozen': ({1},), 'OfStr': ('abc',),
        'OfInt': (5,), 'OfFloat': (1.5,), 'OfBytes': (b'abc',), 'OfError': ('e',), 'OfBase': ('b',), 'OfDeque': ([1],),
        'OfOrdered': ({'k': 1},)}
class Meta(type):
    pass
for name_ in ('__call__', '__getattribute__', '__getattr__', '__hash__', '__eq__', '__len__', '__iter__', '__instancecheck__',
              '__subclasscheck__', '__dir__', '__bool__', 'mro_'):
    def made_(name=name_):
        def method(cls, *args, **kw):
            TOUCHED['Meta', name] += 1
            if name == '__getattr__':
                raise AttributeError(args[0])
            return getattr(type, name)(cls, *args, **kw)
        return method
    setattr(Meta, name_, made_())
class OfMeta(metaclass=Meta):
    def __str__(self):
        return 'of meta'
class Everything:
    def __init__(self):
        object.__setattr__(self, 'kept', 1)
    def __getattribute__(self, name):
        TOUCHED['Everything', name] += 1
        return object.__getattribute__(self, name)
    def __str__(self):
        return 'everything'
def numbers():
    for i in range(10):
        TOUCHED['generator', i] += 1
        yield i
def make(label):
    if label == 'OfMeta':
        return type.__call__(OfMeta)
    if label == 'Everything':
        return Everything()
    if label in ('zip', 'map', 'filter', 'enumerate', 'iter', 'dictiter', 'reversed', 'count', 'gen', 'io', 'range', 'chain'):
        import itertools
        return {'zip': lambda: zip([1, 2, 3], [4, 5, 6]), 'map': lambda: map(str, [1, 2, 3]),
                'filter': lambda: filter(None, [1, 2, 3]), 'enumerate': lambda: enumerate('abc'),
                'iter': lambda: iter([1, 2, 3]), 'dictiter': lambda: iter({1: 1, 2: 2}), 'reversed': lambda: reversed([1, 2, 3]),
                'count': lambda: itertools.count(), 'gen': numbers, 'io': lambda: io.StringIO('a\\nb\\n'),
                'range': lambda: iter(range(5)), 'chain': lambda: itertools.chain([1], [2])}[label]()
    return KINDS[label](*ARGS.get(label, ()))
POSITIONS = ('zip', 'map', 'filter', 'enumerate', 'iter', 'dictiter', 'reversed', 'count', 'gen', 'io', 'range', 'chain')
'''


@CHECK.unit
def tattlers(out, rng, params):
    """Values that tell when any of their methods or attributes are used, except to make their text."""
    tmp = rig.scratch()
    labels = ['OfObject', 'OfDict', 'OfList', 'OfTuple', 'OfSet', 'OfFrozen', 'OfStr', 'OfInt', 'OfFloat', 'OfBytes', 'OfError',
              'OfBase', 'OfDeque', 'OfOrdered', 'OfDefault', 'OfUser', 'OfIO', 'Props', 'OfMeta', 'Everything', 'zip', 'map',
              'filter', 'enumerate', 'iter', 'dictiter', 'reversed', 'count', 'gen', 'io', 'range', 'chain']
    kit = rig.write_module(tmp, 'tattle_kit.py', TATTLE)
    for i in range(params['rounds']):
        picked = [rng.choice(labels) for _ in range(rng.randrange(1, 5))]
        body = ['    v%d = make(%r)' % (k, label) for k, label in enumerate(picked)]
        if rng.random() < .3:
            body.append('    self = v0')
        body.append('    hold = %s' % rng.choice(['[v0, 1]', '{"k": v0}', '(v0,)', 'type("T", (), {})()', 'None']))
        if rng.random() < .3:
            body.append('    holder = type("T", (), {})()')
            body.append('    holder.inside = v0')
        src = 'with open(%r) as file_:\n    exec(compile(file_.read(), %r, "exec"))\n' % (kit, kit)
        src += 'def target():\n%s\n    mark = 1\n    mark += 1\n' % '\n'.join(body)
        src += '    left = []\n'
        for k, label in enumerate(picked):
            src += '    if %r in POSITIONS:\n        left.append(next(v%d))\n' % (label, k)
        src += '    return left, mark\n'
        src += 'def main():\n    got = [target() for i in range(2)]\n' \
               '    return got, sorted((str(k), n) for k, n in TOUCHED.items())  # free\n'
        path = rig.write_module(tmp, 'tat%d.py' % i, src)
        rows = src.split('\n')
        start = rows.index('def target():')
        names = ['v%d' % k for k in range(len(picked))]
        # (conditions and metrics do use the truth and the number of a value) expressions may use a value, but not in a way that changes it
        expressions = names + ['hold', 'mark', '[v0]', '(v0, mark)', '{"k": v0}', 'nope', 'id(v0)', 'type(v0) is int', 'v0 is None']
        out.count('tattlers', len(picked))
        seen = child.forked(lambda: execute(path, [], 0), tmp, 'probe')
        if seen['end'] != 'ok' or [r[0] for r in seen['result']['results']] != ['result', 'result']:
            raise core.Inconclusive('the program itself does not run: %s' % str(seen)[:1500])
        trial(out, rng, path, '\n'.join(rows[start:]), [], rng.choice([0, 1]), functions=['target', 'main'],
              kind='tattlers', expressions=expressions, numbers=['mark', 'type(v0) is int', 'v0 is None', 'nope', 'mark / 0'])


SCRIPT = """
import atexit, logging, multiprocessing, os, random, signal, subprocess, sys, threading, time, warnings, gc
import concurrent.futures
LOG = []
class Dying:
    def __del__(self):
        print('deleted')
keep = Dying()
atexit.register(lambda: print('at exit', len(LOG) > 3))
def square(n):
    value = n * n
    LOG.append(value)
    return value
def thread_body(n):
    try:
        square(n)
        if n == 2:
            raise ValueError('thread %d' % n)
    finally:
        LOG.append('done')
def normal():
    print([square(i) for i in range(4)])
def exits():
    square(2)
    sys.exit(3)
def exit_text():
    sys.exit('text of the exit')
def fails():
    data = {'a': 1}
    try:
        data['b']
    except KeyError as e:
        raise RuntimeError('not handled') from e
def threads():
    ts = [threading.Thread(target=thread_body, args=(n,)) for n in range(4)]
    for t in ts:
        t.start()
        t.join()
    print(len(LOG))
def daemon():
    e = threading.Event()
    def forever():
        e.set()
        while True:  # at most one
            time.sleep(.01)
            value = square(1)
            LOG.pop()
    threading.Thread(target=forever, daemon=True).start()
    e.wait()
def forks():
    warnings.simplefilter('ignore', DeprecationWarning)  # a process with threads
    pid = os.fork()
    if pid == 0:
        out = square(7)
        os._exit(out)
    print(os.waitpid(pid, 0)[1])
    pid = os.fork()
    if pid == 0:
        square(5)
        sys.exit(6)
    print(os.waitpid(pid, 0)[1])
def pools():
    warnings.simplefilter('ignore', DeprecationWarning)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(2) as pool:
        print(pool.map(square, range(5)))
    p = ctx.Process(target=thread_body, args=(2,))
    p.start()
    p.join()
    print(p.exitcode)
def futures():
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(square, n) for n in range(5)]
        print(sorted(f.result() for f in fs))
        bad = ex.submit(thread_body, 2)
        print(repr(bad.exception()))
def children():
    out = subprocess.run([sys.executable, '-c', 'print(5)'], capture_output=True, text=True)
    print(out.stdout.strip(), out.returncode)
def logs():
    logging.basicConfig(stream=sys.stderr, level=logging.INFO, format='%(name)s %(levelname)s %(message)s', force=True)
    logging.getLogger('host.module').info('info %s', 1)
    logging.getLogger('other').warning('warning')
    logging.getLogger('host').debug('not seen')
    logging.warning('root')
    try:
        1 / 0
    except ZeroDivisionError:
        logging.exception('with trace')
    print(logging.getLogger().handlers and len(logging.getLogger().handlers))
def warns():
    warnings.simplefilter('always')
    warnings.warn('careful')
    print(len(warnings.filters) > 0)
def alarm():
    got = []
    signal.signal(signal.SIGUSR1, lambda *a: got.append(square(3)))
    os.kill(os.getpid(), signal.SIGUSR1)
    for i in range(3):
        pass
    print(got)
def hooks():
    sys.excepthook = lambda t, v, tb: print('hook', t.__name__, v)
    raise ValueError('for the hook')
def seeded():
    random.seed(11)
    for i in range(5):
        n = random.randrange(1000)
        print(n)
def unraisable():
    sys.unraisablehook = lambda a: print('unraisable', a.exc_type.__name__)
    class Bad:
        def __del__(self):
            raise ValueError('in del')
    def scope():
        b = Bad()
        c = 1
        return c
    scope()
    print('after')
"""

SCENARIOS = ['normal', 'exits', 'exit_text', 'fails', 'threads', 'daemon', 'forks', 'pools', 'futures', 'children', 'logs',
             'warns', 'alarm', 'hooks', 'seeded', 'unraisable']


@CHECK.unit
def processes(out, rng, params):
    from google.protobuf import json_format
    import json
    import subprocess
    tmp = rig.scratch()
    for scenario in params['scenarios']:
        src = SCRIPT + '%s()\nprint("end")\n' % scenario
        path = rig.write_module(tmp, 'proc_%s.py' % scenario, src)
        rows = src.split('\n')
        start = rows.index('def %s():' % scenario) + 2
        lines = list(range(start, start + 8)) + [i + 1 for i, r in enumerate(rows) if 'LOG.append' in r or 'square(' in r]
        tps = tracepoints(rng, os.path.basename(path), lines, ['square', 'thread_body', scenario, '<lambda>'], NO_GARBAGE)
        if rng.random() < .7:
            end = rows.index('print("end")') + 1
            lines.append(end)
            tps.append(rig.tp('interrupt', os.path.basename(path), end, {'condition': rng.choice(
                ['(_ for _ in ()).throw(KeyboardInterrupt)', '(_ for _ in ()).throw(SystemExit(4))', 'exit(5)'])},
                ['(_ for _ in ()).throw(KeyboardInterrupt)']))
        spec = {'tps': [json_format.MessageToDict(t, preserving_proto_field_name=True) for t in tps],
                'state': os.path.join(tmp, 'state'), 'stop': rng.random() < .5}
        boot = os.path.join(os.path.dirname(os.path.abspath(rig.__file__)), 'procboot.py')
        got = {}
        detail = {'scenario': scenario, 'tps': [str(t) for t in tps], 'stop': spec['stop']}
        for mode in ('plain', 'agent'):
            p = subprocess.Popen([sys.executable, boot, mode, path, json.dumps(spec)], stdin=subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=tmp, env=dict(
                                     os.environ, VERIF_REPO_SRC=core.REPO_SRC))
            try:
                o, e = p.communicate(timeout=60)
                got[mode] = {'code': p.returncode, 'stdout': o.decode(errors='replace'),
                             'stderr': e.decode(errors='replace')}
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
                got[mode] = {'code': 'hang', 'stdout': o.decode(errors='replace'), 'stderr': e.decode(errors='replace')}
        if got['plain']['code'] == 'hang' or not os.path.exists(spec['state']):
            raise core.Inconclusive('the script does not run: %s' % got)
        os.unlink(spec['state'])
        out.count('processes')
        out.case((scenario, [str(t) for t in tps]), sample={'process': scenario, 'tracepoints': len(tps)})
        for key in ('code', 'stdout', 'stderr'):
            out.check(got['plain'][key] == got['agent'][key], 'a process has another %s with the agent' % key,
                      plain=got['plain'], agent=got['agent'], **detail)
        if got['agent']['code'] == 'hang':
            raise core.Enough()


# ------------------------------------------------------------------------------------------ known findings
PROBES = {
    'recursion-limit': ("""
import inspect, sys
LOG = []
def deep(n):
    here = n
    return deep(n + 1)
def main():
    sys.setrecursionlimit(len(inspect.stack()) + 60)
    try:
        deep(0)
    except RecursionError:
        LOG.append('limit')
    sys.setrecursionlimit(1000)
    return len(LOG)
""", 'here = n', 'near the recursion limit the handler itself fails, so Python switches tracing off for the thread'),
    'pool-lock': ("""
import concurrent.futures
LOG = []
def main():
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        return ex.submit(len, 'abc').result()
""", None, 'a tracepoint inside the lock of the standard library that the delivery of the agent needs blocks the thread'),
}


@CHECK.unit
def probes(out, rng, params):
    import concurrent.futures.thread as pool_module
    tmp = rig.scratch()
    for key, (src, mark, text) in sorted(PROBES.items()):
        path = rig.write_module(tmp, 'probe_%s.py' % key.replace('-', '_'), src)
        rows = src.split('\n')
        plain = child.forked(lambda: execute(path, [], 0), tmp, 'plain')
        if mark is not None:
            base, line = os.path.basename(path), [i + 1 for i, r in enumerate(rows) if mark in r][0]
        else:
            with open(pool_module.__file__) as f:
                rows = f.read().split('\n')
            base = 'thread.py'
            line = [i + 1 for i, r in enumerate(rows) if 'self._work_queue.put(w)' in r][0]
        tps = [rig.tp('t0', base, line, {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'no_frame'})]
        agent = child.forked(lambda: with_agent(path, [], 0, 'main', (), tps, [], {}), tmp, 'agent', timeout=30)
        out.count('probes')
        if agent['end'] == 'hang' and key == 'pool-lock':
            out.known_finding(key, text)
        elif agent['end'] != 'ok':
            out.check(False, 'a probe did not run to its end: %s' % key, end=agent['end'][-800:])
        elif any(plain['result'][k] != agent['result'][k] for k in KEYS) or not all(agent['result']['hooks']):
            out.known_finding(key, text)


def pick_fault(rng, params):
    if not params.get('faults'):
        return {}
    fault = {'seed': rng.randrange(1 << 30), 'error': rng.choice(sorted(faults.ERRORS)), 'rate': rng.choice([.05, .3, 1])}
    kind = rng.randrange(4)
    if kind == 0:
        fault['plugins'] = rng.sample(['log', 'metric', 'span_open', 'span_close', 'decorate', 'resource'],
                                      rng.randrange(1, 7))
    elif kind == 1:
        fault['send'] = True
    else:
        fault['inject'] = {'rate': rng.choice([.0005, .005, .05]), 'errors': rng.sample(sorted(faults.ERRORS),
                                                                                     rng.randrange(1, 4))}
        if kind == 3:
            fault['inject']['single'] = rng.choice([1, 1, 2, 4])
    return fault


@CHECK.planner
def plan(tier, seed):
    q = tier == 'quick'
    units = core.spread('host_kit', 8 if q else 120, seed, rounds=4)
    units += core.spread('host_kit', 8 if q else 120, seed + 1, rounds=5, faults=True)
    units += core.spread('generated', 8 if q else 100, seed, rounds=5)
    units += core.spread('generated', 8 if q else 100, seed + 1, rounds=5, faults=True)
    units += core.spread('hostile_values', 14 if q else 160, seed, rounds=6)
    units += core.spread('tattlers', 8 if q else 80, seed, rounds=8)
    units += core.spread('threaded', 3 if q else 40, seed, rounds=4)
    units += core.spread('threaded', 3 if q else 40, seed + 1, rounds=4, faults=True)
    for i in range(1 if q else 12):
        for k in range(0, len(SCENARIOS), 4):
            units.append(('processes', {'scenarios': SCENARIOS[k:k + 4], 'seed': seed * 1000 + i}))
    units.append(('probes', {'seed': seed}))
    return units


if __name__ == '__main__':
    sys.exit(CHECK.main())
