"""Host programs that notice when someone touches what they own."""

KIT = r'''
import asyncio, collections, contextlib, contextvars, functools, gc, io, itertools, json, logging, os, queue, random
import re, sys, threading, time, traceback, types, weakref

LOG = []
STATE = {'count': 0, 'names': []}
VAR = contextvars.ContextVar('var', default='unset')


TABLE = [
    n * 2
    for n in range(3)
    if n
]
NAMES = {
    k: v
    for k, v in enumerate('abc')
}


class Fin:
    def __init__(self, name):
        self.name = name
        weakref.finalize(self, LOG.append, 'gone ' + name)

    def __str__(self):
        return 'Fin ' + self.name


class Lazy:
    @property
    def value(self):
        LOG.append('lazy value computed')
        return 1

    def __getattr__(self, name):
        LOG.append('lookup ' + name)
        raise AttributeError(name)


class Counted(dict):
    reads = 0

    def __getitem__(self, key):
        Counted.reads += 1
        return dict.__getitem__(self, key)

    def __missing__(self, key):
        self[key] = len(self)
        return dict.__getitem__(self, key)


def iterators(n):
    numbers = iter(range(n))
    letters = (c for c in 'abcdefgh')
    pairs = zip(range(n), itertools.count())
    chain = itertools.chain([1, 2], [3])
    rev = reversed([1, 2, 3])
    lines = io.StringIO('one\ntwo\nthree\n')
    first = next(numbers)
    second = next(letters)
    third = next(pairs)
    group = [first, second, third]
    rest = list(numbers)
    tail = ''.join(letters)
    more = list(pairs)
    left = list(chain) + list(rev)
    text = lines.read()
    return group, rest, tail, more, left, text


def generator(n):
    total = 0
    try:
        while n > 0:
            got = yield n
            total += got or 1
            n -= 1
    except KeyError as e:
        LOG.append('generator got %r' % e)
        total = -1
        yield 'recovered'
    finally:
        LOG.append('generator ends %d' % total)
    return total


def generators():
    g = generator(4)
    a = next(g)
    b = g.send(5)
    c = g.throw(KeyError('k'))
    out = [a, b, c]
    for x in g:
        out.append(x)
    h = generator(2)
    next(h)
    h.close()
    def delegate():
        r = yield from generator(2)
        LOG.append('delegated %s' % r)
    out.extend(delegate())
    return out


def finalizers():
    LOG.append('before')
    name = scoped('one')
    LOG.append('between')
    try:
        scoped('two', True)
    except ValueError:
        LOG.append('caught')
    LOG.append('left')
    for n in range(3):
        name = name + scoped('loop %d' % n)
    LOG.append('looped')
    gen = scoped_gen()
    size = next(gen) + next(gen)
    LOG.append('generated')
    rest = list(gen)
    LOG.append('finished')
    return name, size, rest


def scoped(name, fail=False):
    keep = Fin(name)
    held = [keep, Fin(name + ' held')]
    pair = {'a': held, 'b': keep}
    if fail:
        raise ValueError(name)
    mark = len(pair)
    return keep.name


def scoped_gen():
    keep = Fin('gen')
    yield 1
    more = [keep, Fin('gen held')]
    yield len(more)


def dropped():
    keep = Fin('keep')
    drop = Fin('drop')
    LOG.append('before')
    del drop
    LOG.append('after drop')
    try:
        inner = Fin('inner')
        raise ValueError('with locals')
    except ValueError as e:
        held = e.__traceback__ is not None
        LOG.append('caught %s' % held)
    LOG.append('left')
    inner = None
    LOG.append('reset')
    for item in [Fin('a'), Fin('b')]:
        name = item.name
    item = None
    LOG.append('looped')
    return keep.name


def viewed():
    first = 1
    view = locals()
    first = 2
    second = 3
    view['third'] = 4
    kept = dict(view)
    kept.pop('view', None)
    return kept, first, second


def shared(rounds):
    count = 0
    done = [0]
    def bump():
        nonlocal count
        for i in range(rounds):
            count += 1
            done[0] += 1
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    t = threading.Thread(target=bump, name='host-bump')
    t.start()
    seen = 0
    while t.is_alive():  # free
        seen = count  # free
        t.join(0.0001)  # free
    sys.setswitchinterval(old)
    return count == done[0], done


def rebound():
    big = ['x' * 50 for i in range(20)]
    value = 1
    value = helper_value(value)
    total = value
    value, total = total, helper_value(value)
    return value, total, len(big)


def helper_value(value):
    inner = value + 1
    return inner


def comprehended():
    rows = [
        (a, b)
        for a in range(2)
        for b in range(2)
    ]
    a = 'kept'
    first = {
        a: b
        for a, b in rows
    }
    nested = [
        [x for x in row]
        for row in rows
    ]
    return rows, a, first, nested


def weak():
    cache = weakref.WeakValueDictionary()
    seen = fill(cache)
    done = 'k' in cache
    return seen, done


def fill(cache):
    item = Fin('weak')
    cache['k'] = item
    seen = 'k' in cache
    return seen


def numbers():
    random.seed(7)
    a = random.random()
    b = random.getrandbits(128)
    c = random.sample(range(100), 5)
    d = random.choice('xyz')
    return a, b, c, d


def laziness():
    lazy = Lazy()
    counted = Counted(a=1)
    auto = collections.defaultdict(list)
    auto['x'].append(1)
    mark = 1
    return Counted.reads, dict(auto), len(counted), mark


def exceptions():
    out = []
    for kind in (ValueError, KeyError, ZeroDivisionError, StopIteration, SystemExit, KeyboardInterrupt, GeneratorExit):
        try:
            try:
                out.append(thrower(kind))
            finally:
                LOG.append('finally %s' % kind.__name__)
        except BaseException as e:
            out.append((type(e).__name__, repr(e.args), type(e.__context__).__name__, type(e.__cause__).__name__))
            out.append(trace_of(e))
    return out


def trace_of(e):
    return [(f.name, f.line) for f in traceback.extract_tb(e.__traceback__)]


def thrower(kind):
    values = {'kind': kind.__name__}
    if kind is ZeroDivisionError:
        return 1 // 0
    try:
        raise LookupError('inner')
    except LookupError as e:
        raise kind(values['kind']) from e


def current_exception():
    before = sys.exc_info()[0]
    try:
        raise ValueError('current')
    except ValueError:
        during = sys.exc_info()[0].__name__
        again = traceback.format_exc().count('\n')
    after = sys.exc_info()[0]
    return before, during, again, after


def recursion(n):
    if n == 0:
        return 0
    value = recursion(n - 1)
    return value + n


def stack():
    return inner_stack()


def inner_stack():
    f = sys._getframe()
    names = []
    while f is not None and len(names) < 4:
        names.append(f.f_code.co_name)
        f = f.f_back
    return names[:3]


def closures():
    out = []
    count = 0
    def bump(k):
        nonlocal count
        count += k
        return count
    for i in range(3):
        out.append(bump(i))
    fns = [lambda v=v: v * count for v in range(3)]
    out.append([f() for f in fns])
    STATE['count'] += count
    return out


def own_tracer():
    seen = []
    def mine(frame, event, arg):
        if frame.f_code.co_name == 'traced':
            seen.append((event, frame.f_lineno - frame.f_code.co_firstlineno))
            return mine
    def traced():
        x = 1
        y = 2
        return x + y
    old = sys.gettrace()
    sys.settrace(mine)
    traced()
    sys.settrace(old)
    return seen


def own_profiler():
    seen = []
    def mine(frame, event, arg):
        if frame.f_code.co_filename == __file__:
            seen.append((event, frame.f_code.co_name))
    sys.setprofile(mine)
    value = recursion(3)
    closures()
    sys.setprofile(None)
    return seen, value


def managers():
    out = []
    with contextlib.suppress(KeyError):
        out.append('in')
        raise KeyError('suppressed')
    with contextlib.ExitStack() as s:
        s.callback(out.append, 'callback')
        s.enter_context(closing('one'))
        out.append('body')
    try:
        with closing('two'):
            raise ValueError('through')
    except ValueError:
        out.append('through')
    return out


@contextlib.contextmanager
def closing(name):
    LOG.append('open ' + name)
    try:
        yield name
    finally:
        LOG.append('close ' + name)


async def step(n):
    await asyncio.sleep(0)
    VAR.set('step %d' % n)
    value = VAR.get()
    if n == 2:
        raise ValueError('step two')
    return value


async def agen(n):
    for i in range(n):
        yield i
        await asyncio.sleep(0)


async def amain():
    VAR.set('main')
    results = await asyncio.gather(*[asyncio.ensure_future(step(i)) for i in range(4)], return_exceptions=True)
    items = [x async for x in agen(3)]
    async with alock() as got:
        items.append(got)
    try:
        await asyncio.wait_for(asyncio.sleep(60), 0.001)
    except asyncio.TimeoutError:
        items.append('timeout')
    return [str(r) for r in results], items, VAR.get()


@contextlib.asynccontextmanager
async def alock():
    lock = asyncio.Lock()
    async with lock:
        yield lock.locked()


def coroutines():
    return asyncio.run(amain())


def threads():
    q = queue.Queue()
    local = threading.local()
    lock = threading.Lock()
    total = [0]
    errors = []
    def work(n):
        local.n = n
        for i in range(5):
            with lock:
                total[0] += i
        if n == 1:
            raise RuntimeError('worker')
        q.put((n, local.n))
    old = threading.excepthook
    threading.excepthook = lambda a: errors.append((a.exc_type.__name__, str(a.exc_value)))
    ts = [threading.Thread(target=work, args=(n,), name='host-%d' % n) for n in range(3)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    threading.excepthook = old
    got = sorted(q.get() for _ in range(q.qsize()))
    return got, total, errors


def output():
    print('to stdout', STATE['count'])
    sys.stderr.write('to stderr\n')
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        print('captured')
    return buf.getvalue()


def classes():
    class Meta(type):
        def __new__(mcs, name, bases, ns):
            LOG.append('class ' + name)
            return type.__new__(mcs, name, bases, dict(ns, extra=1))
    class Body(metaclass=Meta):
        here = [i for i in range(3)]
        table = {
            i: str(i)
            for i in here
        }
        flat = [
            a + b
            for a in here
            for b in table
        ]
        total = sum(here)
        def method(self):
            return self.total + self.extra
    made = Body().method()
    kind = type('Dyn', (Body,), {'x': 2})
    return made, kind.x, Body.table, Body.flat, TABLE, NAMES, sorted(n for n in vars(Body) if not n.startswith('__'))


def shadows():
    eval = len
    str = 'text'
    dict = [1]
    self = None
    frame = event = arg = 'mine'
    deep = {'a': 1}
    config = trigger = deep
    return eval(str), dict, self, frame, event, arg, config


def mutation():
    data = {'a': [1, 2], 'b': (3,)}
    text = 'abc'
    nested = [data, data]
    nested[0]['a'].append(nested)
    size = len(nested)
    data['c'] = size
    return sorted(data), len(data['a']), data['c'], text


def big():
    big_list = list(range(5000))
    big_dict = {str(i): [i] for i in range(2000)}
    big_text = 'x' * 100000
    deep_list = []
    for i in range(25):
        deep_list = [deep_list]
    total = sum(big_list)
    return total, len(big_dict), len(big_text)


def loggers():
    stream = io.StringIO()
    log = logging.getLogger('host.app')
    handler = logging.StreamHandler(stream)
    log.addHandler(handler)
    log.propagate = False
    log.setLevel(logging.INFO)
    log.info('hello %s', 'host')
    log.debug('not this')
    log.removeHandler(handler)
    return stream.getvalue(), logging.getLogger().level, len(logging.getLogger().handlers), log.disabled


def matching(v):
    match v:
        case {'a': x, **rest}:
            out = ('dict', x, rest)
        case [a, b, *c]:
            out = ('list', a, b, c)
        case str() as s:
            out = ('str', s)
        case _:
            out = ('other',)
    return out


def groups():
    out = []
    try:
        raise ExceptionGroup('eg', [ValueError(1), TypeError(2), KeyError(3)])
    except* ValueError as e:
        out.append(('v', len(e.exceptions)))
    except* (TypeError, KeyError) as e:
        out.append(('tk', len(e.exceptions)))
    return out


@functools.lru_cache(None)
def cached(n):
    LOG.append('cached %d' % n)
    return n if n < 2 else cached(n - 1) + cached(n - 2)


def contexts():
    ctx = contextvars.copy_context()
    ctx.run(VAR.set, 'inside')
    return VAR.get(), ctx[VAR]


def sort_keys():
    calls = []
    def key(v):
        calls.append(v)
        return -v
    data = sorted([3, 1, 2], key=key)
    best = max(data, key=lambda v: v % 3)
    return data, calls, best


def early(n):
    for i in range(n):
        try:
            if i == 2:
                return i
        finally:
            LOG.append('early %d' % i)
    else:
        return 'never'


STEPS = [
    lambda: iterators(6), generators, finalizers, weak, numbers, laziness, exceptions, current_exception,
    lambda: recursion(12), stack, closures, own_tracer, own_profiler, managers, coroutines, threads, output, classes,
    shadows, mutation, big, loggers, lambda: [matching(v) for v in ({'a': 1, 'b': 2}, [1, 2, 3], 's', 5)], groups,
    lambda: (cached(5), cached.cache_info()), contexts, sort_keys, lambda: early(5),
    dropped, viewed, lambda: shared(400), rebound, comprehended,
]


def main():
    out = []
    for step in PICKED:
        try:
            out.append(repr(STEPS[step]()))
        except BaseException as e:
            out.append('raised %s %r %s' % (type(e).__name__, e.args, trace_of(e)))
    return out
'''

N_STEPS = 33
