"""Program shapes for work that ends later than it begins: every function, and every line, can be a tracepoint.

This file is installed as the program; each call of `unique` gives a value that occurs only once.
"""
import itertools
import threading

_numbers = itertools.count(1000)
_first = threading.local()


class Oops(Exception):
    pass


class Quiet(Exception):
    pass


def unique():
    return next(_numbers)


def boom():
    raise Oops('oops-%d' % next(_numbers))


def recursion(n):
    if n == 0:
        return unique()
    below = recursion(n - 1)
    return below * 1000003 + n


def far_down(n, first=True):
    """Only the first one comes past its own lines, the others are far below it."""
    if first:
        mark = unique()
        got = far_down(n - 1, False)
        return mark, got
    if n > 0:
        return far_down(n - 1, False)
    return unique()


def recursion_line(n): return unique() if n == 0 else (recursion_line(n - 1), n)


def twice(n):
    if n <= 0:
        return unique()
    return twice(n - 1) + twice(n - 2)


def even(n):
    return unique() if n == 0 else odd(n - 1)


def odd(n):
    value = even(n - 1)
    return value


def handled():
    try:
        boom()
    except Oops:
        pass
    return unique()


def handled_last():
    try:
        boom()
    except Oops as e:
        return str(e)


def handled_without_value():
    try:
        boom()
    except Oops:
        pass


def handled_in_loop():
    for _ in range(3):
        try:
            boom()
        except Oops:
            continue
    return unique()


def unwound():
    boom()


def unwound_direct():
    raise Oops('direct-%d' % unique())


def unwound_finally():
    try:
        boom()
    finally:
        after = unique()
        after += 1


def unwound_deep(n):
    if n == 0:
        raise Oops('deep-%d' % unique())
    unwound_deep(n - 1)


def recursion_handled(n):
    if n == 0:
        raise Oops('bottom-%d' % unique())
    try:
        return recursion_handled(n - 1)
    except Oops:
        if n == 2:
            return unique()
        raise


def finally_returns():
    try:
        boom()
    finally:
        return unique()


def reraised():
    try:
        boom()
    except Oops:
        raise


def replaced():
    try:
        boom()
    except Oops as e:
        raise Quiet('quiet-%d' % unique()) from e


def saved_and_raised():
    kept = None
    try:
        boom()
    except Oops as e:
        kept = e
    value = unique()
    if value:
        raise kept


def while_handling():
    try:
        boom()
    except Oops:
        value = returns_value()
        return value


def returns_none_while_handling():
    try:
        boom()
    except Oops:
        returns_none()
        return


def returns_value():
    return unique()


def returns_none():
    unique()


def returns_exception():
    return Oops('value-%d' % unique())


def suppressed():
    with Suppress():
        boom()
    return unique()


def suppressed_at_end():
    with Suppress():
        boom()


def not_suppressed():
    with Suppress(False):
        boom()


def not_suppressed_nested():
    with Suppress(False):
        with Suppress(False):
            boom()


def suppressed_outside():
    with Suppress(True):
        with Suppress(False):
            boom()


def locked():
    with threading.Lock():
        with threading.Lock():
            boom()


def handling_with():
    try:
        boom()
    except Oops:
        with Suppress(False):
            raise Quiet('in-with-%d' % unique())


def handled_in_cleanup():
    try:
        boom()
    finally:
        try:
            raise Quiet('cleanup-%d' % unique())
        except Quiet:
            pass


def handled_in_cleanup_with():
    with Suppress(False):
        try:
            boom()
        finally:
            handled_without_value()


def bare_raise():
    try:
        boom()
    except Oops:
        bare_raise_inner()


def bare_raise_inner():
    raise


def raised_in_exit():
    with RaisingExit():
        boom()


class RaisingExit:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        raise Quiet('exit-%d' % unique())


async def aexit():
    async with AManager():
        await pause()
        boom()


class Suppress:
    def __init__(self, how=True):
        self.how = how

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        return self.how


class A:
    def run(self, n):
        return [unique(), B().run(n - 1) if n else None]


class B:
    def run(self, n):
        value = A().run(n)
        return (unique(), value)


def same():
    def inner(n):
        def inner(m):
            return unique() + m
        return inner(n) + unique()
    return inner(1)


def numbers(n):
    for i in range(n):
        yield unique()
    return unique()


def delegating(n):
    got = yield from numbers(n)
    yield got


def interleaved():
    a, b = numbers(3), numbers(3)
    out = []
    for x in a:
        out.append((x, next(b, None)))
    return len(out)


def generator_handles():
    try:
        yield unique()
        yield unique()
    except Quiet:
        yield unique()
    except Oops:
        raise
    finally:
        unique()


def driven():
    g = generator_handles()
    next(g)
    value = g.throw(Quiet('thrown-%d' % unique()))
    g.close()
    h = generator_handles()
    next(h)
    try:
        h.throw(Oops('thrown-%d' % unique()))
    except Oops:
        pass
    return value


def abandoned():
    g = generator_handles()
    next(g)
    del g
    return unique()


def generator_raises():
    yield unique()
    boom()


def consumes():
    out = []
    try:
        for v in generator_raises():
            out.append(v)
    except Oops:
        out.append(unique())
    return tuple(out)


def comprehension():
    values = [returns_value() for _ in range(3)]
    return len([v for v in values if keep(v)])


def keep(v):
    return v % 2 == 0


def sorting():
    return len(sorted([3, 1, 2], key=key))


def key(v):
    try:
        return v if v != 2 else int('x')
    except ValueError:
        return 0


def lambdas():
    f = lambda v: unique() + v  # noqa: E731
    return f(1) + f(2)


def one_line(): return unique()


def two_on_a_line():
    a = returns_value(); b = returns_value()  # noqa: E702
    return a + b


def looping():
    n = 0
    while n < 4:
        n += 1
    for i in range(3): n += i  # noqa: E701
    return n + unique()


def decorated(fn):
    def wrapper(*args):
        try:
            return fn(*args)
        finally:
            unique()
    return wrapper


@decorated
def wrapped(n):
    if n > 1:
        return unique()
    raise Oops('wrapped-%d' % unique())


class Deleted:
    def __del__(self):
        self.value = unique()


def finalizer():
    d = Deleted()
    d = None
    return unique()


class Dunder:
    def __getattr__(self, name):
        if name == 'missing':
            raise AttributeError(name)
        return unique()

    def __iter__(self):
        return iter([unique(), unique()])

    def __eq__(self, other):
        boom()

    def __bool__(self):
        return False

    def __hash__(self):
        return 1


def dunders():
    d = Dunder()
    out = [hasattr(d, 'missing'), d.there, list(d)]
    try:
        d == 2
    except Oops as e:
        out.append(str(e))
    return len(out) if not d else 0


def stop_iteration():
    it = iter([1])
    next(it)
    try:
        next(it)
    except StopIteration:
        pass
    return unique()


def default_of_next():
    return next(iter([]), unique())


def callback_chain(n):
    return list(map(callback_step, range(n)))[-1]


def callback_step(i):
    if i == 1:
        return handled()
    return unique()


def exits():
    raise SystemExit('exit-%d' % unique())


def group():
    try:
        raise ExceptionGroup('group', [Oops('a-%d' % unique()), Quiet('b')])
    except* Oops:
        unique()
    except* Quiet:
        pass
    return unique()


def group_rest():
    try:
        raise ExceptionGroup('group', [Oops('a-%d' % unique()), ValueError('b')])
    except* Oops:
        pass


def nested_try(n):
    try:
        try:
            if n % 2:
                boom()
            return unique()
        except Oops:
            if n % 3 == 0:
                boom()
            raise
        finally:
            unique()
    except Oops as e:
        if n % 5 == 0:
            raise Quiet(str(e))
        return str(e)


def matching(v):
    match v:
        case [a, b]:
            return a + unique()
        case {'k': x}:
            boom()
        case _:
            return unique()


def exec_code():
    ns = {'unique': unique}
    exec('value = unique()\ndef made():\n    return unique()\nother = made()', ns)
    return ns['value']


async def leaf(n):
    if n == 3:
        raise Oops('leaf-%d' % unique())
    await pause()
    return unique()


class Pause:
    def __await__(self):
        yield unique()


async def pause():
    await Pause()
    return unique()


async def branch(n):
    total = 0
    for i in range(n):
        try:
            total += await leaf(i + 1)
        except Oops:
            total += unique()
    return total


async def agen(n):
    for i in range(n):
        await pause()
        yield unique()


async def over(n):
    out = []
    async for v in agen(n):
        out.append(v)
    async with AManager() as m:
        out.append(m)
    return len(out)


class AManager:
    async def __aenter__(self):
        await pause()
        return unique()

    async def __aexit__(self, *a):
        await pause()
        return False


def tasks():
    """Several coroutines, interleaved on this thread."""
    running = [branch(3), over(2), branch(4), aexit(), leaf(3), leaf(1)]
    results = []
    while running:
        for co in list(running):
            try:
                co.send(None)
            except StopIteration as stop:
                results.append(stop.value)
                running.remove(co)
            except Oops as e:
                results.append(str(e))
                running.remove(co)
    return len(results)


CALLS = [
    (recursion, 3), (recursion_line, 3), (far_down, 70), (twice, 3), (even, 4), (handled,), (handled_last,), (handled_without_value,),
    (handled_in_loop,), (unwound,), (unwound_direct,), (unwound_finally,), (unwound_deep, 3), (recursion_handled, 3),
    (finally_returns,), (reraised,), (replaced,), (saved_and_raised,), (while_handling,), (returns_none_while_handling,),
    (returns_value,), (returns_none,), (returns_exception,), (suppressed,), (suppressed_at_end,), (not_suppressed,), (not_suppressed_nested,), (suppressed_outside,), (locked,),
    (handling_with,), (handled_in_cleanup,), (handled_in_cleanup_with,), (bare_raise,), (raised_in_exit,),
    (A().run, 2), (same,), (interleaved,), (driven,), (abandoned,), (consumes,), (comprehension,), (sorting,), (lambdas,),
    (one_line,), (two_on_a_line,), (looping,), (wrapped, 2), (wrapped, 1), (finalizer,), (dunders,), (stop_iteration,),
    (default_of_next,), (callback_chain, 3), (exits,), (group,), (group_rest,), (matching, [1, 2]), (matching, {'k': 1}),
    (matching, 3), (exec_code,), (tasks,), (nested_try, 0), (nested_try, 1), (nested_try, 2), (nested_try, 3),
    (nested_try, 5), (nested_try, 15), (list, numbers(2)), (list, delegating(2)),
]


def one(fn, *args):
    try:
        return fn(*args)
    except (Exception, SystemExit):
        return None


def main(order):
    for i in order:
        call = CALLS[i % len(CALLS)]
        if i % len(CALLS) >= len(CALLS) - 2:
            one(list, delegating(2) if i % 2 else numbers(2))
        else:
            one(*call)
