"""Programs whose frames hold a scene of many kinds of values; every line or function with a mark can be a tracepoint."""
from harness import values

FAILING = ['undefined', 'obj.nope', 'items[99]', 'mapping["missing"]', '1 / 0', 'int("x")', 'boom()', 'boom("a {b} %s")',
           'undefined.attr', 'none.attr', 'a + "x"', 'len(5)', 'helper()', 'helper(1, 2, 3)', 'leave()', 'interrupt()',
           'quiet()', 'stop()', 'undefined["}"]', 'undefined("{")', 'boom("\u4e2d")', 'items["x"]', 'text.nope()', 'nested["a"]["z"]',
           '[undefined for _ in items]', 'next(iter([]))', 'assertion()', '{}.nope', 'chained()', 'group()']
SYNTAX = ['', ' ', 'a +', 'import os', 'a b', 'a = 1', 'return a', 'for', 'a;b', '1a', ')', 'a)', '(a', 'x y z', '!', ':', 'a ! b',
          'print "x"', '@', '$', 'del a', 'raise X', '\u20ac']

SOURCE = values.PREAMBLE + '''
import threading
G = 'global'
G_LIST = [10, 20]
STAMPS = []
_lock = threading.Lock()

def stamp():
    with _lock:
        STAMPS.append((threading.current_thread().name, 'S%d;' % len(STAMPS)))
        return STAMPS[-1][1]

def helper(v):
    return 'helped %s' % (v,)

class Boom(Exception):
    pass

def boom(msg='boom'):
    raise Boom(msg)

def leave():
    raise SystemExit('leaving')

def interrupt():
    raise KeyboardInterrupt('interrupted')

def quiet():
    raise Boom()

def stop():
    raise StopIteration('stopped')

def assertion():
    assert G == 1, 'not %s {one}' % G

def chained():
    try:
        boom('first')
    except Boom as e:
        raise ValueError('second') from e

def group():
    raise ExceptionGroup('grouped', [Boom('in')])

class Thing:
    def __init__(self, name, child=None):
        self.name = name
        self.child = child
    def method(self, v, k=0):
        return '%s(%s, %s)' % (self.name, v, k)
    def __str__(self):
        return 'Thing {%s}' % self.name

def scene(n, once):
    a, b = n, n + 2
    n\u00e4me = 'umlaut'
    text = 'some text %d' % n
    items = [n, 5, 7]
    mapping = {'k': [n], 'a:b': 'colon', '{': 'open', '}': 'close'}
    nested = {'a': {'b': [0, {'c': n}]}}
    obj = Thing('parent', Thing('child'))
    point = Point(n, 'why')
    none, flag = None, n % 2 == 0
    big = 'long ' * 1000
    brackets = 'value {a} {{b}} }'
    percent = '100% %s %(x)s'
    error = ValueError('held')
    data = b'bytes'
    colored = Color
    return locals()
'''
NAMES = ['a', 'b', 'n\u00e4me', 'text', 'items', 'mapping', 'nested', 'obj', 'point', 'none', 'flag', 'big', 'brackets', 'percent',
         'error', 'data', 'colored', 'once']


def program(rng, n_functions):
    """The source, and the lines and functions that can be tracepoints: [(line, function, names)]."""
    lines = SOURCE.split('\n')
    lines[0:0] = []
    marks, calls = [], []
    body = []

    def emit(text):
        body.append(text)
        return len(lines) + len(body)

    unpack = ['%s = sc[%r]' % (name, name) for name in NAMES]
    for i in range(n_functions):
        kind = rng.choice(['plain', 'closure', 'method', 'generator', 'loop', 'args', 'recursive'])
        fn = 'fn%d' % i
        emit('')
        if kind == 'args':
            emit('def %s(%s, closed):' % (fn, ', '.join(NAMES)))
            marks.append((emit('    mark = 1'), fn))
            calls.append('%s(closed="c", **{k: v for k, v in scene(%d, Thing("once")).items() if k != "n"})' % (fn, i))
            continue
        emit('def %s(n=%d):' % (fn, i))
        emit('    sc = scene(n, Thing("once"))')
        for line in unpack:
            emit('    ' + line)
        emit('    closed = "c"')
        if kind == 'plain':
            marks.append((emit('    mark = 1'), fn))
            marks.append((emit('    mark = 2'), fn))
        elif kind == 'loop':
            emit('    for turn in range(3):')
            marks.append((emit('        a = turn * 10'), fn))
            marks.append((emit('        items = items + [turn]'), fn))
        elif kind == 'closure':
            emit('    def inside(%s):' % ', '.join('%s=%s' % (v, v) for v in NAMES if v not in ('a', 'items')))
            marks.append((emit('        return (a, items, closed)'), 'inside'))
            emit('    inside()')
        elif kind == 'method':
            emit('    class Holder:')
            emit('        def run(self, %s, closed):' % ', '.join(NAMES))
            marks.append((emit('            mark = self'), 'run'))
            emit('    Holder().run(%s, closed)' % ', '.join(NAMES))
        elif kind == 'generator':
            marks.append((emit('    yield a'), fn))
            marks.append((emit('    yield b'), fn))
        elif kind == 'recursive':
            emit('    if n > %d:' % i)
            marks.append((emit('        return n'), fn))
            emit('    %s(n + 1)' % fn)
            marks.append((emit('    mark = 1'), fn))
        calls.append('list(%s())' % fn if kind == 'generator' else '%s()' % fn)
    emit('')
    emit('def main():')
    for call in calls:
        emit('    ' + call)
    return '\n'.join(lines + body) + '\n', marks
