"""Sources of programs that build values: all kinds of types, sharing and cycles."""

PREAMBLE = '''
import collections, datetime, decimal, enum, fractions, types, dataclasses, uuid, re

class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)
    def __str__(self):
        return 'Plain!'

class Priv:
    def __init__(self, a, b):
        self.__secret = a
        self._inner = b
        self.open = 1
        self.__dunder__ = 2
    def show(self):
        here = self.__secret
        return here

class Sub(Priv):
    def __init__(self, a):
        super().__init__(a, None)
        self.__own = a

class _Hidden:
    def __init__(self, v):
        self.__v = v

class Slotted:
    __slots__ = ('x', 'y')
    def __init__(self, x):
        self.x = x
    def __str__(self):
        return 'Slotted'

class Named(collections.namedtuple('Named', 'a b')):
    pass

class Color(enum.Enum):
    RED = 1
    BLUE = 'b'

@dataclasses.dataclass
class Point:
    x: int
    y: object = None

class Text(str):
    pass

class MyList(list):
    pass

class MyErr(ValueError):
    def __str__(self):
        return 'my err'

class Quiet:
    pass

def function(a, b=2):
    return a

def counter(n):
    for k in range(n):
        yield k

'''

LEAVES = ["1", "0", "-7", "2**70", "1.5", "float('nan')", "float('inf')", "True", "False", "None", "''", "'text'",
          "'h\\u00e9 \\u4e2d \\U0001f600'", "'with \\x00 nul'", "'line\\nbreak'", "b'bytes'", "bytearray(b'ab')",
          "3+4j", "range(5)", "'x' * 1023", "'x' * 1024", "'y' * 1025", "'z' * 5000", "Ellipsis", "NotImplemented",
          "datetime.date(2020, 1, 2)", "decimal.Decimal('1.10')", "fractions.Fraction(1, 3)", "Color.RED",
          "uuid.UUID(int=5)", "function", "Plain", "len", "collections", "lambda: 0", "counter(3)", "iter([1, 2])",
          "iter({'a': 1})", "map(str, [1])", "Quiet()", "object()", "Text('sub')", "slice(1, 2)", "re.compile('a+')",
          "memoryview(b'abc')", "types.SimpleNamespace(q=1)", "type(None)", "int", "Slotted(1)", "MyErr('m')",
          "KeyError('k', 2)", "Exception()", "OSError(2, 'gone')", "reversed([1, 2])", "'%s %d {x}'"]

KEYS = ["'a'", "'b c'", "'_p'", "'__d'", "''", "'\\u00fc'", "1", "2.5", "None", "(1, 2)", "True", "b'k'",
        "frozenset([1])", "Color.RED", "'__class__'", "'self'", "'0'"]


def expression(rng, names, depth=0, bounded=False):
    """An expression that builds a value."""
    r = rng.random()
    if names and r < .18:
        return rng.choice(names)
    if depth >= 5 or r < .42:
        return rng.choice(LEAVES)
    n = rng.choice([0, 1, 2, 3, 3, 4, 9, 10, 11, 15]) if depth < 2 else rng.randrange(3)
    sub = [expression(rng, names, depth + 1) for _ in range(n)]
    k = rng.randrange(12)
    if k < 3:
        return '[%s]' % ', '.join(sub)
    if k == 3:
        return '(%s)' % (', '.join(sub) + (',' if sub else ''))
    if k < 6:
        keys = [rng.choice(KEYS) for _ in sub]
        return '{%s}' % ', '.join('%s: %s' % p for p in zip(keys, sub))
    if k == 6:
        return rng.choice(['set', 'frozenset']) + '([%s])' % ', '.join(
            rng.choice(["1", "'s'", "(1, 2)", "None", "2.5", "Color.BLUE", "'%d'" % i, str(i)]) for i in range(n))
    if k == 7:
        return 'Plain(%s)' % ', '.join('%s=%s' % ('abcdefghijklmnopq'[i], s) for i, s in enumerate(sub))
    if k == 8:
        return 'Priv(%s, %s)' % ((sub + ['1', '2'])[0], (sub + ['1', '2'])[1])
    if k == 9:
        return rng.choice(['Sub(%s)', '_Hidden(%s)', 'Point(1, %s)', 'ValueError(%s)', 'MyErr(1, %s)',
                           'types.SimpleNamespace(n=%s)', '[[[[[[%s]]]]]]', "{'k': {'k': {'k': {'k': %s}}}}",
                           'Plain(n=Plain(n=Plain(n=Plain(n=%s))))']) % (sub + ['3'])[0]
    if k == 10:
        return rng.choice(['collections.OrderedDict(a=%s)', 'collections.deque([%s])', 'MyList([%s])', 'Named(1, %s)',
                           'collections.defaultdict(list, k=%s)', 'collections.Counter("abc")', '[%s] * 20',
                           '(%s,) * 12']).replace('%s', (sub + ['3'])[0])
    return 'dict.fromkeys(range(%d), %s)' % (rng.choice([2, 12]), (sub + ['0'])[0])


NAMES = ['a', 'b', 'c', 'data', 'items', '_p', '__q', 'locals', 'name', 'obj', 'val', 'x1', 'vid', 'type_', 'ünï', 'result',
         'frame', 'self_', 'cache']


def statements(rng, n=6, taken=()):
    """Assignments that build locals; returns (lines, names)."""
    lines, names = [], list(taken)
    for _ in range(n):
        name = rng.choice(NAMES)
        lines.append('%s = %s' % (name, expression(rng, names)))
        if name not in names:
            names.append(name)
        r = rng.random()
        if r < .12:
            lines.append('%s = [1]; %s.append(%s)' % (name, name, name))
        elif r < .2:
            lines.append('%s = Quiet(); %s.me = %s; %s.other = %s' % (name, name, name, name, rng.choice(names)))
        elif r < .26:
            lines.append("%s = {}; %s['again'] = %s" % (name, name, name))
        elif r < .32 and len(names) > 1:
            other = rng.choice(names)
            lines.append('%s = [%s]; %s = {"back": %s}' % (name, other, other, name))
        elif r < .36 and len(names) > 1:
            lines.append('del %s' % names.pop())
    return lines, names
