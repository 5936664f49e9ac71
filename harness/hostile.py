"""Sources of hostile values."""

PREAMBLE = r'''
import collections, contextlib, ctypes, enum, functools, io, itertools, sys, threading, types, unittest.mock, weakref, queue, operator, array, socket, tempfile, asyncio, string, random, decimal, dataclasses, typing, re, datetime

class Fatal(BaseException):
    pass

def raiser(exc):
    def fail(*a, **k):
        raise exc
    return fail

class StrFails:
    def __str__(self):
        raise ValueError('no str')

class StrFatal:
    def __str__(self):
        raise Fatal('fatal str')

class StrExits:
    def __str__(self):
        raise SystemExit(7)

class StrInterrupts:
    def __repr__(self):
        raise KeyboardInterrupt()

class StrStops:
    def __str__(self):
        raise StopIteration('stop')

class StrRecursive:
    def __str__(self):
        return str(self)

class StrNotText:
    def __str__(self):
        return 42

class StrNone:
    def __str__(self):
        return None
    __repr__ = __str__

class StrSurrogate:
    def __str__(self):
        return 'half \ud83d of it'
    __repr__ = __str__

class StrSubclass:
    class Text(str):
        def __str__(self):
            raise ValueError('text')
        def __len__(self):
            raise ValueError('len')
        def __getitem__(self, k):
            raise ValueError('getitem')
        def encode(self, *a):
            raise ValueError('encode')
    def __str__(self):
        return StrSubclass.Text('sub')

class AttrFails:
    def __getattr__(self, name):
        raise RuntimeError('no attr ' + name)

class AttrFatal:
    def __getattribute__(self, name):
        raise Fatal('attr ' + name)

class AttrLoops:
    def __getattribute__(self, name):
        return getattr(self, name)

class DictFails:
    @property
    def __dict__(self):
        raise RuntimeError('no dict')

class DictFatal:
    @property
    def __dict__(self):
        raise Fatal('dict')

class DictText:
    @property
    def __dict__(self):
        return 'not a dict'

class DictNone:
    __dict__ = None

class DictNumbers:
    @property
    def __dict__(self):
        return {1: 2, None: 3}

class ClassLies:
    @property
    def __class__(self):
        return dict

class ClassFails:
    @property
    def __class__(self):
        raise RuntimeError('no class')

class ClassFatal:
    @property
    def __class__(self):
        raise Fatal('class')

class Slots:
    __slots__ = ('a', 'b')

class SlotsStr:
    __slots__ = ('a',)
    def __str__(self):
        raise OSError('slots')

class LenFails(list):
    def __len__(self):
        raise ValueError('len')
    def __iter__(self):
        raise ValueError('iter')
    def __str__(self):
        raise ValueError('str')

class LenHuge(list):
    def __len__(self):
        return sys.maxsize

class IterForever(list):
    def __iter__(self):
        return itertools.count()
    def __str__(self):
        return 'forever'

class DictFailing(dict):
    items = keys = values = __iter__ = __len__ = __getitem__ = __contains__ = get = raiser(RuntimeError('dict'))
    __repr__ = __str__ = raiser(RuntimeError('dict str'))

class TupleFailing(tuple):
    __iter__ = __len__ = __getitem__ = raiser(Fatal('tuple'))
    __repr__ = raiser(Fatal('tuple repr'))

class SetFailing(set):
    __iter__ = __len__ = raiser(RuntimeError('set'))
    __repr__ = raiser(RuntimeError('set repr'))

class StrFailing(str):
    __str__ = __len__ = __getitem__ = __repr__ = startswith = endswith = encode = __hash__ = __eq__ = __format__ = \
        raiser(RuntimeError('str'))

class IntFailing(int):
    __str__ = __repr__ = __hash__ = __eq__ = __bool__ = __index__ = raiser(RuntimeError('int'))

class BytesFailing(bytes):
    __str__ = __repr__ = __len__ = decode = raiser(RuntimeError('bytes'))

class EqFails:
    __hash__ = object.__hash__
    def __eq__(self, other):
        raise ValueError('eq')
    def __bool__(self):
        raise ValueError('bool')

class HashFails:
    def __hash__(self):
        raise TypeError('hash')
    def __eq__(self, other):
        return True

class BoolNever:
    def __bool__(self):
        raise Fatal('bool')
    def __len__(self):
        raise Fatal('len')

class CallFails:
    def __call__(self, *a):
        raise Fatal('call')

class ErrArgs(Exception):
    @property
    def args(self):
        raise ValueError('args')
    def __str__(self):
        raise ValueError('err str')

class ErrArgsText(Exception):
    args = 5

class KeyText(str):
    def startswith(self, *a):
        raise ValueError('startswith')
    def __str__(self):
        raise ValueError('key str')
    __hash__ = str.__hash__
    def __eq__(self, other):
        return self is other

class KeyObj:
    def __str__(self):
        raise ValueError('key')
    __repr__ = __str__

class MetaFails(type):
    def __str__(cls):
        raise ValueError('meta str')
    __repr__ = __str__
    def __eq__(cls, other):
        raise ValueError('meta eq')
    def __hash__(cls):
        raise ValueError('meta hash')
    def __instancecheck__(cls, other):
        raise ValueError('meta instance')
    def __subclasscheck__(cls, other):
        raise ValueError('meta subclass')
    def __getattribute__(cls, name):
        if name.startswith('__n') or name in ('__mro__', '__module__', '__qualname__', '__dict__'):
            raise ValueError('meta attr')
        return type.__getattribute__(cls, name)

class OfMeta(metaclass=MetaFails):
    pass

class NameText(type):
    __name__ = property(lambda cls: 5)

class OfNameText(metaclass=NameText):
    pass

class Evil(int):
    """Changes the structure it is part of when it is read."""
    owner = None
    def __str__(self):
        if Evil.owner is not None:
            Evil.owner.clear()
        return 'evil'

class Delayed:
    def __init__(self):
        self.__dict__['grow'] = 1
    def __str__(self):
        self.__dict__['x%d' % len(self.__dict__)] = 1
        return 'delayed'

class Descriptor:
    def __get__(self, obj, cls):
        raise RuntimeError('descriptor')

class WithDescriptor:
    value = Descriptor()
    def __init__(self):
        self.fine = 1

def gen():
    yield 1
    raise ValueError('gen')

def started():
    g = gen()
    next(g)
    return g

def finished():
    g = gen()
    list(itertools.islice(g, 1))
    g.close()
    return g

async def coro():
    pass

def cycle_dict():
    d = {}
    d['d'] = d
    return d

def cycle_list():
    a = []
    a.append(a)
    return a

def cycle_many():
    a, b = Slotless(), Slotless()
    a.b, b.a = b, a
    a.me = a
    return a

class Slotless:
    pass

def dead_proxy():
    return weakref.proxy(Slotless())

def nest(n):
    v = []
    for _ in range(n):
        v = [v]
    return v

def closed_file():
    f = io.StringIO('x')
    f.close()
    return f

def released():
    m = memoryview(b'abc')
    m.release()
    return m

def closing_coro():
    c = coro()
    c.close()
    return c

def half_built():
    class Half:
        def __init__(self):
            raise ValueError
    return Half.__new__(Half)

def no_init_exception():
    return UnicodeDecodeError.__new__(UnicodeDecodeError)

def dictless_names():
    s = Slotless()
    s.__dict__[KeyText('k')] = 1
    return s

def odd_names():
    s = Slotless()
    setattr(s, 'with \udcff half', 1)
    setattr(s, '', 2)
    setattr(s, '_Slotless__x', 3)
    return s

def traceback():
    try:
        raise ValueError('tb')
    except ValueError as e:
        return e.__traceback__

def chained():
    try:
        try:
            raise StrErr('a')
        finally:
            raise KeyError(StrFails())
    except KeyError as e:
        return e

class StrErr(Exception):
    def __str__(self):
        raise self
'''

VALUES = ['StrFails()', 'StrFatal()', 'StrExits()', 'StrInterrupts()', 'StrStops()', 'StrRecursive()', 'StrNotText()',
          'StrNone()', 'StrSurrogate()', 'StrSubclass()', 'AttrFails()', 'AttrFatal()', 'AttrLoops()', 'DictFails()',
          'DictFatal()', 'DictText()', 'DictNone()', 'DictNumbers()', 'ClassLies()', 'ClassFails()', 'ClassFatal()',
          'Slots()', 'SlotsStr()', 'LenFails([1])', 'LenHuge([1])', 'IterForever([1])', 'DictFailing(a=1)',
          'TupleFailing((1, 2))', 'SetFailing([1])', 'StrFailing("s")', 'IntFailing(3)', 'BytesFailing(b"x")',
          'EqFails()', 'HashFails()', 'BoolNever()', 'CallFails()', 'ErrArgs(1)', 'ErrArgsText(1)', 'OfMeta()', 'OfMeta',
          'OfNameText()', 'OfNameText', 'Delayed()', 'WithDescriptor()', 'gen()', 'started()', 'finished()',
          'closing_coro()', 'cycle_dict()', 'cycle_list()', 'cycle_many()', 'dead_proxy()', 'nest(2000)', 'nest(30)',
          'closed_file()', 'released()', 'half_built()', 'no_init_exception()', 'dictless_names()', 'odd_names()',
          'traceback()', 'chained()', 'StrErr("a")', '10 ** 5000', '"\\ud800"', '"ok \\udcff not ok"', 'b"\\xff\\xfe"',
          '"\\x00" * 3000', '{KeyObj(): 1}', '{KeyText("k"): 1}', '{"\\ud800": 1}', '{1: 2, None: 3, (1, 2): 4, b"k": 5, 1.5: 6}',
          '{StrFails: 1, Slots: 2}', '[StrFails(), 1, StrFatal()]', '(StrExits(), "fine")', '{"a": StrFails(), "b": 2}',
          'object()', 'Slots', 'iter([1, 2])', 'iter({1: 2})', 'iter({1})', 'iter("s")', 'iter((1,))', 'enumerate([1])',
          'zip([1], [2])', 'map(raiser(Fatal("map")), [1])', 'filter(raiser(Fatal("f")), [1])', 'reversed([1])',
          'iter(raiser(Fatal("i")), 1)', 'itertools.count()', 'itertools.cycle([1])', 'itertools.chain([1])',
          '{}.keys()', '{1: 2}.items()', '{1: 2}.values()', 'types.MappingProxyType({"a": 1})',
          'types.MappingProxyType(DictFailing())', 'collections.ChainMap({}, {1: 2})', 'collections.UserDict(a=1)',
          'threading.Lock()', 'threading.local()', 'queue.Queue()', 'ctypes.c_int(3)', '(ctypes.c_char * 3)()',
          'weakref.WeakValueDictionary()', 'weakref.ref(Slotless)', 'unittest.mock.MagicMock()', 'unittest.mock.Mock()',
          'functools.partial(raiser, 1)', 'operator.itemgetter(1)', 'array.array("i", [1, 2])', 'sys', 'sys.stdout',
          'string.Template("$x")', 'random.Random(1)', 'range(10 ** 12)', 'slice(StrFails(), 2)', 'Ellipsis',
          'NotImplemented', 'lambda: 0', 'raiser', 'StrFails().__str__', 'property(raiser)', 'super(Slots, Slots())',
          'staticmethod(raiser)', 'type("", (), {})()', 'type("dict", (), {})()',
          'type("list", (list,), {"__len__": raiser(Fatal("len"))})([1])', 'type("str", (), {})()', 'type("int", (), {})()',
          'type("set", (), {"__dict__": 5})()', 'type("NoneType", (), {})()', 'type("generator", (), {})()',
          'types.SimpleNamespace(a=StrFails())', 'ExceptionGroup("g", [ValueError(1)])', 'BaseException(StrFails())',
          'GeneratorExit()', 'SystemExit(StrFails())', 'KeyboardInterrupt()', 'Fatal(1)', 'OSError()', 'UnicodeError()',
          'decimal.Decimal("sNaN")', 'float("nan")', 'complex("nan+infj")', 'datetime.tzinfo()', 'typing.List[int]',
          're.match("a", "a")', 'sys.float_info', 'sys._getframe()', 'int', 'type', 'None', 'super', 'bytearray(b"\\xff" * 2000)',
          'frozenset([None, 1])', 'memoryview(b"x" * 3000)', 'Evil(5)', 'dataclasses.make_dataclass("DC", ["x"])(StrFails())',
          'enum.Enum("E", "A B").A', 'collections.deque([StrFails()], 5)', 'collections.OrderedDict(a=StrFatal())',
          'array.array("d", [1.5])', 'io.BytesIO(b"x")', 'asyncio.Queue', 'list[int]', 'int | str', 'print', 'len']
