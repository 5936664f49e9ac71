"""Faults that are injected into the agent."""
import functools
import random
import sys
import threading
import types


class FatalFault(BaseException):
    pass


class NastyFault(Exception):
    """An exception that cannot be described."""

    def __str__(self):
        raise ValueError('no text')

    __repr__ = __str__


class FatalNasty(BaseException):
    def __str__(self):
        raise SystemExit(9)

    __repr__ = __str__


ERRORS = {'value': ValueError, 'key': KeyError, 'attr': AttributeError, 'type': TypeError, 'exit': SystemExit,
          'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'recursion': RecursionError, 'stop': StopIteration,
          'genexit': GeneratorExit, 'fatal': FatalFault, 'nasty': NastyFault, 'fatalnasty': FatalNasty, 'os': OSError,
          'import': ImportError, 'astop': StopAsyncIteration, 'assertion': AssertionError}


def make(name):
    return ERRORS[name]('injected')


def thrower(fault):
    """A function that fails at the given rate."""
    rng = random.Random(fault['seed'])

    def fail(*_, **__):
        if rng.random() < fault.get('rate', 1):
            raise make(fault['error'])

    return fail


MODULES = ['deep.processor.context', 'deep.processor.frame_collector', 'deep.processor.variable_processor',
           'deep.processor.variable_set_processor', 'deep.processor.frame_config', 'deep.processor.bfs',
           'deep.api.tracepoint', 'deep.push', 'deep.grpc', 'deep.config.config_service', 'deep.config.tracepoint_config',
           'deep.api.attributes', 'deep.api.plugin.metric', 'deep.api.plugin.span', 'deep.thread_local']
"""Everything that can be used to handle an event. The modules that guard the application are left out."""


class Injected:
    def __init__(self, spec, seed):
        self.spec = spec
        self.rng = random.Random(seed)
        self.on = False
        self.raised = 0
        self.calls = 0
        self.names = set()
        self.lock = threading.RLock()
        self.all = []
        self.target = None
        self.skip = 0

    def wrap(self, fn, name):
        injected = self
        self.all.append(name)

        @functools.wraps(fn)
        def wrapper(*args, **kwargs):
            if injected.on and threading.current_thread().name.startswith(('host-', 'MainThread')):
                with injected.lock:
                    injected.calls += 1
                    if injected.target is None:
                        fail = injected.rng.random() < injected.spec['rate']
                    else:
                        fail = False
                        if injected.target == name:
                            injected.skip -= 1
                            fail = injected.skip < 0 and injected.raised < injected.spec['single']
                    if fail:
                        injected.raised += 1
                        injected.names.add(name)
                        kind = injected.rng.choice(injected.spec['errors'])
                if fail:
                    # no local refers to the exception, that would be a cycle which keeps the frames alive
                    raise make(kind)
            return fn(*args, **kwargs)

        return wrapper


def inject(spec, seed):
    """Wrap every function of the agent that handles an event."""
    injected = Injected(spec, seed)
    for name, module in sorted(sys.modules.items()):
        if module is None or not any(name == m or name.startswith(m + '.') for m in MODULES):
            continue
        for key, value in list(vars(module).items()):
            if isinstance(value, types.FunctionType) and value.__module__ == name:
                wrapped = injected.wrap(value, '%s.%s' % (name, key))
                setattr(module, key, wrapped)
                for other in list(sys.modules.values()):
                    if getattr(other, '__name__', '').startswith('deep') and vars(other).get(key) is value:
                        setattr(other, key, wrapped)
            elif isinstance(value, type) and value.__module__ == name:
                _inject_class(injected, value)
    if spec.get('single'):
        # fail a few calls of one function, so the effect on everything else can be seen
        injected.target = injected.rng.choice(injected.all)
        injected.skip = injected.rng.choice([0, 0, 1, 2, 5, 20])
    return injected


def _inject_class(injected, cls):
    if issubclass(cls, (dict, tuple, BaseException)) or type(cls).__name__ in ('EnumMeta', 'EnumType'):
        return
    for key, value in list(vars(cls).items()):
        name = '%s.%s' % (cls.__name__, key)
        if key in ('__str__', '__repr__', '__new__', '__del__', '__init_subclass__', '__class_getitem__', '__exit__'):
            continue
        try:
            if isinstance(value, types.FunctionType):
                setattr(cls, key, injected.wrap(value, name))
            elif isinstance(value, property) and value.fget is not None:
                setattr(cls, key, property(injected.wrap(value.fget, name), value.fset, value.fdel, value.__doc__))
            elif isinstance(value, staticmethod):
                setattr(cls, key, staticmethod(injected.wrap(value.__func__, name)))
        except (AttributeError, TypeError):
            pass
