"""Plugins whose behaviour is a table: what they provide, and at which of their callbacks they fail.

`Extra0` .. `Extra9` are subclasses of all the interfaces that TABLE says; they are looked up by name, as the agent does.
"""
import itertools
import threading

from harness import rig

TABLE = {}
"""class name -> {'kinds': [...], 'order': x, 'fail': {callback: exception factory}, ...}"""
INSTANCES = []
"""(class name, number, instance) in the order of construction."""
_numbers = itertools.count(1)
_lock = threading.Lock()


def reset(table):
    TABLE.clear()
    TABLE.update(table)
    with _lock:
        del INSTANCES[:]


def path(name):
    return 'harness.extra.%s' % name


def _fail(self, callback, **about):
    """Raise, when the table says that this callback fails (now)."""
    spec = TABLE.get(type(self).__name__, {})
    fail = spec.get('fail', {}).get(callback)
    if fail is not None:
        raised = fail()
        if raised is not None:
            rig.record('failed', plugin=self.name_, callback=callback, **about)
            raise raised


def build(name):
    from deep.api.plugin import Plugin, SnapshotDecorator, ResourceProvider, TracepointLogger
    from deep.api.plugin.metric import MetricProcessor
    from deep.api.plugin.span import SpanProcessor
    from deep.api.attributes import BoundedAttributes
    from deep.api.resource import Resource

    spec = TABLE.get(name, {})
    kinds = spec.get('kinds', ())
    bases = tuple(c for k, c in (('decorator', SnapshotDecorator), ('resource', ResourceProvider),
                                 ('logger', TracepointLogger), ('metric', MetricProcessor), ('span', SpanProcessor))
                  if k in kinds) or (Plugin,)

    def __init__(self, *args, **kwargs):
        self.name_ = name
        with _lock:
            self.number = next(_numbers)
        _fail(self, 'construct')
        init = spec.get('init')
        if init == 'named':
            super(cls, self).__init__(spec['plugin_name'], kwargs.get('config'))
        elif init == 'no_super':
            self.config = kwargs.get('config')
            self._name = name
        else:
            super(cls, self).__init__(*args, **kwargs)
        with _lock:
            INSTANCES.append((name, self.number, self))

    def get_name(self):
        _fail(self, 'name')
        return self._name

    def order(self):
        _fail(self, 'order')
        return spec.get('order', 0)

    def is_active(self):
        _fail(self, 'is_active')
        active = spec.get('active')
        return super(cls, self).is_active() if active is None else active

    def shutdown(self):
        rig.record('plugin_shutdown', plugin=name, number=self.number)
        _fail(self, 'shutdown')

    def resource(self):
        rig.record('resource', plugin=name)
        _fail(self, 'resource')
        if 'resource' in spec:
            return spec['resource']()
        return Resource({'extra.%s' % name: name, 'extra.shared': name})

    def decorate(self, snapshot_id, context):
        rig.record('decorate', plugin=name, snapshot=snapshot_id)
        _fail(self, 'decorate', snapshot=snapshot_id)
        if 'decorate' in spec:
            return spec['decorate'](snapshot_id, context)
        return BoundedAttributes(attributes={'extra.%s' % name: name, 'extra.shared': name})

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        rig.record('log', plugin=name, msg=log_msg, tp=tp_id, ctx=ctx_id)
        _fail(self, 'log')

    def create_span(self, span_name, context_id, tracepoint_id):
        _fail(self, 'create_span', name=span_name, tp=tracepoint_id)
        sid = next(rig._SPAN_IDS)
        rig.record('span_open', plugin=name, span=sid, name=span_name, ctx=context_id, tp=tracepoint_id)
        if spec.get('span_none'):
            return None
        if 'span' in spec:
            return spec['span']()
        return _span(self, sid, span_name)

    def current_span(self):
        _fail(self, 'current_span')
        return None

    def _metric(op):
        def fn(self, name_, labels, namespace, help_string, unit, value):
            rig.record('metric', plugin=name, proc=name, op=op, name=name_, labels=dict(labels or {}),
                       namespace=namespace, help=help_string, unit=unit, value=value)
            if spec.get('mutate') and labels is not None:
                labels.clear()
                labels['mutated by'] = name
            _fail(self, op, name=name_)
            _fail(self, 'metric', name=name_)
        return fn

    def clear(self):
        pass

    body = {'__init__': __init__, 'order': order, 'is_active': is_active, 'shutdown': shutdown, 'resource': resource,
            'decorate': decorate, 'log_tracepoint': log_tracepoint, 'create_span': create_span,
            'current_span': current_span, 'clear': clear, '__module__': __name__}
    for op in ('counter', 'gauge', 'histogram', 'summary'):
        body[op] = _metric(op)
    if 'name' in spec.get('fail', {}):
        body['name'] = property(get_name)
    for missing in spec.get('missing', ()):
        del body[missing]
    cls = type(name, bases, body)
    return cls


def _span(plugin, sid, span_name):
    class ExtraSpan:
        name = span_name
        trace_id = 't%s' % sid
        span_id = 's%s' % sid

        def add_attribute(self, key, value):
            _fail(plugin, 'add_attribute')

        def close(self):
            rig.record('span_close', plugin=plugin.name_, span=sid)
            _fail(plugin, 'close', span=sid)

    return ExtraSpan()


def __getattr__(name):
    if name in TABLE:
        spec = TABLE[name]
        if spec.get('not_a_class'):
            return spec['not_a_class'][0]
        if spec.get('getattr_fails'):
            raise spec['getattr_fails']()
        return build(name)
    raise AttributeError(name)
