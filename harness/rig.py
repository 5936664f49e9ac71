"""The rig: the real agent, with recording channels and plugins."""
import json
import logging
import os
import sys
import threading
import time

import grpc
from deepproto.proto.common.v1.common_pb2 import AnyValue
from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, SnapshotResponse, TracePointConfig, Metric, \
    LabelExpression, MetricType

from harness.core import Inconclusive

HERE = os.path.dirname(os.path.abspath(__file__))
SILENT_CONF = os.path.join(HERE, 'silent_logging.conf')

AGENT_LOG = []


class FormatHandler(logging.Handler):
    """Formats every record of the agent (as a real handler would), and keeps errors for the reports."""

    def emit(self, record):
        try:
            text = self.format(record)
            if record.levelno >= logging.WARNING and len(AGENT_LOG) < 200:
                AGENT_LOG.append(text)
        except BaseException as e:  # the stdlib would print this to stderr
            if len(AGENT_LOG) < 200:
                AGENT_LOG.append('unformattable log record %r: %s' % (record.msg, type(e)))


class FakeRpcError(grpc.RpcError):
    pass


class Wire:
    """What left the process."""

    def __init__(self):
        self.lock = threading.Lock()
        self.polls = []
        self.sends = []
        self.events = []
        self.on_poll = None
        self.on_send = None

    def record(self, kind, item):
        with self.lock:
            (self.polls if kind == 'poll' else self.sends).append(item)
            self.events.append((kind, item))


class FakeChannel:
    """A channel that serialises the request, and parses it again."""

    def __init__(self, wire, secure=False, target=None):
        self.wire = wire
        self.secure = secure
        self.target = target
        self.closed = False

    def unary_unary(self, method, request_serializer=None, response_deserializer=None, **_):
        kind = 'poll' if method.lower().endswith('/poll') else 'send' if method.lower().endswith('/send') else method

        def call(request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
            if request is None:
                raise TypeError('request is None')
            raw = request_serializer(request)
            cls = PollRequest if kind == 'poll' else Snapshot
            parsed = cls.FromString(raw)
            item = {'method': method, 'raw': raw, 'msg': parsed, 'metadata': list(metadata or []),
                    'thread': threading.get_ident(), 'thread_name': threading.current_thread().name,
                    'n': None}
            self.wire.record(kind, item)
            hook = self.wire.on_poll if kind == 'poll' else self.wire.on_send
            resp = hook(parsed) if hook else None
            if resp is None:
                resp = PollResponse(response_type=ResponseType.NO_CHANGE) if kind == 'poll' else SnapshotResponse()
            return response_deserializer(resp.SerializeToString())

        return call

    def close(self):
        self.closed = True

    def subscribe(self, *_, **__):
        pass

    def unsubscribe(self, *_, **__):
        pass


def any_value(v):
    if isinstance(v, bool):
        return AnyValue(bool_value=v)
    if isinstance(v, int):
        return AnyValue(int_value=v)
    if isinstance(v, float):
        return AnyValue(double_value=v)
    return AnyValue(string_value=v)


def label(key, static=None, expression=None):
    kw = {'key': key}
    if static is not None:
        kw['static'] = any_value(static)
    if expression is not None:
        kw['expression'] = expression
    return LabelExpression(**kw)


def metric(name, mtype='COUNTER', labels=(), expression=None, namespace=None, help=None, unit=None):
    kw = {'name': name, 'type': MetricType.Value(mtype) if isinstance(mtype, str) else mtype,
          'labelExpressions': list(labels)}
    for k, v in (('expression', expression), ('namespace', namespace), ('help', help), ('unit', unit)):
        if v is not None:
            kw[k] = v
    return Metric(**kw)


def tp(tp_id, path, line, args=None, watches=(), metrics=()):
    return TracePointConfig(ID=tp_id, path=path, line_number=line, args=dict(args or {}), watches=list(watches),
                            metrics=list(metrics))


EVENTS = []
"""Everything the recording plugins observed: (kind, data)."""
EVENTS_LOCK = threading.Lock()
FAULTS = {}
"""plugin callback name -> callable that is called with the arguments, and may raise."""


def record(kind, **data):
    data['thread'] = threading.get_ident()
    data['tname'] = threading.current_thread().name
    data['hit'] = _HIT.get(data['thread'])
    with EVENTS_LOCK:
        data['seq'] = len(EVENTS)
        EVENTS.append((kind, data))
    fault = FAULTS.get(kind)
    if fault is not None:
        fault(data)


def events(kind):
    return [d for k, d in list(EVENTS) if k == kind]


def _plugins():
    from deep.api.plugin import TracepointLogger, SnapshotDecorator, ResourceProvider, Plugin  # noqa: F401
    from deep.api.plugin.metric import MetricProcessor
    from deep.api.plugin.span import SpanProcessor
    from deep.api.attributes import BoundedAttributes
    from deep.api.resource import Resource

    class RecLogger(TracepointLogger):
        def order(self):
            return -100

        def log_tracepoint(self, log_msg, tp_id, ctx_id):
            record('log', msg=log_msg, tp=tp_id, ctx=ctx_id)

    class RecSpan:
        """A span handed to the agent."""

        def __init__(self, sid, name):
            self.sid = sid
            self._name = name

        @property
        def name(self):
            return self._name

        @property
        def trace_id(self):
            return 't%s' % self.sid

        @property
        def span_id(self):
            return 's%s' % self.sid

        def add_attribute(self, key, value):
            pass

        def close(self):
            record('span_close', span=self.sid)

    class RecSpans(SpanProcessor):
        def create_span(self, name, context_id, tracepoint_id):
            sid = next(_SPAN_IDS)
            record('span_open', span=sid, name=name, ctx=context_id, tp=tracepoint_id)
            return RecSpan(sid, name)

        def current_span(self):
            return None

    class RecSpansB(RecSpans):
        pass

    class RecMetrics(MetricProcessor):
        TAG = 'A'

        def _rec(self, op, name, labels, namespace, help_string, unit, value):
            record('metric', op=op, name=name, labels=dict(labels) if labels is not None else labels,
                   namespace=namespace, help=help_string, unit=unit, value=value, proc=self.TAG)

        def counter(self, name, labels, namespace, help_string, unit, value):
            self._rec('counter', name, labels, namespace, help_string, unit, value)

        def gauge(self, name, labels, namespace, help_string, unit, value):
            self._rec('gauge', name, labels, namespace, help_string, unit, value)

        def histogram(self, name, labels, namespace, help_string, unit, value):
            self._rec('histogram', name, labels, namespace, help_string, unit, value)

        def summary(self, name, labels, namespace, help_string, unit, value):
            self._rec('summary', name, labels, namespace, help_string, unit, value)

        def clear(self):
            pass

    class RecMetricsB(RecMetrics):
        TAG = 'B'

    class RecDecorator(SnapshotDecorator):
        def decorate(self, snapshot_id, context):
            record('decorate', snapshot=snapshot_id)
            return BoundedAttributes(attributes={'rec.deco': snapshot_id})

    class RecResource(ResourceProvider):
        def resource(self):
            record('resource')
            return Resource({'rec.resource': 'yes'})

    return {c.__name__: c for c in (RecLogger, RecSpans, RecSpansB, RecMetrics, RecMetricsB, RecDecorator, RecResource)}


import itertools  # noqa: E402

_SPAN_IDS = itertools.count(1)
_HIT = {}
"""thread -> (invocation, event number) that the tee is currently handing to the agent."""


def __getattr__(name):
    classes = _plugins()
    if name in classes:
        globals().update(classes)
        return globals()[name]
    raise AttributeError(name)


OFF_PLUGINS = {'PLUGIN_OTELPLUGIN': 'False', 'PLUGIN_PROMETHEUSPLUGIN': 'False', 'PLUGIN_OTELMETRICS': 'False'}


class Agent:
    """The real agent with a fake channel."""

    def __init__(self, config=None, plugins=('RecLogger', 'RecSpans', 'RecMetrics'), default_plugins=False,
                 start=True, trace=True):
        import deep
        from deep.config import ConfigService
        self.wire = Wire()
        self.installed = []
        self._hash = 0
        self._pending = None
        self.poll_error = None
        self.pushed = []
        self.channels = []
        cfg = {'SERVICE_URL': 'fake:1', 'SERVICE_SECURE': 'False', 'LOGGING_CONF': SILENT_CONF, 'POLL_TIMER': 36000,
               'APP_ROOT': '/nonexistent-app-root',
               'PLUGINS': [p if '.' in p else 'harness.rig.%s' % p for p in plugins]}
        if not default_plugins:
            cfg.update(OFF_PLUGINS)
        cfg.update(config or {})
        self.cfg = cfg
        self.wire.on_poll = self._poll
        self._orig = (grpc.insecure_channel, grpc.secure_channel)
        grpc.insecure_channel = lambda target, *a, **k: self._channel(False, target)
        grpc.secure_channel = lambda target, *a, **k: self._channel(True, target)
        self._changes = threading.Condition()
        self._seen = []
        from deep import logging as deep_logging
        self.service = ConfigService(cfg)
        deep_logging.init(self.service)
        self.deep = deep.api.Deep(self.service)
        self._watch_push()
        self._watch_config()
        if start:
            self.deep.start()

    def _channel(self, secure, target):
        channel = FakeChannel(self.wire, secure, target)
        self.channels.append(channel)
        return channel

    def _watch_push(self):
        push = self.deep.push
        orig = push.push_snapshot
        agent = self

        def push_snapshot(snapshot):
            with EVENTS_LOCK:
                EVENTS.append(('push', {'snapshot': snapshot, 'tp': snapshot.tracepoint.id, 'seq': len(EVENTS),
                                        'thread': threading.get_ident(), 'hit': _HIT.get(threading.get_ident()),
                                        'tname': threading.current_thread().name}))
                agent.pushed.append(EVENTS[-1][1])
            fault = FAULTS.get('push')
            if fault is not None:
                fault(snapshot)
            return orig(snapshot)

        push.push_snapshot = push_snapshot

    def _watch_config(self):
        from deep.config.tracepoint_config import ConfigUpdateListener
        agent = self

        class Listener(ConfigUpdateListener):
            def config_change(self, ts, old_hash, current_hash, old_config, new_config):
                with agent._changes:
                    agent._seen.append((current_hash, list(new_config)))
                    agent._changes.notify_all()

        self.service.add_listener(Listener())

    def _poll(self, request):
        if self.poll_error is not None:
            raise self.poll_error
        if self._pending is None:
            return PollResponse(response_type=ResponseType.NO_CHANGE, ts_nanos=1)
        pending, self._pending = self._pending, None
        return pending

    def install(self, tps, wait=True):
        """Install the tracepoints the way the service does: in the response of a poll."""
        self._hash += 1
        h = 'hash-%d' % self._hash
        self._pending = PollResponse(response_type=ResponseType.UPDATE, ts_nanos=self._hash, current_hash=h,
                                     response=list(tps))
        self.deep.poll.poll()
        if wait:
            self.wait_installed(lambda seen: any(x == h for x, _ in seen))
        return h

    def wait_installed(self, cond, timeout=60):
        with self._changes:
            if not self._changes.wait_for(lambda: cond(self._seen), timeout):
                raise Inconclusive('the tracepoint config was not installed\n' + '\n'.join(AGENT_LOG[-5:]))

    def register(self, path, line, args=None, watches=None, metrics=None):
        before = len(self._seen)
        handle = self.deep.register_tracepoint(path, line, args, watches, metrics)
        self.wait_installed(lambda seen: len(seen) > before)
        return handle

    def unregister(self, handle):
        before = len(self._seen)
        handle.unregister()
        self.wait_installed(lambda seen: len(seen) > before)

    def stop(self):
        """Shutdown the agent, this drains the delivery."""
        try:
            self.deep.shutdown()
        finally:
            grpc.insecure_channel, grpc.secure_channel = self._orig

    def snapshots(self):
        return [p['snapshot'] for p in self.pushed]

    def sent(self):
        return [s['msg'] for s in self.wire.sends]


def install_limited(agent, base, line, args, watches, limits_):
    """Install a tracepoint whose actions have other limits."""
    from deep.api.tracepoint.trigger import build_trigger
    trigger = build_trigger('t', base, line, dict(args), list(watches), [])
    for action in trigger.actions:
        action.config.update(limits_)
    agent.service.tracepoints.update_new_config(1, 'limits', [trigger])
    agent.wait_installed(lambda seen: any(h == 'limits' for h, _ in seen))


class VirtualClock:
    """Replaces time.time_ns/time.time, so that no verdict depends on the speed of the machine."""

    def __init__(self, start=1_700_000_000_000_000_000, step=1000):
        self.now = start
        self.step = step
        self.lock = threading.RLock()  # the agent traces this code as well
        self._orig = (time.time_ns, time.time)

    def install(self):
        time.time_ns = self.time_ns
        time.time = lambda: self.time_ns() / 1e9
        return self

    def remove(self):
        time.time_ns, time.time = self._orig

    def time_ns(self):
        with self.lock:
            self.now += self.step
            return self.now

    def advance(self, ns):
        with self.lock:
            self.now += ns


class Tee:
    """
    A trace function around the one of the agent: records the ground truth, then lets the agent see the event.

    The handling of local trace functions is that of CPython.
    """

    def __init__(self, agent_fn, observe, files=None):
        self.agent_fn = agent_fn
        self.observe = observe
        self.files = files
        self.raised = []
        self.calls = 0
        self.inv = itertools.count(1)
        self.numbers = itertools.count(1)

    def install(self):
        threading.settrace(self.global_trace)
        sys.settrace(self.global_trace)

    def remove(self):
        sys.settrace(self.agent_fn)
        threading.settrace(self.agent_fn)

    def _agent(self, fn, frame, event, arg):
        self.calls += 1
        try:
            return fn(frame, event, arg)
        except BaseException as e:
            self.raised.append((event, frame.f_code.co_name, repr(e)))
            return None

    def global_trace(self, frame, event, arg):
        wanted = self.files is None or frame.f_code.co_filename in self.files
        if not wanted:
            return self._agent(self.agent_fn, frame, event, arg)
        inv = next(self.inv)
        local = [self._deliver(self.agent_fn, inv, frame, event, arg)]

        def local_trace(frame, event, arg):
            if local[0] is not None:
                result = self._deliver(local[0], inv, frame, event, arg)
                if result is not None:
                    local[0] = result
            else:
                self._deliver(None, inv, frame, event, arg)
            return local_trace

        return local_trace

    def _deliver(self, fn, inv, frame, event, arg):
        thread = threading.get_ident()
        n = next(self.numbers)
        _HIT[thread] = (inv, n)
        self.observe(inv, n, frame, event, arg)
        result = self._agent(fn, frame, event, arg) if fn is not None else None
        _HIT.pop(thread, None)
        return result


class Event:
    """One trace event of the program."""

    __slots__ = ('inv', 'n', 'thread', 'tname', 'event', 'file', 'base', 'line', 'func', 'first', 'extra')

    def __init__(self, inv, n, frame, event):
        code = frame.f_code
        self.inv = inv
        self.n = n
        self.thread = threading.get_ident()
        self.tname = threading.current_thread().name
        self.event = event
        self.file = code.co_filename
        self.base = os.path.basename(code.co_filename)
        self.line = frame.f_lineno
        self.func = code.co_name
        self.first = code.co_firstlineno
        self.extra = None

    def __repr__(self):
        return '%s#%d/%d %s %s:%s %s' % (self.tname, self.inv, self.n, self.event, self.base, self.line, self.func)


class Recorder:
    """Records the trace events of the program, as ground truth."""

    def __init__(self, extra=None):
        self.events = []
        self.extra = extra

    def __call__(self, inv, n, frame, event, arg):
        item = Event(inv, n, frame, event)
        if self.extra is not None:
            item.extra = self.extra(item, frame, arg)
        self.events.append(item)


class PlainTracer:
    """Records the ground truth without an agent."""

    def __init__(self, observe, files=None):
        self.tee = Tee(lambda *a: None, observe, files)

    def __enter__(self):
        self.tee.install()
        return self

    def __exit__(self, *_):
        sys.settrace(None)
        threading.settrace(None)


def write_module(tmp, name, source):
    path = os.path.join(tmp, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8', errors='surrogateescape') as f:
        f.write(source)
    return path


def load_module(path, extra=None):
    """Execute a file as a module (compiled with its real path)."""
    with open(path, encoding='utf-8', errors='surrogateescape') as f:
        code = compile(f.read(), path, 'exec')
    ns = {'__name__': os.path.splitext(os.path.basename(path))[0], '__file__': path}
    ns.update(extra or {})
    return code, ns


def scratch():
    """A folder for the files of this unit, it is removed by the runner."""
    import tempfile
    return tempfile.mkdtemp(prefix='unit-', dir=os.environ['VERIF_UNIT_TMP'])


def dumps(v):
    return json.dumps(v, default=repr, sort_keys=True)
