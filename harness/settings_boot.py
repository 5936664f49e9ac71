"""Reads settings (and starts the agent) in a fresh interpreter: settings_boot.py SPEC RESULT."""
import functools
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Holder:
    def __init__(self, value):
        self.value = value

    def method(self):
        return self.value

    def __call__(self):
        return self.value


def give(value):
    return value


def build(kind, value):
    """A value, as it is given in code."""
    return {'plain': lambda: value, 'tuple': lambda: tuple(value), 'lambda': lambda: lambda: value,
            'partial': lambda: functools.partial(give, value), 'method': lambda: Holder(value).method,
            'object': lambda: Holder(value), 'counted': lambda: counted(value),
            'state': lambda: lambda: STATE.get('now', value)}[kind]()


CALLS = []
STATE = {}


def counted(value):
    def fn(*args, **kwargs):
        CALLS.append((args, kwargs))
        return value
    return fn


def table(spec):
    from deep.config import ConfigService
    rows = []
    for custom in spec['customs']:
        service = ConfigService({k: build(*v) for k, v in custom.items()} if custom is not None else None)
        row = {}
        for key in spec['keys']:
            del CALLS[:]
            value = getattr(service, key)
            again = getattr(service, key)
            row[key] = [type(value).__name__, repr(value), repr(value) == repr(again), len(CALLS),
                        any(a or k for a, k in CALLS)]
            # the value of a function is the one it has now
            for now in ('later', None, 7):
                STATE['now'] = now
                row[key].append(repr(getattr(service, key)))
            STATE.clear()
            row[key].append(repr(getattr(service, key)))
        rows.append(row)
    return rows


def agent(spec):
    import grpc
    from harness import rig
    wire = rig.Wire()
    channels = []

    def channel(secure, target):
        channels.append([secure, target])
        return rig.FakeChannel(wire, secure, target)

    grpc.insecure_channel = lambda target, *a, **k: channel(False, target)
    grpc.secure_channel = lambda target, *a, **k: channel(True, target)
    polls = []
    pending = [rig.PollResponse(response_type=rig.ResponseType.UPDATE, ts_nanos=1, current_hash='h', response=[
        rig.tp('t', 'target.py', 2, {'frame_type': 'no_frame'})])]

    def on_poll(request):
        polls.append(time.monotonic())
        return pending.pop() if pending else rig.PollResponse(response_type=rig.ResponseType.NO_CHANGE, ts_nanos=1)

    wire.on_poll = on_poll
    config = {k: build(*v) for k, v in spec['code'].items()}
    # every file of the program calls the next one
    files = spec['files']
    code = 'def run(chain):\n    return chain[0](chain[1:]) if chain else None\n'
    chain = []
    for name in files:
        ns = {}
        exec(compile(code, name, 'exec'), ns)
        chain.append(ns['run'])
    ns = {}
    exec(compile('def start(deep, config):\n    return deep.start(config)\n', spec['starter'], 'exec'), ns)
    import deep
    started = time.monotonic()
    try:
        service = ns['start'](deep, None if spec.get('none') else config)
    except BaseException as e:
        return {'failed': '%s: %s' % (type(e).__name__, e)}
    import logging
    logger = logging.getLogger('deep')
    result = {'channels': channels, 'handlers': [type(h).__name__ for h in logger.handlers], 'level': logger.level,
              'root': service.config.APP_ROOT}
    # the tracepoints are installed by another thread
    end = time.monotonic() + 20
    while not wire.sends and time.monotonic() < end:
        sys.settrace(service.trigger_handler.trace_call)
        chain[0](chain[1:])
        sys.settrace(None)
        time.sleep(.05)
    end = time.monotonic() + spec['seconds']
    while time.monotonic() < end and len(polls) < spec['polls']:
        time.sleep(.02)
    now = time.monotonic()
    result['polls'] = [p - started for p in list(polls)]
    result['until'] = now - started
    sys.settrace(None)
    service.shutdown()
    result['metadata'] = [[list(m) for m in p['metadata']] for p in wire.polls]
    result['frames'] = [[f.file_name, f.short_path, f.app_frame] for f in wire.sends[0]['msg'].frames] if wire.sends else None
    result['sent_metadata'] = [[list(m) for m in p['metadata']] for p in wire.sends]
    return result


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    from harness import core
    core.bootstrap()
    result = {'table': table, 'agent': agent}[spec['mode']](spec)
    with open(sys.argv[2], 'w') as f:
        json.dump(result, f)


if __name__ == '__main__':
    main()
