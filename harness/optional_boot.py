"""Starts the agent in a fresh interpreter where optional packages are missing or broken: optional_boot.py SPEC RESULT."""
import importlib.abc
import json
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

ERRORS = {'ImportError': ImportError, 'ModuleNotFoundError': ModuleNotFoundError, 'RuntimeError': RuntimeError,
          'SystemExit': SystemExit, 'AttributeError': AttributeError, 'KeyboardInterrupt': KeyboardInterrupt,
          'SyntaxError': SyntaxError, 'OSError': OSError}


class Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names
        self.blocked = 0

    def find_spec(self, name, path=None, target=None):
        for blocked, error in self.names.items():
            if name == blocked or name.startswith(blocked + '.'):
                self.blocked += 1
                raise ERRORS[error]('%s is blocked' % name)
        return None


def importable(name):
    try:
        __import__(name)
        return True
    except BaseException:
        return False


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    blocker = Blocker(spec['blocked'])
    sys.meta_path.insert(0, blocker)
    for name in spec['none']:
        sys.modules[name] = None
    result = {}
    from harness import core, rig
    src = core.REPO_SRC
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(os.path.dirname(sys.argv[2]), 'no-pyc')
    sys.path.insert(0, src)
    sys.path.insert(0, os.path.dirname(spec['program']))
    try:
        import deep
        result['where'] = deep.__file__
        agent = rig.Agent(spec['config'], plugins=spec['plugins'], default_plugins=True)
        result['plugins'] = [type(p).__name__ for p in agent.service.plugins]
        code, ns = rig.load_module(spec['program'])
        exec(code, ns)
        agent.install([rig.tp('t', os.path.basename(spec['program']), spec['line'], {'log_msg': 'n is {n}', 'span': 'line', 'fire_count': '-1', 'fire_period': '0'}, ['n'],
                              [rig.metric('hits', 'COUNTER')])])
        sys.settrace(agent.deep.trigger_handler.trace_call)
        result['returned'] = ns['main']()
        sys.settrace(None)
        agent.stop()
        result['sent'] = len(agent.sent())
        result['attributes'] = [sorted(a.key for a in m.attributes) for m in agent.sent()]
        result['logs'] = [d['msg'] for d in rig.events('log')]
        result['metrics'] = [d['name'] for d in rig.events('metric')]
        result['spans'] = [len(rig.events('span_open')), len(rig.events('span_close'))]
        result['resource'] = sorted(dict(agent.service.resource.attributes).keys())
        result['threads'] = [t.name for t in threading.enumerate()]
    except BaseException as e:
        import traceback
        result['error'] = '%r\n%s' % (e, traceback.format_exc()[-1500:])
    result['importable'] = {n: importable(n) for n in ('opentelemetry.trace', 'opentelemetry.sdk.trace', 'opentelemetry.metrics',
                                                       'prometheus_client')}
    result['blocked'] = blocker.blocked
    with open(sys.argv[2], 'w') as f:
        json.dump(result, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
