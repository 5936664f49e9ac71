"""Runs a script as the main program of a process, with or without the agent: procboot.py MODE SCRIPT SPEC."""
import json
import os
import runpy
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    mode, script, spec = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    from harness import core
    core.bootstrap()
    from harness import rig
    from google.protobuf import json_format
    rig._plugins()
    if mode == 'agent':
        agent = rig.Agent(spec.get('config'))
        tps = [json_format.ParseDict(d, rig.TracePointConfig()) for d in spec['tps']]
        agent.install(tps)
        with open(spec['state'], 'w') as f:
            f.write('started')
        import builtins
        if spec.get('stop'):
            import atexit
            atexit.register(agent.stop)
        builtins.__dict__.setdefault('_keep_agent', agent)
    sys.argv[:] = [script]
    runpy.run_path(script, run_name='__main__')


if __name__ == '__main__':
    main()
