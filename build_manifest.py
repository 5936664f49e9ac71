"""Writes MANIFEST.json from the list of checks."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
TECH = {
    'C01': 'differential runtime monitoring with/without the agent, fault injection at internal steps',
    'C02': 'runtime monitoring: independent frame reader at the same trace event vs delivered snapshot',
    'C03': 'runtime monitoring: reference trace-event stream vs observed actions (online, per event)',
    'C04': 'runtime monitoring: reference rate limiter over hit histories on a virtual clock, gated thread races',
    'C05': 'runtime monitoring: bound and breadth-first oracle over generated object graphs',
    'C06': 'runtime monitoring under hostile objects: delivery and completeness oracle',
    'C07': 'runtime monitoring: closure and identity bijection of the variable table vs real object identities',
    'C08': 'runtime monitoring of sent bytes (fake channel and loopback gRPC server) vs snapshot fields',
    'C09': 'runtime monitoring of delivery histories: exactly-once, thread and drain oracles under faults and races',
    'C10': 'runtime monitoring: independently evaluated expressions vs observed firings and results',
    'C11': 'runtime monitoring: observed effects vs reference interpretation of argument tables',
    'C12': 'runtime monitoring of poll/registration histories with forced worker interleavings vs reference model',
    'C13': 'runtime monitoring of register/unregister histories vs multiset model',
    'C14': 'runtime monitoring of start/shutdown histories with fault injection: hook identity, liveness, quiescence',
    'C15': 'trace-specification monitoring of deferred work (open/close exactly once, thread, lifetime)',
    'C16': 'runtime monitoring: independent template renderer vs messages received',
    'C17': 'runtime monitoring of metric processor calls vs independently computed expectation',
    'C18': 'runtime monitoring of operation histories vs reference model; resource seen on the wire',
    'C19': 'runtime monitoring in fresh interpreters: key x source table, path x prefix table vs reference',
    'C20': 'runtime monitoring with fault injecting plugins in every callback',
}
NOTE = {
}
DEFAULT_NOTE = 'Holds on the executions observed; see the evidence file for what was observed and assumed.'
LEVEL = {'C01': 'fault_enumeration', 'C14': 'fault_enumeration', 'C20': 'fault_enumeration'}


def main():
    checks, missing = [], []
    for i in range(1, 21):
        prop = 'C%02d' % i
        if not os.path.exists(os.path.join(ROOT, 'checks', prop + '.py')):
            missing.append({'property': prop, 'reason': 'check not built yet'})
            continue
        cmd = '%s checks/%s.py' % (PY, prop)
        checks.append({'property': prop, 'quick_cmd': cmd + ' --tier quick', 'thorough_cmd': cmd + ' --tier thorough',
                       'technique': TECH[prop], 'level': LEVEL.get(prop, 'exploration'),
                       'level_note': NOTE.get(prop, DEFAULT_NOTE)})
    manifest = {
        'version': 1,
        'setup_cmd': '%s -c "import sys; sys.path.insert(0, \'.\'); from harness import core; core.bootstrap()"' % PY,
        'checks': checks,
        'not_applicable': missing,
        'notes': 'No hooks in /repo: the monitors observe the agent from outside (trace function tee, plugins, channel). '
                 'Regenerate with build_manifest.py.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
