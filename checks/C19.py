"""C19: configuration resolves with documented precedence and works from the environment."""
import itertools
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, rig  # noqa: E402

CHECK = core.Check(
    'C19', 'exploration',
    'A case is (a) a fresh interpreter with a generated environment, in which every documented key (and unknown keys) is read '
    'from many configs given in code (values, functions, nothing), compared with the precedence, (b) two fresh interpreters that '
    'start the whole agent with the same settings, once in code and once as DEEP_ variables: what the agent does (channel, '
    'metadata, polls over time, logging, the application frames and short paths that are sent) has to be the same, and what '
    'the settings say, (c) a snapshot of a stack with generated file names under a generated include, exclude and application '
    'root setting, whose frames have to be classified as by the reference. Non-trivial: something is set. Distinct by the settings.',
    ['whether a prefix has to end at a directory is not judged (no such paths are generated)',
     'None given in code is not judged', 'which of several matching prefixes is removed is not judged'],
    required=['tables', 'readings', 'from_code', 'from_env', 'defaults_read', 'unknown_from_env', 'absent', 'functions_called', 'pairs',
              'secure', 'insecure', 'polling_pairs', 'auth_pairs', 'logging_pairs', 'root_pairs', 'calculated_roots', 'frames_compared', 'app_frames',
              'excluded_frames', 'other_frames', 'default_poll_interval', 'invalid_poll_timers', 'code_over_env', 'text_lists',
              'files_classified'])

BOOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'settings_boot.py')
ROOT = os.path.dirname(os.path.dirname(BOOT))
DOCUMENTED = ['SERVICE_URL', 'SERVICE_SECURE', 'LOGGING_CONF', 'POLL_TIMER', 'SERVICE_AUTH_PROVIDER', 'IN_APP_INCLUDE', 'IN_APP_EXCLUDE',
              'APP_ROOT']
UNKNOWN = ['SERVICE_USERNAME', 'SERVICE_PASSWORD', 'PLUGIN_SOMEPLUGIN', 'SOME_VALUE', 'X', 'A_KEY_1', 'K\u00c9Y']
# what is read when nothing is set: (a check of the value)
DEFAULTS = {'SERVICE_URL': lambda v: v == 'deep:43315', 'SERVICE_SECURE': lambda v: str(v) == 'True',
            'LOGGING_CONF': lambda v: v is None, 'POLL_TIMER': lambda v: float(v) == 10, 'SERVICE_AUTH_PROVIDER': lambda v: v is None,
            'IN_APP_INCLUDE': lambda v: not v, 'IN_APP_EXCLUDE': lambda v: v in (None, '') or list(v) in ([], [sys.exec_prefix]),
            'APP_ROOT': lambda v: not v}
TEXTS = ['text', 'host:1234', '5', '0', 'False', 'True', 'a,b', ' padded ', '\u4e2d', '{x}', '%s', '/a/path', 'deep.config', 'None', '1.5']


def process(tmp, spec, env, timeout=150):
    """Run a fresh interpreter -> (the result or None, stderr)."""
    n = next(COUNTER)
    spec_file, result_file = os.path.join(tmp, 'spec%d' % n), os.path.join(tmp, 'result%d' % n)
    with open(spec_file, 'w') as f:
        json.dump(spec, f)
    base = {k: v for k, v in os.environ.items() if not k.startswith('DEEP_')}
    base.update(env)
    base['PYTHONUTF8'] = '1'
    try:
        p = subprocess.run([sys.executable, BOOT, spec_file, result_file], env=base, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=ROOT)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    err = p.stderr.decode(errors='replace')[-1500:]
    try:
        with open(result_file) as f:
            result = json.load(f)
        os.unlink(result_file)
    except OSError:
        result = None
    os.unlink(spec_file)
    return result, err


COUNTER = itertools.count()


@CHECK.unit
def tables(out, rng, params):
    tmp = rig.scratch()
    for _ in range(params['n']):
        env = {}
        for key in DOCUMENTED + UNKNOWN:
            if rng.random() < .5:
                env['DEEP_' + key] = rng.choice(TEXTS + ([''] if key in UNKNOWN else []))
        if rng.random() < .3:
            # what is not prefixed is not a setting
            env.update({key: 'not prefixed' for key in rng.sample(DOCUMENTED + UNKNOWN, 3)})
        customs = [None, {}]
        for _ in range(params['customs']):
            custom = {}
            for key in rng.sample(DOCUMENTED + UNKNOWN, rng.choice([1, 2, 5, 10])):
                value = rng.choice(TEXTS + ['', 0, 1, False, True, 5, 2.5, [], ['/a', '/b'], {'k': 'v'}])
                custom[key] = [rng.choice(['plain', 'plain', 'lambda', 'partial', 'method', 'object', 'counted', 'state']), value]
            customs.append(custom)
        keys = DOCUMENTED + UNKNOWN
        rows, err = process(tmp, {'mode': 'table', 'customs': customs, 'keys': keys}, env)
        if not out.check(rows is not None, 'the settings cannot be read', stderr=err, env=env):
            continue
        out.count('tables')
        for custom, row in zip(customs, rows):
            for key in keys:
                kind, text, same, calls, with_args, later = row[key][:5] + [row[key][5:]]
                where = {'key': key, 'code': (custom or {}).get(key), 'env': env.get('DEEP_' + key), 'got': [kind, text]}
                out.count('readings')
                out.check(same, 'a setting is another one when it is read again', **where)
                if (custom or {}).get(key, ['plain'])[0] != 'state':
                    out.check(later == [text] * 4, 'a setting is another one when it is read again', later=later, **where)
                if custom and key in custom:
                    how, value = custom[key]
                    out.check([kind, text] == [type(value).__name__, repr(value)], 'the value given in code is not used', **where)
                    out.count('from_code')
                    if how == 'state':
                        out.check([later[0], later[2], later[3]] == ["'later'", '7', repr(value)], 'the value of a function is an old one',
                                  later=later, **where)
                        out.count('changed_functions')
                    if how != 'plain':
                        out.count('functions_called')
                    if how == 'counted':
                        out.check(calls > 0 and not with_args, 'a value that is a function is not called', calls=calls, **where)
                    if 'DEEP_' + key in env:
                        out.count('code_over_env')
                elif 'DEEP_' + key in env:
                    value = env['DEEP_' + key]
                    if key in ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE'):
                        # a list or text, both contain the parts
                        out.check(all(p.strip() in text for p in value.split(',')), 'the variable is not used', **where)
                    else:
                        out.check([kind, text] == ['str', repr(value)] or key == 'POLL_TIMER' and text.strip("'") == value,
                                  'the variable is not used', **where)
                    out.count('from_env')
                    if key in UNKNOWN:
                        out.count('unknown_from_env')
                elif key in DEFAULTS:
                    value = eval(text) if kind in ('str', 'int', 'float', 'list', 'tuple', 'bool', 'NoneType') else text
                    out.check(DEFAULTS[key](value), 'the default is not the documented one', **where)
                    out.count('defaults_read')
                else:
                    out.check(kind == 'NoneType', 'a key that is nowhere has a value', **where)
                    out.count('absent')
        out.case((sorted(env), [sorted(c or {}) for c in customs][:5]), {'env': env, 'customs': [repr(c) for c in customs[:4]]}, bool(env))


# ---------------------------------------------------------------- the files of an application

def prefixes_of(value):
    """The prefixes a setting names."""
    if value is None:
        return []
    if isinstance(value, str):
        value = value.split(',')
    return [p.strip() for p in value if p.strip()]


def classify(filename, include, exclude, root):
    """-> (is an application file, the short paths that are right, why)."""
    out = [p for p in exclude + [sys.exec_prefix] if filename.startswith(p)]
    inside = [p for p in include + ([root] if root else []) if filename.startswith(p)]
    if out:
        return False, {filename[len(p):] for p in out}, 'excluded_frames'
    if inside:
        return True, {filename[len(p):] for p in inside}, 'app_frames'
    return False, {filename}, 'other_frames'


DIRS = ['/app/src', '/app/src/deep/er', '/app/vendor', '/srv/libs', '/srv/libs/ours', '/home/u/proj', sys.exec_prefix + '/lib/python3/site-packages',
        sys.exec_prefix, 'C:\\app\\src', 'relative/dir', './dot', '<frozen', '/\u00fcn\u00ef', '/with space/x', '/app', '/', '/tmp/a.b',
        '/srv/comma,dir', '../up', '/APP/src']
PREFIXES = ['/app/src', '/app', '/app/', '/app/vendor', '/app/src/deep', '/srv', '/srv/libs', '/srv/libs/', '/srv/libs/ours', '/home/u/proj',
            'C:\\app', 'relative', './dot', '<frozen', '/\u00fcn\u00ef', '/with space', '/', '/nowhere', sys.exec_prefix + '/lib', '/tmp',
            '../up', '/APP', '/app/src/module.py', 'src', 'app', 'module.py']


def list_setting(rng, prefixes, out, text_only=False):
    """A way to write a list of prefixes."""
    how = rng.choice(['text'] if text_only else ['list', 'tuple', 'text', 'lambda', 'lambda_text'])
    if how in ('text', 'lambda_text'):
        out.count('text_lists')
    text = ','.join(prefixes)
    return {'list': list(prefixes), 'tuple': tuple(prefixes), 'text': text, 'lambda': lambda: list(prefixes), 'lambda_text': lambda: text}[how]


@CHECK.unit
def files(out, rng, params):
    end = time.monotonic() + params['seconds']
    for n in itertools.count():
        if time.monotonic() > end or out.violations:
            return
        include = rng.sample(PREFIXES, rng.choice([0, 0, 1, 2, 4]))
        exclude = rng.sample(PREFIXES, rng.choice([0, 0, 1, 2, 4]))
        root = rng.choice(PREFIXES + ['', '', None])
        config = {'APP_ROOT': root if rng.random() < .8 else (lambda: root)}
        if root is None:
            config['APP_ROOT'] = ''
        if include or rng.random() < .5:
            config['IN_APP_INCLUDE'] = list_setting(rng, include, out)
        if exclude or rng.random() < .5:
            config['IN_APP_EXCLUDE'] = list_setting(rng, exclude, out)
        names = []
        for _ in range(rng.choice([3, 8, 20])):
            d = rng.choice(DIRS)
            names.append(d + rng.choice(['/', '/', '/sub/']) + rng.choice(['module.py', 'x', '__init__.py', '\u4e2d.py', 'app/src/module.py'])
                         if rng.random() < .95 else rng.choice(['<string>', '<stdin>', '', 'module.py', '<decorator-gen-5>']))
        names.append('/app/src/target.py' if rng.random() < .5 else rng.choice(DIRS) + '/target.py')
        chain = []
        for name in names:
            ns = {}
            exec(compile('def run(chain):\n    return chain[0](chain[1:]) if chain else None\n', name, 'exec'), ns)
            chain.append(ns['run'])
        agent = rig.Agent(config=config, plugins=())
        agent.install([rig.tp('t', 'target.py', 2, {'frame_type': 'no_frame'})])
        sys.settrace(agent.deep.trigger_handler.trace_call)
        chain[0](chain[1:])
        sys.settrace(None)
        agent.stop()
        where = {'include': include, 'exclude': exclude, 'root': root, 'forms': {k: repr(v) for k, v in config.items()}}
        sent = agent.sent()
        if not out.check(len(sent) == 1 and len(sent[0].frames) > len(names), 'no snapshot with the frames of the stack', **where):
            continue
        classes = set()
        frames = list(sent[0].frames)
        out.check([f.file_name for f in frames[:len(names)]] == names[::-1], 'the file names are not those of the stack',
                  got=[f.file_name for f in frames[:len(names)]], want=names[::-1])
        for f in frames:
            want, short, why = classify(f.file_name, include, exclude, root)
            out.check(f.app_frame == want, 'a frame is classified wrongly', file=f.file_name, got=f.app_frame, want=why, **where)
            out.check(f.short_path in short, 'the short path is not the file name without the matched prefix', file=f.file_name,
                      got=f.short_path, want=sorted(short), **where)
            out.count(why)
            out.count('files_classified')
            classes.add(why)
        out.case((sorted(include), sorted(exclude), root, sorted(classes)), {'settings': where, 'files': names[:5]}, len(classes) > 1)


# ---------------------------------------------------------------- the agent, with the settings in code or in the environment

LOG_CONF = '''[loggers]
keys=root,deep
[handlers]
keys=null
[formatters]
keys=
[logger_root]
level=ERROR
handlers=null
[logger_deep]
level=%s
handlers=null
qualname=deep
propagate=0
[handler_null]
class=%s
args=()
'''


def settings(rng, tmp, out):
    """-> {key: [value in code, text in the environment]} and what they mean."""
    chosen, means = {}, {}
    number = next(COUNTER)
    if rng.random() < .6:
        url = rng.choice(['host:1', 'deep.example.com:443', 'localhost:43315', 'unix:/x', '\u4e2d:1'])
        chosen['SERVICE_URL'] = [url, url]
        means['url'] = url
    if rng.random() < .75:
        code, env, secure = rng.choice([(False, 'False', False), (True, 'True', True), ('False', 'False', False), ('True', 'True', True),
                                        ('false', 'false', False), ('true', 'true', True), (False, 'false', False)])
        chosen['SERVICE_SECURE'] = [code, env]
        means['secure'] = secure
    if rng.random() < .7:
        code, env, interval = rng.choice([(.4, '0.4', .4), (1, '1', 1), (.25, '.25', .25), ('0.5', '0.5', .5), (1.0, '1.0', 1), ('1', '1', 1),
                                          (2, '2', 2), ('abc', 'abc', None), ('', '', None), (0, '0', None), (-1, '-1', None),
                                          ('nan', 'nan', None), (1, ' 1 ', 1)])
        chosen['POLL_TIMER'] = [code, env]
        means['interval'] = interval
    if rng.random() < .5:
        chosen['SERVICE_AUTH_PROVIDER'] = ['deep.api.auth.BasicAuthProvider'] * 2
        user, password = rng.choice(['user', '\u4e2d', 'a:b', '']), rng.choice(['secret', 'with space', '', '5'])
        chosen['SERVICE_USERNAME'] = [user, user]
        means['auth'] = None
        if rng.random() < .8:
            chosen['SERVICE_PASSWORD'] = [int(password) if password == '5' else password, password]
            means['auth'] = (user, password)
    elif rng.random() < .3:
        chosen['SERVICE_AUTH_PROVIDER'] = ['', '']
    if rng.random() < .5:
        level, handler = rng.choice(['WARNING', 'ERROR', 'INFO']), rng.choice(['logging.NullHandler', 'StreamHandler'])
        path = os.path.join(tmp, 'logging%d.conf' % number)
        with open(path, 'w') as f:
            f.write(LOG_CONF % (level, handler))
        chosen['LOGGING_CONF'] = [path, path]
        means['logging'] = [{'WARNING': 30, 'ERROR': 40, 'INFO': 20}[level], handler.split('.')[-1]]
    include = [p for p in rng.sample(PREFIXES, rng.choice([0, 1, 3]))]
    exclude = [p for p in rng.sample(PREFIXES, rng.choice([0, 1, 2]))]
    # surrounding spaces are not a part of a path in a list
    if include:
        chosen['IN_APP_INCLUDE'] = [rng.choice([include, ','.join(include)]), ','.join(include)]
        out.count('text_lists')
    if exclude:
        chosen['IN_APP_EXCLUDE'] = [rng.choice([exclude, ','.join(exclude)]), ','.join(exclude)]
        out.count('text_lists')
    means['include'], means['exclude'] = include, exclude
    if rng.random() < .6:
        root = rng.choice(PREFIXES)
        chosen['APP_ROOT'] = [root, root]
        means['root'] = root
    return chosen, means


def judge_run(out, result, means, where):
    if not out.check(result is not None and 'failed' not in result, 'the agent does not start with these settings', result=result, **where):
        return
    channels = result['channels']
    out.check(len(channels) == 1 and channels[0][1] == means.get('url', 'deep:43315'), 'the agent connects to another service',
              channels=channels, **where)
    secure = means.get('secure', True)
    out.check(all(c[0] == secure for c in channels), 'the connection is not as secure as configured', channels=channels, **where)
    out.count('secure' if secure else 'insecure')
    polls, interval = result['polls'], means.get('interval')
    if interval is not None:
        gaps = [b - a for a, b in zip(polls[1:], polls[2:])]
        out.check(len(polls) >= 4, 'the agent does not poll at the configured interval', polls=polls, until=result['until'], **where)
        out.check(not gaps or min(gaps) <= interval + 4, 'the agent polls less often than configured', gaps=gaps, **where)
        out.check(len(polls) < 4 or polls[-1] - polls[0] >= (len(polls) - 2) * interval - .2,
                  'the agent polls more often than configured', polls=polls, **where)
    else:
        out.check(len(polls) <= result['until'] / 10 + 2, 'the agent polls more often than by default', polls=polls, until=result['until'],
                  **where)
    want = []
    if 'auth' in means and means['auth'] is not None:
        import base64
        want = [['authorization', 'Basic%20' + base64.b64encode(':'.join(means['auth']).encode()).decode()]]
    out.check(all(m == want for m in result['metadata'] + result['sent_metadata']), 'the requests do not carry the configured auth',
              got=result['metadata'][:2], want=want, **where)
    if 'logging' in means:
        out.check([result['level']] + result['handlers'] == means['logging'], 'the logging config is not used', got=[
            result['level'], result['handlers']], want=means['logging'], **where)
    else:
        out.check(result['handlers'] == ['StreamHandler'], 'the logging is not the default one', got=result['handlers'], **where)
    if 'root' in means:
        out.check(result['root'] == means['root'], 'the application root is not the configured one', got=result['root'], **where)
    else:
        # the directory of the file that starts the agent, or the one above
        here = os.path.dirname(where['starter'])
        out.check(result['root'] in (here, os.path.dirname(here)), 'the application root is not that of the file that starts the agent',
                  got=result['root'], **where)
        out.count('calculated_roots')
    if not out.check(bool(result['frames']), 'no snapshot is sent with these settings', **where):
        return
    for file, short, app in result['frames']:
        want, shorts, why = classify(file, means['include'], means['exclude'], result['root'])
        out.check(app == want, 'a frame is classified wrongly', file=file, got=app, want=why, root=result['root'], **where)
        out.check(short in shorts, 'the short path is not the file name without the matched prefix', file=file, got=short,
                  want=sorted(shorts), **where)
        out.count('frames_compared')
        out.count(why)


@CHECK.unit
def pairs(out, rng, params):
    tmp = rig.scratch()
    end = time.monotonic() + params['seconds']
    for _ in range(params['n']):
        if time.monotonic() > end:
            return
        chosen, means = settings(rng, tmp, out)
        names = [rng.choice(DIRS) + '/module.py' for _ in range(8)] + ['/app/src/target.py']
        interval = means.get('interval')
        spec = {'mode': 'agent', 'files': names, 'starter': rng.choice(DIRS) + '/bin/starter.py',
                'seconds': 40 if interval is not None else 1.5, 'polls': 5 if interval is not None else 100}
        kinds = {k: rng.choice(['plain', 'plain', 'lambda', 'partial', 'method']) for k in chosen}
        in_code = {k: [kinds[k], v[0]] for k, v in chosen.items()}
        in_env = {'DEEP_' + k: v[1] for k, v in chosen.items()}
        where = {'settings': chosen, 'starter': spec['starter']}
        # given in code, with other values in the environment
        other = {}
        if rng.random() < .5:
            for k in chosen:
                if k not in ('LOGGING_CONF',):
                    other['DEEP_' + k] = rng.choice(['other:1', '7000', '/other', 'True', 'False'])
            out.count('code_over_env')
        a, err_a = process(tmp, dict(spec, code=in_code), other)
        judge_run(out, a, means, dict(where, given='code', stderr=err_a if a is None else ''))
        # given as variables
        b, err_b = process(tmp, dict(spec, code={}, none=rng.random() < .5), in_env)
        judge_run(out, b, means, dict(where, given='env', stderr=err_b if b is None else ''))
        if a is not None and b is not None and 'failed' not in a and 'failed' not in b:
            for key in ('channels', 'handlers', 'level', 'root', 'frames'):
                x, y = a[key], b[key]
                if key == 'frames':
                    # which of several matching prefixes is removed is not a part of this
                    x, y = [(f[0], f[2]) for f in x or ()][:len(names)], [(f[0], f[2]) for f in y or ()][:len(names)]
                out.check(x == y, 'the agent does something else when the settings are given as variables', what_differs=key, code=x, env=y,
                          **where)
            out.check(a['metadata'][:1] == b['metadata'][:1], 'the auth is another one when it is given as variables', code=a['metadata'][:1],
                      env=b['metadata'][:1], **where)
            out.count('pairs')
            out.count('polling_pairs', interval is not None)
            out.count('invalid_poll_timers', 'interval' in means and interval is None)
            out.count('auth_pairs', bool(means.get('auth')))
            out.count('logging_pairs', 'logging' in means)
            out.count('root_pairs', 'root' in means)
        out.case((sorted((k, str(v)) for k, v in chosen.items() if k != 'LOGGING_CONF'), sorted(other)), where, bool(chosen))


@CHECK.unit
def default_interval(out, rng, params):
    """Without a setting, and with 10 in code and in the environment: polls after 10 (and 20) seconds."""
    tmp = rig.scratch()
    spec = {'mode': 'agent', 'files': ['/app/target.py'], 'starter': '/app/bin/starter.py', 'seconds': 13 if params['polls'] == 2 else 60,
            'polls': params['polls']}
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        runs = [(name, pool.submit(process, tmp, dict(spec, code=code), env)) for name, code, env in (
            ('nothing', {}, {}), ('code', {'POLL_TIMER': ['plain', 10]}, {}), ('env', {}, {'DEEP_POLL_TIMER': '10'}))]
        for name, run in runs:
            result, err = run.result()
            if not out.check(result is not None and 'failed' not in result, 'the agent does not start', given=name, stderr=err):
                continue
            polls = result['polls']
            out.check(len(polls) >= params['polls'], 'the agent does not poll at the default interval', polls=polls, given=name,
                      until=result['until'])
            out.check(polls[-1] - polls[0] >= 10 * (len(polls) - 1) - 1.5, 'the agent polls more often than by default', polls=polls,
                      given=name)
            out.count('default_poll_interval')
            out.case(('interval', name), {'polls': polls}, True)


@CHECK.planner
def plan(tier, seed):
    if tier == 'quick':
        return core.spread('default_interval', 1, seed, polls=2) + core.spread('tables', 2, seed, n=6, customs=60) + \
            core.spread('files', 3, seed, seconds=14) + core.spread('pairs', 10, seed, n=4, seconds=40)
    return core.spread('default_interval', 1, seed, polls=4) + core.spread('tables', 8, seed, n=60, customs=200) + \
        core.spread('files', 16, seed, seconds=70) + core.spread('pairs', 32, seed, n=40, seconds=110)


if __name__ == '__main__':
    sys.exit(CHECK.main())
