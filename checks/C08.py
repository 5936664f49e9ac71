"""C08: the service receives every field of every snapshot, and every request carries the auth metadata."""
import base64
import enum
import os
import re
import struct
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, graph, hostile, model, rig, values  # noqa: E402

CHECK = core.Check(
    'C08', 'exploration',
    'A case is one message that left the process (bytes serialised by the stub and parsed again; some of it through a '
    'real gRPC server on the loopback), compared field by field with the snapshot it belongs to: for the synthetic cases '
    'with the plain data the snapshot was built from, for the collected cases with the view of the snapshot at the '
    'moment it was pushed. Every poll and send is compared with what the auth provider supplied. Non-trivial: the '
    'snapshot has at least one frame, variable, watch or attribute. Distinct by the content of the message.',
    ['a lone surrogate cannot be sent: any replacement is accepted for it, the rest of the text has to be intact',
     'values without a representation on the wire (int beyond 64 bit) are accepted as their text'],
    required=['synthetic', 'collected', 'loopback', 'surrogate_texts', 'error_watches', 'log_messages', 'polls_with_auth',
              'sends_with_auth', 'attribute_values', 'huge_tables', 'provider_races'])

SURROGATE = re.compile('[\ud800-\udfff]+')
ALPHABET = ['a', 'Z', '0', ' ', '\n', '\x00', '\x7f', 'é', 'ß', '中', '\U0001f600', '\ufeff', '\u202e', '\ufffd', '\uffff',
            '\ud800', '\udfff', '\udce9', '{', '}', '%', '"', "'", '\\', '?', '\u0301', '\r\n', '\t']


def text(rng, out=None, empty=True):
    kind = rng.random()
    if kind < .15 and empty:
        return ''
    if kind < .55:
        return rng.choice(['name', 'x', 'self', 'a.b.c', '/some/file.py', 'value', 'Size: 3', 'some text here', '0', 'None'])
    n = rng.choice([1, 2, 5, 20, 200, 1024, 5000]) if kind > .9 else rng.randrange(1, 12)
    s = ''.join(rng.choice(ALPHABET) for _ in range(n)) or 'q'
    if out is not None and SURROGATE.search(s):
        out.count('surrogate_texts')
    return s


def opt_text(rng, out=None):
    return None if rng.random() < .35 else text(rng, out)


def same_text(want, got):
    if want is None:
        return got is None
    if got is None:
        # only fields with presence are None if they are not set
        return False
    if want == got:
        return True
    if not SURROGATE.search(want):
        return False
    pattern = '.{0,40}'.join(re.escape(p) for p in SURROGATE.split(want))
    return re.fullmatch(pattern, got, re.S) is not None


def same(want, got, path, problems):
    """Compare the plain data with what was received."""
    if len(problems) > 4:
        return
    if isinstance(want, dict):
        if not isinstance(got, dict) or len(want) != len(got):
            problems.append('%s: %s and not %s' % (path, core.short(got, 200), core.short(want, 200)))
            return
        for k, v in want.items():
            key = k
            if key not in got:
                match = [g for g in got if isinstance(g, str) and isinstance(k, str) and same_text(k, g)]
                if not match:
                    problems.append('%s: %r is missing' % (path, k))
                    continue
                key = match[0]
            same(v, got[key], '%s.%s' % (path, k), problems)
    elif isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(want) != len(got):
            problems.append('%s: %s and not %s' % (path, core.short(got, 200), core.short(want, 200)))
            return
        for i, (a, b) in enumerate(zip(want, got)):
            same(a, b, '%s[%d]' % (path, i), problems)
    elif isinstance(want, str):
        if not (got is None or isinstance(got, str)) or not same_text(str.__str__(want), got):
            problems.append('%s: %s and not %s' % (path, core.short(got, 300), core.short(want, 300)))
    elif isinstance(want, float):
        if not isinstance(got, float) or struct.pack('d', want) != struct.pack('d', got) and not (want != want and got != got):
            problems.append('%s: %r and not %r' % (path, got, want))
    elif isinstance(want, bool):
        if not (got is want or got is None and want is False):
            problems.append('%s: %r and not %r' % (path, got, want))
    elif isinstance(want, int):
        if isinstance(got, bool) or not (got == want or got is None and want == 0 or
                                         abs(want) >= 2 ** 63 and got == str(want)):
            problems.append('%s: %r and not %r' % (path, got, want))
    elif want is None:
        if got not in (None, '', 0, False):
            problems.append('%s: %r and not None' % (path, got))
    else:
        problems.append('%s: cannot compare %r' % (path, want))


def compare(want, message):
    problems = []
    got = model.view_msg(message)
    for key in ('attribute', 'resource'):
        n = got.pop(key + '_count')
        name = 'attributes' if key == 'attribute' else key
        if n != len(want[name]):
            problems.append('%s: %d entries and not %d' % (name, n, len(want[name])))
    same(want, got, 'snapshot', problems)
    return problems


class StrEnum(str, enum.Enum):
    ONE = 'content of one'


class Shouting(str):
    def __str__(self):
        return 'SHOUT'


class IntEnum(enum.IntEnum):
    SEVEN = 7


def attribute_value(rng, out):
    """A value for an attribute, and what has to be sent."""
    out.count('attribute_values')
    kind = rng.randrange(14)
    if kind == 0:
        v = text(rng, out)
        return v, v
    if kind == 1:
        v = rng.choice([0, 1, -1, 2 ** 31, -2 ** 63, 2 ** 63 - 1, 2 ** 63, 10 ** 30, -10 ** 25])
        return v, v
    if kind == 2:
        v = rng.choice([0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), 1e308, 5e-324])
        return v, v
    if kind == 3:
        v = rng.choice([True, False])
        return v, v
    if kind == 4:
        v = rng.choice([b'', b'bytes', 'ü'.encode()])
        return v, v.decode()
    if kind == 5:
        v = [text(rng, out) for _ in range(rng.randrange(4))]
        return v, v
    if kind == 6:
        v = tuple(rng.randrange(-5, 10 ** 6) for _ in range(rng.randrange(5)))
        return v, v
    if kind == 7:
        v = [1.5, None, -2.25]
        return v, v
    if kind == 8:
        v = [True, False, None]
        return v, v
    if kind == 9:
        return StrEnum.ONE, 'content of one'
    if kind == 10:
        return Shouting('quiet'), 'quiet'
    if kind == 11:
        return IntEnum.SEVEN, 7
    if kind == 12:
        return range(3), (0, 1, 2)
    v = [2 ** 70, 3]
    return v, v


def attributes(rng, out, n):
    built, want = {}, {}
    for i in range(n):
        key = '%s%d' % (text(rng, out, False), i)
        built[key], want[key] = attribute_value(rng, out)
    return built, want


def synthetic_snapshot(rng, out, ids, taken=()):
    """A snapshot, and the plain data it was built from."""
    from deep.api.tracepoint import EventSnapshot, StackFrame, TracePointConfig, Variable, VariableId, WatchResult
    from deep.api.resource import Resource
    big = rng.random() < .04
    if big:
        out.count('huge_tables')

    def ref():
        if ids and rng.random() < .9:
            vid = rng.choice(ids)
        else:
            vid = str(rng.randrange(1, 5000))
        name, orig = text(rng, out), opt_text(rng, out)
        mods = rng.choice([[], [], ['private'], ['protected'], ['static', 'final']])
        return VariableId(vid, name, list(mods), orig), (vid, name, tuple(mods), orig or None)

    def refs(n):
        pairs = [ref() for _ in range(n)]
        return [p[0] for p in pairs], [p[1] for p in pairs]

    lookup, want_lookup = {}, {}
    for i in range(rng.choice([0, 0, 1, 3, 12, 40]) if not big else 1001):
        vid = rng.choice([str(i + 1), str(i + 1), 'v%d' % i])
        kids, want_kids = refs(rng.choice([0, 0, 1, 3, 10]))
        t, v, h, trunc = text(rng, out), text(rng, out), str(rng.randrange(2 ** 48)), rng.random() < .4
        if big and rng.random() < .8:
            v, trunc = rng.choice(['\U0001f600', 'x']) * 1024, True
        lookup[vid] = Variable(t, v, h, kids, trunc)
        want_lookup[vid] = {'type': t, 'value': v, 'hash': h, 'truncated': trunc, 'children': want_kids}
        ids.append(vid)
    frames, want_frames = [], []
    for _ in range(rng.choice([0, 1, 1, 3, 8]) if not big else 120):
        vs, want_vs = refs(rng.choice([0, 1, 4]))
        f = {'file': text(rng, out), 'short': text(rng, out), 'method': text(rng, out), 'line': rng.choice([0, 1, 77, 10 ** 6]),
             'cls': opt_text(rng, out), 'app': rng.random() < .5, 'async': rng.random() < .3,
             'column': rng.choice([0, 0, 3]), 't_file': rng.choice([None, None, 'orig.pyx']),
             't_line': rng.choice([0, 0, 9]), 't_column': rng.choice([0, 0, 4]), 'vars': want_vs}
        frames.append(StackFrame(f['file'], f['short'], f['method'], f['line'], vs, f['cls'], is_async=f['async'],
                                 column_number=f['column'], transpiled_file_name=f['t_file'],
                                 transpiled_line_number=f['t_line'], transpiled_column_number=f['t_column'],
                                 app_frame=f['app']))
        want_frames.append(f)
    args = {text(rng, out, False) + str(i): text(rng, out) for i in range(rng.choice([0, 1, 4]))}
    args.update({'fire_count': '3', 'log_msg': text(rng, out)} if rng.random() < .4 else {})
    watches = [text(rng, out) for _ in range(rng.choice([0, 1, 3]))]
    tp = {'id': rng.choice(['tp-1', 'uuid-%d' % rng.randrange(99), text(rng)]).encode('utf-8', 'replace').decode(),
          'path': text(rng, out), 'line': rng.choice([0, 1, 42, 2 ** 32 - 1]), 'args': args, 'watches': watches}
    res_built, want_res = attributes(rng, out, rng.choice([0, 1, 4]))
    ts = rng.choice([1, 1_700_000_000_000_000_000, 2 ** 63 - 1, time.time_ns()])
    snapshot = EventSnapshot(TracePointConfig(tp['id'], tp['path'], tp['line'], dict(args), list(watches), []), ts,
                             Resource(res_built), frames, lookup)
    sid = rng.choice([1, 2 ** 128 - 1, 2 ** 127, rng.getrandbits(128), rng.getrandbits(64), 0x80, 0xff00])
    if '_id' in snapshot.__dict__ and sid not in taken:
        snapshot._id = sid
    want_w = []
    for _ in range(rng.choice([0, 1, 3, 6])):
        source, expr = rng.choice(['WATCH', 'LOG', 'METRIC', 'CAPTURE']), text(rng, out)
        if rng.random() < .4:
            out.count('error_watches')
            error = text(rng, out)
            snapshot.add_watch_result(WatchResult(source, expr, None, error))
            want_w.append({'expr': expr, 'source': source, 'ref': None, 'error': error})
        else:
            r, want_r = ref()
            snapshot.add_watch_result(WatchResult(source, expr, r))
            want_w.append({'expr': expr, 'source': source, 'ref': want_r, 'error': None})
    if rng.random() < .3:
        extra = {'merged%d' % i: Variable('str', text(rng, out), '5', [], False) for i in range(3)}
        snapshot.merge_var_lookup(extra)
        for k, v in extra.items():
            want_lookup[k] = {'type': 'str', 'value': v.value, 'hash': '5', 'truncated': False, 'children': []}
    att_built, want_att = attributes(rng, out, rng.choice([0, 1, 5]))
    for k, v in att_built.items():
        snapshot.attributes[k] = v
    log = None
    if rng.random() < .5:
        out.count('log_messages')
        log = text(rng, out)
        snapshot.log_msg = log
    duration = 0
    if rng.random() < .8:
        snapshot.complete()
        duration = snapshot.duration_nanos
    want = {'id': snapshot.id, 'tp': tp, 'ts': ts, 'duration': duration, 'log': log, 'frames': want_frames,
            'lookup': want_lookup, 'watches': want_w, 'attributes': want_att, 'resource': want_res}
    return snapshot, want


def wait_for(cond, seconds=60):
    end = time.monotonic() + seconds
    while not cond():
        if time.monotonic() > end:
            return False
        time.sleep(.005)
    return True


def judge(out, kind, wants, messages, auth_ok=None):
    """`wants`: id -> expectation; every one has to be received, exactly once."""
    got = {}
    for m in messages:
        got.setdefault(int.from_bytes(m.ID, 'big'), []).append(m)
    for sid, want in wants.items():
        out.count(kind)
        ms = got.pop(sid, [])
        if not out.check(len(ms) == 1, '%s: a collected snapshot was received %s' % (
                kind, 'more than once' if ms else 'never'), times=len(ms), snapshot=want, log=rig.AGENT_LOG[-3:]):
            continue
        problems = compare(want, ms[0])
        out.check(not problems, '%s: the message differs from the snapshot: %s' % (
            kind, re.sub(r'[\[.][^:]*', lambda m: m.group(0)[:25], problems[0])[:90] if problems else ''), problems=problems)
        out.case((kind, core.short(repr(want), 20000)),
                 {'kind': kind, 'frames': len(want['frames']), 'variables': len(want['lookup']),
                  'watches': len(want['watches']), 'bytes': len(ms[0].SerializeToString())},
                 nontrivial=bool(want['frames'] or want['lookup'] or want['watches'] or want['attributes']))
    out.check(not got, '%s: a message that belongs to no snapshot' % kind, ids=list(got))


@CHECK.unit
def synthetic(out, rng, params):
    agent = rig.Agent(plugins=[], trace=False, config={'NO_TRACE': True})
    wants, ids = {}, []
    for _ in range(params['count']):
        snapshot, want = synthetic_snapshot(rng, out, ids, wants)
        wants[snapshot.id] = want
        agent.deep.push.push_snapshot(snapshot)
        if rng.random() < .1:
            ids = []
    agent.stop()
    judge(out, 'synthetic', wants, agent.sent())


# --------------------------------------------------------------------------- collected

TEXTS = ["'\\ud800'", "'a\\udfffb'", "'\\x00'", "'\U0001f600' * 600", "'é' * 2000", "{'\\udc80k': 1}", "'\\ufeff'",
         "b'\\xff\\x00'", "['\\udcff']", "type('\\u00e9l', (), {})()", "float('nan')", "10 ** 400", "'\\\\ud800'",
         "{1: 2, None: 3, (1,): 4, 'k\\ud801': 5}", "[]", "{}", "()", "set()", "''", "None"]
WATCHES = ['t0', 't1', 'nope', '1/0', "'\\ud800'", 'len(t0)', '[t0, t1]', "int('\\ud800')", 'x.y', '(', 'caller_value',
           "{}['\\udcaa']", '"\\x00"', 't2']
LOGS = ['plain', 'v={t0}', '{nope}', "{t1} {t0!r}", 'text \ud800 {t2}', '{', '', '{t0} and {1/0}']


def collected_program(rng):
    lines, names = values.statements(rng, rng.randrange(0, 7))
    src = values.PREAMBLE
    src += 'import sys\nclass Svc:\n    def __init__(self):\n        self._p = 1\n        self.__q = "\\udcff"\n'
    body = ['t%d = %s' % (i, rng.choice(TEXTS)) for i in range(3)] + lines
    src += '    def run(self, caller_value):\n' + ''.join('        %s\n' % b for b in body)
    src += '        mark = 1\n'
    src += '        %s\n' % rng.choice(['return t0', 'return [t0, t1]', 'raise ValueError("\\ud800")', 'return None',
                                       'return t2'])
    src += 'def main():\n    z = "\\udc80"\n    try:\n        return Svc().run(z)\n    except ValueError:\n        return 1\n'
    return src


@CHECK.unit
def collected(out, rng, params):
    clock = rig.VirtualClock().install()
    tmp = rig.scratch()
    agent = rig.Agent(plugins=('RecLogger', 'RecSpans', 'RecMetrics', 'RecDecorator', 'RecResource'))
    wants, seen_ts = {}, []
    push = agent.deep.push.push_snapshot

    def observe(snapshot):
        view = model.view_obj(snapshot)
        wants[view['id']] = view
        seen_ts.append((view['ts'], view['duration'], clock.now))
        return push(snapshot)

    agent.deep.push.push_snapshot = observe
    for round_ in range(params['rounds']):
        src = collected_program(rng)
        base = 'wire%d.py' % round_
        path = rig.write_module(tmp, base, src)
        code, ns = rig.load_module(path)
        exec(code, ns)
        lines = src.split('\n')
        mark = lines.index('        mark = 1') + 1
        tps = []
        for i in range(rng.choice([1, 1, 2, 3])):
            args = {'fire_count': '-1', 'fire_period': '0'}
            if rng.random() < .5:
                args['log_msg'] = rng.choice(LOGS).encode('utf-8', 'replace').decode()
            if rng.random() < .5:
                args['frame_type'] = rng.choice(['all_frame', 'no_frame', 'single_frame'])
            if rng.random() < .2:
                args['condition'] = rng.choice(['True', 'caller_value'])
            line = mark
            if rng.random() < .35:
                args['stage'] = rng.choice(['line_end', 'line_capture', 'method_capture', 'method_end'])
                if args['stage'].startswith('method'):
                    args['method_name'] = 'run'
            tps.append(rig.tp('tp%d-%d' % (round_, i), base, line, args,
                              [rng.choice(WATCHES) for _ in range(rng.choice([0, 1, 4]))]))
        agent.install(tps)
        sys.settrace(agent.deep.trigger_handler.trace_call)
        try:
            ns['main']()
        finally:
            sys.settrace(None)
    agent.stop()
    clock.remove()
    out.check(len(wants) > 0, 'nothing was collected', log=rig.AGENT_LOG[-5:])
    for ts, duration, now in seen_ts:
        out.check(0 < ts and duration >= 0 and ts + duration <= now, 'timestamp and duration are not those of the event',
                  ts=ts, duration=duration, now=now)
    for w in wants.values():
        for watch in w['watches']:
            if watch['error'] is not None:
                out.count('error_watches')
        if w['log'] is not None:
            out.count('log_messages')
    judge(out, 'collected', wants, agent.sent())


# --------------------------------------------------------------------------- auth

class Supplied:
    """What the providers supplied in this process."""
    lock = threading.RLock()
    values = []
    calls = 0
    fail_first = 0
    delay = 0
    error = None
    make = None


def _provide():
    with Supplied.lock:
        Supplied.calls += 1
        call = Supplied.calls
    if Supplied.delay:
        time.sleep(Supplied.delay)
    if call <= Supplied.fail_first:
        raise Supplied.error
    value = Supplied.make(call)
    with Supplied.lock:
        Supplied.values.append([tuple(x) for x in value])
    return value


PROVIDER_SRC = '''
from deep.api.auth import AuthProvider
import verif_c08

class Custom(AuthProvider):
    def provide(self):
        return verif_c08._provide()

class Sub(Custom):
    pass

class NeedsConfig(AuthProvider):
    def provide(self):
        verif_c08._provide()
        return [('x-user', str(self._config.SERVICE_USERNAME))]
'''

METADATA = [
    lambda n: [('authorization', 'Bearer abc')],
    lambda n: [('x-one', '1'), ('x-two', '2')],
    lambda n: [('x-token', 'tok-%d' % n)],
    lambda n: [],
    lambda n: (('a', 'b'),),
    lambda n: [('x-bytes-bin', b'\x00\xff')],
    lambda n: [('dup', '1'), ('dup', '2'), ('z', 'ü'.encode('ascii', 'replace').decode())],
    lambda n: [('x-long', 'v' * 3000)],
]


def install_provider(tmp):
    sys.modules['verif_c08'] = sys.modules[__name__]
    rig.write_module(tmp, 'verif_c08_auth.py', PROVIDER_SRC)
    if tmp not in sys.path:
        sys.path.insert(0, tmp)
    sys.modules.pop('verif_c08_auth', None)


def auth_config(rng):
    """A configuration: (config, function that says if the metadata is right, description)."""
    kind = rng.choice(['none', 'empty', 'basic', 'basic', 'basic_partial', 'custom', 'custom', 'custom_late', 'custom_race',
                       'custom_config', 'custom_sub'])
    Supplied.values, Supplied.calls, Supplied.fail_first, Supplied.delay = [], 0, 0, 0
    if kind == 'none':
        return {}, (lambda md: md == []), kind
    if kind == 'empty':
        return {'SERVICE_AUTH_PROVIDER': ''}, (lambda md: md == []), kind
    if kind.startswith('basic'):
        user = rng.choice(['bob', 'ü', 'a:b', '', 'x' * 300, 17, '\U0001f600'])
        password = rng.choice(['secret', '', 'p:w', 'ß€', 'y' * 200, 0, ' '])
        config = {'SERVICE_AUTH_PROVIDER': 'deep.api.auth.BasicAuthProvider', 'SERVICE_USERNAME': user,
                  'SERVICE_PASSWORD': password}
        if kind == 'basic_partial':
            config[rng.choice(['SERVICE_USERNAME', 'SERVICE_PASSWORD'])] = None
            return config, (lambda md: md == []), kind
        credentials = ('%s:%s' % (user, password)).encode('utf-8')

        def basic(md):
            if len(md) != 1 or md[0][0] != 'authorization':
                return False
            m = re.fullmatch(r'Basic(?:%20| )([A-Za-z0-9+/=]*)', md[0][1])
            return bool(m) and base64.b64decode(m.group(1)) == credentials

        return config, basic, kind
    Supplied.make = rng.choice(METADATA)
    Supplied.error = rng.choice([ValueError('no token yet'), KeyError('token'), OSError('no file'), RuntimeError()])
    name = 'verif_c08_auth.Custom'
    if kind == 'custom_late':
        Supplied.fail_first = rng.choice([1, 2, 5])
    if kind == 'custom_race':
        Supplied.fail_first = 1
        Supplied.delay = .03
        Supplied.make = rng.choice(METADATA[:3])
    if kind == 'custom_sub':
        name = 'verif_c08_auth.Sub'
    if kind == 'custom_config':
        return {'SERVICE_AUTH_PROVIDER': 'verif_c08_auth.NeedsConfig', 'SERVICE_USERNAME': 'carol'}, \
            (lambda md: md == [('x-user', 'carol')]), kind
    return {'SERVICE_AUTH_PROVIDER': name}, (lambda md: md in Supplied.values), kind


def check_auth(out, kind, ok, requests, must=True):
    for what, md in requests:
        md = [tuple(x) for x in md]
        out.count('%ss_with_auth' % what)
        out.case(('auth', kind, what, tuple(md)), {'auth': kind, 'request': what, 'metadata': core.short(repr(md), 80)},
                 nontrivial=bool(md))
        out.check(ok(md), 'a %s request does not carry what the auth provider supplied (%s)' % (what, kind),
                  metadata=md, supplied=Supplied.values[:3])


@CHECK.unit
def auth(out, rng, params):
    tmp = rig.scratch()
    install_provider(tmp)
    for round_ in range(params['rounds']):
        config, ok, kind = auth_config(rng)
        # a falsy password has to count as a password
        agent = rig.Agent(plugins=[], start=False, config=dict(
            config, NO_TRACE=True, SERVICE_SECURE=rng.choice(['False', False, 'no', 0, 'True', True, '1'])))
        try:
            agent.deep.start()
        except BaseException as e:
            out.check(False, 'the agent did not start (%s)' % kind, error=repr(e))
            continue
        wants = {}
        ids = []

        def push(n):
            for _ in range(n):
                snapshot, want = synthetic_snapshot(rng, core.Out('C08', None), ids, wants)
                wants[snapshot.id] = want
                agent.deep.push.push_snapshot(snapshot)

        def poll():
            try:
                agent.deep.poll.poll()
            except Exception:
                pass

        if kind == 'custom_race':
            out.count('provider_races')
            # several requests need the metadata for the first time, at the same time
            push(2)
            threads = [threading.Thread(target=poll) for _ in range(2)]
            [t.start() for t in threads]
            [t.join() for t in threads]
        for _ in range(rng.choice([1, 2, 4])):
            poll()
            push(rng.choice([0, 1, 2]))
        agent.stop()
        requests = [(k, i['metadata']) for k, i in agent.wire.events]
        check_auth(out, kind, ok, requests)
        if kind in ('none', 'empty', 'basic', 'basic_partial', 'custom', 'custom_sub', 'custom_config'):
            out.check(len(agent.wire.polls) >= 2, 'the agent stopped polling (%s)' % kind, polls=len(agent.wire.polls))
            judge(out, 'auth_send', wants, agent.sent())


# --------------------------------------------------------------------------- loopback

@CHECK.unit
def loopback(out, rng, params):
    """The same over a real gRPC connection."""
    import grpc
    from concurrent import futures
    from deepproto.proto.poll.v1 import poll_pb2, poll_pb2_grpc
    from deepproto.proto.tracepoint.v1 import tracepoint_pb2, tracepoint_pb2_grpc
    tmp = rig.scratch()
    install_provider(tmp)
    received, polls, lock = [], [], threading.Lock()

    class Sends(tracepoint_pb2_grpc.SnapshotServiceServicer):
        def send(self, request, context):
            with lock:
                received.append((request, [(m.key, m.value) for m in context.invocation_metadata()]))
            return tracepoint_pb2.SnapshotResponse()

    class Polls(poll_pb2_grpc.PollConfigServicer):
        def poll(self, request, context):
            with lock:
                polls.append((request, [(m.key, m.value) for m in context.invocation_metadata()]))
            return poll_pb2.PollResponse(response_type=poll_pb2.ResponseType.NO_CHANGE)

    def strip(md):
        return [x for x in md if x[0] not in ('user-agent',) and not x[0].startswith('grpc-')]

    for _ in range(params['rounds']):
        config, ok, kind = auth_config(rng)
        while kind == 'custom_race' or '\U0001f600' in str(config):
            config, ok, kind = auth_config(rng)
        server = grpc.server(futures.ThreadPoolExecutor(4), options=[('grpc.max_receive_message_length', -1),
                                                                     ('grpc.max_metadata_size', 1 << 20)])
        tracepoint_pb2_grpc.add_SnapshotServiceServicer_to_server(Sends(), server)
        poll_pb2_grpc.add_PollConfigServicer_to_server(Polls(), server)
        port = server.add_insecure_port('127.0.0.1:0')
        server.start()
        del received[:], polls[:]
        agent = rig.Agent(plugins=[], start=False, config=dict(
            config, NO_TRACE=True, SERVICE_URL='127.0.0.1:%d' % port, SERVICE_SECURE=rng.choice(['False', False, '0'])))
        grpc.insecure_channel, grpc.secure_channel = agent._orig
        agent.deep.start()
        wants, ids = {}, []
        if kind == 'custom_late':
            for _ in range(6):
                try:
                    agent.deep.poll.poll()
                except Exception:
                    pass
        for _ in range(params['count']):
            snapshot, want = synthetic_snapshot(rng, out, ids, wants)
            wants[snapshot.id] = want
            agent.deep.push.push_snapshot(snapshot)
        agent.deep.poll.poll()
        agent.stop()
        with lock:
            got = [m for m, _ in received]
            requests = [('send', strip(md)) for _, md in received] + [('poll', strip(md)) for _, md in polls]
        judge(out, 'loopback', wants, got)
        if kind != 'custom_late' or Supplied.values:
            check_auth(out, kind, lambda md: ok(md) or sorted(md) in [sorted(v) for v in Supplied.values], requests)
        out.check(any(k == 'poll' for k, _ in requests), 'no poll was received')
        server.stop(None)
        agent.deep.grpc.channel.close()


@CHECK.planner
def plan(tier, seed):
    n = 1 if tier == 'quick' else 12
    units = []
    units += core.spread('synthetic', 8 * n, seed, count=80)
    units += core.spread('collected', 8 * n, seed, rounds=25)
    units += core.spread('auth', 8 * n, seed, rounds=14)
    units += core.spread('loopback', 6 * n, seed, rounds=3, count=30)
    return units


if __name__ == '__main__':
    sys.exit(CHECK.main())
