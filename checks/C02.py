"""C02: a snapshot truthfully describes the paused frame."""
import os
import random
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, model, progs, rig, values  # noqa: E402

CHECK = core.Check(
    'C02', 'exploration',
    'A case is one delivered snapshot of a generated program (locals of all kinds of types with sharing and cycles; '
    'functions, methods, closures, generators, coroutines, class bodies, modules, exec, handlers, threads), compared '
    'field by field with a reading of the same frame that another trace function took at the same event. Non-trivial: '
    'it has at least three local variables or an evaluated watch. Distinct by (shape, frame type, types of locals).',
    ['the reading relies on sys.settrace/frame.f_locals of CPython 3.12',
     'subclasses of containers may be shown as text or as a size; the children of iterators, functions, classes and '
     'modules are not judged', 'children at exactly the maximum depth may or may not be collected',
     'the virtual clock keeps the time budget of the collector from running out'],
    required=['snapshots', 'values_compared', 'watches_compared', 'watch_errors', 'frames_compared', 'all_frame',
              'no_frame', 'method_entries', 'self_frames', 'app_frames', 'non_app_frames', 'thread_snapshots',
              'truncated_values', 'cyclic', 'generator_frames', 'deep_stacks', 'deferred_snapshots'])

WATCHES = ['{n}', '{n}', '[{n}, {m}]', '{{"k": {n}}}', 'len({n})', 'str({n})', '{n} is {m}', 'missing_name', '1 / 0',
           '{n}.nope', 'Plain', 'sum(range(4))', '[k for k in range(3)]', '({n}, 1, "x" * 2000)', '{n} +', '',
           ' {n}', 'MARK', 'MARK + 1', 'type({n})', 'isinstance({n}, dict)', '[{n}][0]', '{n}[0] if isinstance({n}, (list, str, tuple)) else {n}.nope', 'self',
           '"h\\u00e9"', 'None', '(lambda: 3)()', '{n} if True else 0', 'int("x")', '[[[[[[1]]]]]]', 'raise_it()',
           'exit_it()', '{n} == {n}', 'id({n}) == id({n})', '"%s" % 1']


def indent(lines, n=1):
    return ''.join('    ' * n + x + '\n' for x in lines)


FILE_NAMES = ['<string>', '<generated code>', '<frozen thing>', '', 'odd name.py', 'C:\\\\x\\\\y.py', 'a/b', '/usr/lib/x.py',
              '\u00fcn\u00ef.py', '<']
HELPERS = '''
import dataclasses, functools
@dataclasses.dataclass
class Made:
    a: object
    b: object
    fn: object
    def __post_init__(self):
        self.r = self.fn(self.a, self.b)
class Via:
    def __init__(self, fn):
        self.fn = fn
    def __call__(self, *args):
        return self.fn(*args)
    def __getattr__(self, name):
        return self.fn(name, 1)
    def __enter__(self):
        return self.fn(self, 2)
    def __exit__(self, *args):
        return False
    def __lt__(self, other):
        return self.fn(3, other)
    def __iter__(self):
        yield self.fn(4, 4)
    def __del__(self):
        pass
class Empty:
    def __len__(self):
        return 0
class Never:
    def __bool__(self):
        return False
class NoTruth:
    def __bool__(self):
        raise TypeError('no truth value')
    def __eq__(self, other):
        raise TypeError('not comparable')
    __hash__ = None
class SameAsNone:
    def __eq__(self, other):
        return True
    def __hash__(self):
        return 5
class Liar:
    @property
    def __class__(self):
        return int
def down(n, fn, a, b):
    if n > 0:
        return down(n - 1, fn, a, b)
    return fn(a, b)
def wrapping(fn):
    @functools.wraps(fn)
    def wrapper(*args, **kw):
        return fn(*args, **kw)
    return wrapper
def entered(fn):
    with Via(fn) as got:
        return got
'''


def calling(rng, name, a, b):
    """An expression that calls the next function: directly, or through generated code, operators or C functions."""
    direct = '%s(%s, %s)' % (name, a, b)
    if rng.random() < .4:
        return direct
    return rng.choice([
        'eval("%s(_a, _b)", globals(), {"_a": %s, "_b": %s})' % (name, a, b),
        'eval(compile("%s(_a, _b)", "%s", "eval"), globals(), {"_a": %s, "_b": %s})' % (
            name, rng.choice(FILE_NAMES), a, b),
        'exec(compile("def made(_a, _b):\\n    inside = 1\\n    return %s(_a, _b)\\nmade(_x, _y)\\n", "%s", "exec"), '
        'dict(globals(), _x=%s, _y=%s))' % (name, rng.choice(FILE_NAMES), a, b),
        '(lambda u, v: %s(u, v))(%s, %s)' % (name, a, b),
        'list(map(lambda u: %s(u, u), [%s]))' % (name, a),
        'sorted([1], key=lambda u: %s(u, u))' % name,
        'functools.reduce(%s, [%s, %s])' % (name, a, b),
        'functools.partial(%s, %s)(%s)' % (name, a, b),
        'Made(%s, %s, %s)' % (a, b, name),
        'Via(%s)(%s, %s)' % (name, a, b),
        'Via(%s).anything' % name,
        'Via(%s) < 5' % name,
        'list(Via(%s))' % name,
        'entered(%s)' % name,
        'wrapping(%s)(%s, %s)' % (name, a, b)])


def function(rng, i, n_functions, shape):
    """Source of one function that builds locals and calls the next one."""
    body, names = values.statements(rng, rng.randrange(1, 7), ['p', 'q'])
    call = 'r = ' + (calling(rng, 'f%d' % (i + 1), rng.choice(names), rng.choice(names)) if i + 1 < n_functions else '1')
    after, _ = values.statements(rng, rng.randrange(1, 3), names)
    body = body + [call] + after
    if shape == 'function':
        return 'def f%d(p, q=None, *rest, **kw):\n%s    return 7\n' % (i, indent(body))
    if shape == 'method':
        return 'class C%d(%s):\n    def __init__(self):\n        self.__hid = 1\n        self.n = 2\n    def m(self, p, q):\n' \
               '%s        return self.n\n' \
               'def f%d(p, q):\n    c = C%d()\n    return c.m(p, q)\n' % (
                   i, rng.choice(['', 'object', 'Quiet', 'Empty', 'Never', 'NoTruth', 'SameAsNone', 'Empty, Quiet', 'Liar']),
                   indent(body, 2), i, i)
    if shape == 'classmethod':
        return 'class K%d:\n    @classmethod\n    def m(cls, p, q):\n%s        return 1\n' \
               'def f%d(p, q):\n    return K%d.m(p, q)\n' % (i, indent(body, 2), i, i)
    if shape == 'fake_self':
        return 'def f%d(self, q):\n    p = self\n%s    return 7\n' % (i, indent(body))
    if shape == 'none_self':
        return 'def f%d(p, q):\n    self = None\n%s    self = %s\n    return 7\n' % (i, indent(body), rng.choice(
            ['Quiet()', '0', '""', '[]', '{}', 'False', 'Never()', 'Empty()', '()', '0.0', 'Quiet', 'type', '...']))
    if shape == 'closure':
        return 'def f%d(p, q):\n    free = [p]\n    def inner(z):\n        nonlocal p\n        p = q\n%s' \
               '        return free\n    return inner(1)\n' % (i, indent(body, 2))
    if shape == 'generator':
        return 'def g%d(p, q):\n%s    got = yield 1\n    more = got\n    yield 2\n' \
               'def f%d(p, q):\n    it = g%d(p, q)\n    total = 0\n    for v in it:\n        total += v\n' \
               '    return total\n' % (i, indent(body), i, i)
    if shape == 'coroutine':
        return 'async def c%d(p, q):\n%s    return 5\n' \
               'def f%d(p, q):\n    co = c%d(p, q)\n    try:\n        co.send(None)\n    except StopIteration as stop:\n' \
               '        value = stop.value\n    return value\n' % (i, indent(body), i, i)
    if shape == 'handler':
        return 'def f%d(p, q):\n    try:\n        bad = [p][5]\n    except IndexError as err:\n%s    finally:\n' \
               '        done = True\n    return done\n' % (i, indent(body, 2))
    if shape == 'class_body':
        return 'def f%d(p, q):\n    class Body:\n        attr = p\n%s        last = 1\n    return Body.last\n' % (
            i, indent([x for x in body], 2))
    if shape == 'exec':
        return 'def f%d(p, q):\n    space = {"p": p, "q": q}\n    space.update(globals())\n    exec(compile(%r, ' \
               '"made/exec%d.py", "exec"), space)\n    return 1\n' % (
                   i, '\n'.join(body) + '\n', i)
    if shape == 'comprehension':
        return 'def f%d(p, q):\n%s    squares = [\n        x * x\n        for x in range(3)\n    ]\n    pairs = {\n' \
               '        k: [k]\n        for k in "ab"\n    }\n    lazy = sum(\n        y\n        for y in squares\n    )\n' \
               '    return lazy\n' % (i, indent(body))
    if shape == 'recursive':
        return 'def f%d(p, q, n=3):\n    level = n\n    if n > 0:\n        return f%d(p, [q], n - 1)\n%s    return 1\n' % (
            i, i, indent(body))
    raise AssertionError(shape)


SHAPES = ['function', 'function', 'method', 'method', 'classmethod', 'fake_self', 'none_self', 'closure', 'generator',
          'coroutine', 'handler', 'class_body', 'exec', 'comprehension', 'recursive']


def make_program(rng):
    n = rng.randrange(1, 5)
    shapes = [rng.choice(SHAPES) for _ in range(n)]
    top, _ = values.statements(rng, 2)
    src = values.PREAMBLE + 'MARK = 42\ndef raise_it():\n    raise KeyError("watch")\n' \
                            'def exit_it():\n    raise SystemExit(3)\n'
    src += HELPERS
    src += ''.join(function(rng, i, n, s) for i, s in enumerate(shapes))
    # a deep stack now and then
    call = rng.choice(['f0('] * 9 + ['down(%d, f0, ' % n for n in (40, 90, 130)])
    src += 'def main(p, q):\n    started = [p, q]\n    result = %sp, started)\n    return result\n' % call
    src += '\n'.join(top) + '\n'
    return src, shapes


@CHECK.unit
def snapshots(out, rng, params):
    clock = rig.VirtualClock().install()
    tmp = rig.scratch()
    for round_ in range(params['rounds']):
        rig.EVENTS.clear()
        src, shapes = make_program(rng)
        folder = os.path.join(tmp, rng.choice(['app', 'app/sub', 'lib', 'app/vendor', 'other', 'app' + tmp + '/app',
                                               'other' + tmp + '/app']))
        base = 'prog%d.py' % round_
        path = rig.write_module(folder, base, src)
        include = rng.choice([[], [tmp + '/app'], [tmp + '/lib', tmp + '/app/sub'], [tmp + '/app', tmp + '/app/sub'],
                              ['/nowhere']])
        exclude = rng.choice([[], [tmp + '/app/vendor'], [tmp + '/app'], [tmp + '/lib', '/usr/lib']])
        app_root = rng.choice(['/nonexistent-app-root', tmp, tmp + '/app', tmp + '/other'])
        agent = rig.Agent({'IN_APP_INCLUDE': list(include), 'IN_APP_EXCLUDE': list(exclude), 'APP_ROOT': app_root})
        tps = []
        lines = sorted(progs.lines_of(src))
        lines = [x for x in lines if x > values.PREAMBLE.count('\n')]
        functions = sorted(set(progs.lines_of(src).values()) - {'<module>'})
        functions = [f for f in functions if f.startswith(('f', 'm', 'inner', 'main')) and f != 'raise_it']
        for k in range(rng.randrange(1, 6)):
            args = {'fire_count': rng.choice(['-1', '-1', '3', '8']), 'fire_period': '0'}
            frame_type = rng.choice([None, None, 'single_frame', 'single_frame', 'all_frame', 'no_frame', 'odd_frame'])
            if frame_type:
                args['frame_type'] = frame_type
            if frame_type == 'all_frame' and 'result = down(' in src:
                args['fire_count'] = '3'
            if rng.random() < .3:
                args['stack_type'] = 'stack'
            if rng.random() < .2:
                # the variables are those of the trigger, not those of the end of the line
                args['stage'] = 'line_capture'
            if rng.random() < .3:
                args['custom ü arg'] = 'value %s {x}'
            target = base
            line = rng.choice(lines)
            if rng.random() < .25:
                if 'stage' in args:
                    args['stage'] = 'method_capture'
                args['method_name'] = rng.choice(functions)
            elif 'exec' in shapes and rng.random() < .5:
                target = 'exec%d.py' % shapes.index('exec')
                line = rng.randrange(1, 8)
            watches = []
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                name = rng.choice(values.NAMES[:12] + ['p', 'q', 'r'])
                watches.append(rng.choice(WATCHES).replace('{{', '{').replace('}}', '}').replace(
                    '{n}', name).replace('{m}', rng.choice(['p', 'q', name])))
            tps.append(rig.tp('t%d' % k, target, line, args, watches))
        agent.install(tps)
        readings = {}
        hits = {}

        def observe(inv, n, frame, event, arg):
            if event not in ('line', 'call'):
                return
            name = os.path.basename(frame.f_code.co_filename)
            for t in tps:
                if t.path != name:
                    continue
                if 'method_name' in t.args:
                    if event != 'call' or frame.f_code.co_name != t.args['method_name']:
                        continue
                    if frame.f_lasti > 5:  # a generator that continues
                        continue
                elif event != 'line' or frame.f_lineno != t.line_number:
                    continue
                count = int(t.args['fire_count'])
                hits[t.ID] = hits.get(t.ID, 0) + 1
                if count != -1 and hits[t.ID] > count:
                    continue
                readings[(n, t.ID)] = read(t, frame)

        def read(t, frame):
            frame_type = t.args.get('frame_type', 'single_frame')
            reading = model.Reading(frame, {'all_frame': 'all', 'no_frame': 'none'}.get(frame_type, 'top'))
            reading.event_frame_code = frame.f_code
            reading.thread = threading.current_thread().name
            reading.before = clock.now
            reading.watches = []
            scope = dict(frame.f_globals)
            scope.update(model.locals_of(frame))
            for i, w in enumerate(t.watches):
                try:
                    value = eval(w, dict(scope))
                except BaseException as e:
                    try:
                        reading.watches.append(('error', str(e)))
                    except Exception:
                        reading.watches.append(('error', ''))
                else:
                    reading.watches.append(('value', value))
                    reading.add_root(value, i == 0)
            return reading

        files = {path} | {'made/exec%d.py' % i for i in range(5)}
        tee = rig.Tee(sys.gettrace(), observe, files)
        tee.install()

        def run():
            code, ns = rig.load_module(path)
            try:
                exec(code, ns)
                ns['main'](1, ['x'])
            except Exception:
                out.count('program_exceptions')

        if rng.random() < .5:
            threads = [threading.Thread(target=run, name='w%d' % i) for i in range(rng.choice([1, 2]))]
            for t in threads:
                t.start()
                t.join()
        else:
            run()
        tee.remove()
        agent.stop()
        out.check(not tee.raised, 'the trace function raised', raised=tee.raised[:2])
        sent = {int.from_bytes(m.ID, 'big'): m for m in agent.sent()}
        got = {}
        for p in agent.pushed:
            # the trigger time names the event, as some snapshots are completed later
            events = [n for (n, tp_id), r in readings.items() if tp_id == p['tp'] and r.before <= p['snapshot'].ts_nanos]
            got.setdefault((max(events) if events else None, p['tp']), []).append(p['snapshot'])
        for key, reading in readings.items():
            snaps = got.pop(key, [])
            if not out.check(len(snaps) == 1, 'a due hit produced %d snapshots' % len(snaps), tp=key,
                             log=[x for x in rig.AGENT_LOG if 'annot' in x or 'ailed' in x][-3:], line=reading.frames[0]['line'], func=reading.frames[0]['func'],
                             args=dict(next(x for x in tps if x.ID == key[1]).args), source=src[len(values.PREAMBLE):]):
                continue
            msg = sent.get(snaps[0].id)
            if not out.check(msg is not None, 'the snapshot was not sent', log=rig.AGENT_LOG[-1:]):
                continue
            t = next(x for x in tps if x.ID == key[1])
            compare(out, t, reading, model.view_msg(msg), include, exclude, app_root, clock, src, shapes)
        got = {k: v for k, v in got.items() if 'method_name' not in next(x for x in tps if x.ID == k[1]).args}
        out.check(not got, 'snapshots of hits that were not due', keys=list(got)[:3])
        rig.AGENT_LOG.clear()
    clock.remove()


def compare(out, t, reading, view, include, exclude, app_root, clock, src, shapes):
    out.count('snapshots')
    frame_type = t.args.get('frame_type', 'single_frame')
    if frame_type in ('all_frame', 'no_frame'):
        out.count(frame_type)
    if 'method_name' in t.args:
        out.count('method_entries')
    problems = []
    tp_want = {'id': t.ID, 'path': t.path, 'line': t.line_number, 'args': dict(t.args), 'watches': list(t.watches)}
    if view['tp'] != tp_want:
        problems.append('the snapshot names the tracepoint %r and not %r' % (view['tp'], tp_want))
    if not reading.before <= view['ts'] <= clock.now:
        problems.append('the timestamp %s is not between %s and %s' % (view['ts'], reading.before, clock.now))
    if view['attributes'].get('tracepoint') != t.ID or 'context' not in view['attributes']:
        problems.append('the attributes do not name the tracepoint: %r' % view['attributes'])
    if view['attributes'].get('thread_name') != reading.thread:
        problems.append('the thread is %r and not %r' % (view['attributes'].get('thread_name'), reading.thread))
    if reading.thread != 'MainThread':
        out.count('thread_snapshots')
    if len(view['frames']) != len(reading.frames):
        problems.append('%d frames and not %d' % (len(view['frames']), len(reading.frames)))
    # the locals of each frame are counted too
    complete = len(view['lookup']) + len(view['frames']) <= model.MAX_VARS - 60
    seen = set()
    types = []
    for i, (f, r) in enumerate(zip(view['frames'], reading.frames)):
        out.count('frames_compared')
        if i == 100:
            out.count('deep_stacks')
        where = 'frame %d' % i
        for key, want in (('file', r['file']), ('method', r['func']), ('line', r['line']), ('cls', r['cls'])):
            if f[key] != want and not (key == 'cls' and not want and not f[key]):
                problems.append('%s: %s is %r and not %r' % (where, key, f[key], want))
        if r['cls']:
            out.count('self_frames')
        ok = model.expected_app(r['file'], include, exclude, app_root)
        if (bool(f['app']), f['short']) not in ok:
            problems.append('%s: (app, short path) is %r and not one of %r' % (where, (f['app'], f['short']), ok))
        out.count('app_frames' if f['app'] else 'non_app_frames')
        collect = frame_type == 'all_frame' or frame_type != 'no_frame' and i == 0
        if not collect:
            if f['vars']:
                problems.append('%s has variables although frame_type is %s' % (where, frame_type))
            continue
        ours = i == 0 or r['file'].startswith(os.environ['VERIF_UNIT_TMP']) or r['file'].startswith('made/')
        names = [v[1] for v in f['vars']]
        want_names = list(r['locals'])
        if complete or i == 0:
            if sorted(names) != sorted(want_names):
                problems.append('%s has the variables %s and not %s' % (where, names, want_names))
                continue
        elif not set(names) <= set(want_names):
            problems.append('%s has variables that are not locals: %s' % (where, set(names) - set(want_names)))
            continue
        if i == 0:
            types = sorted(model.tname(v) for v in r['locals'].values())
        if not ours:
            continue
        for ref in f['vars']:
            if not model.modifiers_ok(ref[1], ref[2]):
                problems.append('%s: %s has modifiers %r' % (where, ref[1], ref[2]))
            n = model.compare_value(view, reading, ref, r['locals'][ref[1]], '%s.%s' % (where, ref[1]), problems,
                                    seen=seen, complete=complete)
            out.count('values_compared', n or 0)
    if 'stage' in t.args:
        out.count('deferred_snapshots')
        while view['watches'] and view['watches'][-1]['source'] == 'CAPTURE':
            view['watches'].pop()
    if len(view['watches']) != len(reading.watches):
        problems.append('%d watch results and not %d' % (len(view['watches']), len(reading.watches)))
    for w, expr, (kind, want) in zip(view['watches'], t.watches, reading.watches):
        where = 'watch %r' % expr
        if w['expr'] != expr or w['source'] != 'WATCH':
            problems.append('%s is reported as %r (%s)' % (where, w['expr'], w['source']))
        if kind == 'error':
            out.count('watch_errors')
            if w['ref'] is not None or w['error'] is None or want not in w['error']:
                problems.append('%s has to fail with %r, result %r error %r' % (where, want, w['ref'], w['error']))
        else:
            out.count('watches_compared')
            if w['ref'] is None:
                if complete:
                    problems.append('%s has the error %r' % (where, w['error']))
                continue
            n = model.compare_value(view, reading, w['ref'], want, where, problems, seen=seen, complete=complete)
            out.count('values_compared', n or 0)
    out.count('truncated_values', sum(1 for v in view['lookup'].values() if v['truncated']))
    if any(c[0] == k for k, v in view['lookup'].items() for c in v['children']):
        out.count('cyclic')
    if reading.event_frame_code.co_flags & 0x20:
        out.count('generator_frames')
    out.count('oracle_evaluations')
    if problems:
        out.violation('the snapshot differs from the state of the program: %s' % problems[0].split(' ')[0],
                      problems=problems[:5], tp=str(t), source=src[len(values.PREAMBLE):])
    out.case((reading.event_frame_code.co_name, frame_type, types, len(reading.frames), sorted(t.watches)),
             sample={'function': reading.event_frame_code.co_name, 'frame_type': frame_type, 'types of locals': types,
                     'watches': list(t.watches), 'frames': len(reading.frames), 'variables': len(view['lookup'])},
             nontrivial=len(types) >= 3 or bool(reading.watches))


@CHECK.planner
def plan(tier, seed):
    return core.spread('snapshots', 24 if tier == 'quick' else 320, seed, rounds=18)


if __name__ == '__main__':
    sys.exit(CHECK.main())
