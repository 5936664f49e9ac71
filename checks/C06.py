"""C06: collection is total and per-tracepoint independent."""
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, graph, hostile, model, rig, values  # noqa: E402

CHECK = core.Check(
    'C06', 'exploration',
    'A case is one due (tracepoint, hit) of a frame that holds hostile values - about 170 kinds: text, length, iteration, '
    'attribute, class, hash and comparison hooks that raise (also BaseExceptions), values without attributes, keys that '
    'are not text, iterators, dead proxies, cycles, invalid text - as locals, nested in containers, reached by watches '
    'and log fields, or in the frames of the callers. Each snapshot has to arrive (in process and on the wire), with '
    'an entry for each local, and with every value that is not hostile intact. Several tracepoints act on the same event. '
    'Non-trivial: the frame holds a hostile value. Distinct by (hostile values, frame types).',
    ['the text of a hostile value is not judged, only that there is one',
     'the virtual clock keeps the time budget of the collector from running out'],
    required=['due', 'delivered', 'hostile_values', 'kinds_of_hostile_values', 'intact_values', 'same_event', 'sent',
              'hostile_watches', 'hostile_log_fields', 'namespace_frames', 'bad_names', 'containers'])

LINE = '    mark = 1'


def make(rng):
    picked = []
    lines = []
    good, bad, containers = [], [], []
    for i in range(rng.randrange(1, 7)):
        v = rng.choice(hostile.VALUES)
        picked.append(v)
        bad.append('h%d' % i)
        lines.append('h%d = %s' % (i, v))
    if rng.random() < .15:
        lines.append('self = %s' % rng.choice(bad))
        bad.append('self')
    for i in range(rng.randrange(1, 5)):
        good.append('g%d' % i)
        lines.append('g%d = %s' % (i, rng.choice(GOOD)))
    for i in range(rng.randrange(0, 4)):
        containers.append('c%d' % i)
        a, b = rng.choice(bad), rng.choice(good)
        lines.append('c%d = %s' % (i, rng.choice([
            '[%s, %s]', '(%s, %s)', '{"h": %s, "g": %s}', 'Holder(%s, %s)', '[%s, [%s]]', '{"h": %s, 7: %s}',
            '{"h": %s, "g": {"x": %s}}', 'ValueError(%s, %s)', 'keyed(%s, %s)',
            'keyed(%s, %s)', 'Odd(%s, %s)', 'filled([%s, %s])', 'Named(%s, %s)']) % (a, b)))
    if rng.random() < .1:
        lines.append('ev = [Evil(1), 2, 3]; Evil.owner = ev')
        bad.append('ev')
    rng.shuffle(lines)
    lines.sort(key=lambda x: 2 if x.startswith('c') else x.startswith('self'))
    body = ''.join('    %s\n' % x for x in lines)
    kind = rng.choice(['function', 'function', 'function', 'namespace', 'exec', 'method', 'caller'])
    src = values.PREAMBLE + hostile.PREAMBLE + HOLDER
    if kind == 'namespace':
        src += NAMESPACE
        src += 'def target(p):\n    class Body(metaclass=Prepared):\n        here = 1\n    back = 2\n%s%s\n    return 1\n' % (
            body, LINE)
    elif kind == 'method':
        src += 'class StrSelf:\n  def __str__(self):\n    raise Fatal("self")\n  def target(self, p):\n%s%s\n' \
               '    return 1\ndef target(p):\n    return StrSelf().target(p)\n' % (body, LINE)
    else:
        src += 'def target(p):\n%s%s\n    return 1\n' % (body, LINE)
    src += 'def caller(p):\n    w0 = %s\n    w1 = %s\n    return target(p)\n' % (rng.choice(hostile.VALUES),
                                                                                rng.choice(hostile.VALUES))
    src += 'def main(p):\n    return caller(p)\n'
    return src, kind, picked, good, bad, containers


GOOD = ['[1, 2, 3]', '{"a": {"b": "c"}}', '"text"', '12345', 'Plain(x=1, y=[2])', '(1, "b", None)', '{"k": [1.5, True]}',
        '"x" * 2000', '[[[1]]]', 'Priv(1, "two")', '{1: "one"}', 'Holder("in", {"g": 2})', 'KeyError("k", 1)',
        'frozenset(["only"])', 'Point(1, [2])', 'range(4)', '"\\u4e2d"', 'Color.RED', 'b"bytes"', '1.25', 'None', 'True']

HOLDER = '''
class Holder:
    def __init__(self, a, b):
        self.h = a
        self.g = b
    def __str__(self):
        return 'Holder'
'''

HOLDER += '''
def keyed(h, g):
    try:
        return {h: 1, 'g': g}
    except BaseException:
        return {'h': h, 'g': g}

def filled(values):
    return {str(i): v for i, v in enumerate(values)}

class OddDict(dict):
    items = keys = values = __iter__ = __getitem__ = __len__ = raiser(Fatal('odd dict'))

class Odd:
    def __init__(self, a, b):
        self.__dict__ = OddDict(h=a, g=b)
    def __str__(self):
        return 'Odd'

class Meta(type):
    __hash__ = None
    def __eq__(cls, other):
        raise Fatal('type eq')
    def __instancecheck__(cls, x):
        raise Fatal('instance')
    @property
    def __name__(cls):
        raise Fatal('name')

class Named(metaclass=Meta):
    def __init__(self, a, b):
        self.h = a
        self.g = b
    def __str__(self):
        return 'Named'
type.__dict__['__name__'].__set__(Named, 'list')
'''

NAMESPACE = '''
class Space(dict):
    def __getitem__(self, key):
        if key in ('print', '__name__') or dict.__contains__(self, key):
            return dict.__getitem__(self, key)
        raise KeyError(key)
    keys = items = values = __iter__ = raiser(Fatal('namespace'))

class Prepared(type):
    @classmethod
    def __prepare__(mcs, name, bases):
        return Space()
    def __new__(mcs, name, bases, ns):
        return type.__new__(type, name, bases, {})
'''


@CHECK.unit
def zoo(out, rng, params):
    sys.setrecursionlimit(400)
    clock = rig.VirtualClock().install()
    tmp = rig.scratch()
    used = set()
    for round_ in range(params['rounds']):
        rig.EVENTS.clear()
        src, kind, picked, good, bad, containers = make(rng)
        base = 'zoo%d.py' % round_
        path = rig.write_module(tmp, base, src)
        rows = src.split('\n')
        mark = rows.index(LINE) + 1
        lines = {'mark': mark}
        if kind == 'namespace':
            lines['ns'] = rows.index('        here = 1') + 1
        agent = rig.Agent()
        tps = []
        n_tps = rng.choice([1, 2, 2, 3, 4])
        for k in range(n_tps):
            args = {'fire_count': '-1', 'fire_period': '0',
                    'frame_type': rng.choice(['single_frame', 'single_frame', 'all_frame', 'no_frame'])}
            line = lines['ns'] if 'ns' in lines and rng.random() < .5 else mark
            if rng.random() < .15:
                args['stage'] = 'line_capture'
            if rng.random() < .25:
                args['log_msg'] = 'z {%s} {%s!r} {%s}' % (rng.choice(bad), rng.choice(bad), rng.choice(good))
            watches = [rng.choice(['%s', 'str(%s)', '%s.attr', '[%s]', 'len(%s)', '%s == 1', '{"w": %s}', 'bool(%s)',
                                   'repr(%s)']) % rng.choice(bad + good) for _ in range(rng.choice([0, 0, 1, 3]))]
            tps.append(rig.tp('t%d' % k, base, line, args, watches))
        agent.install(tps)
        expected = {}

        def observe(inv, n, frame, event, arg):
            if event != 'line':
                return
            for t in tps:
                if t.line_number != frame.f_lineno or frame.f_code.co_name not in ('target', 'Body'):
                    continue
                item = {'tp': t, 'ns': frame.f_code.co_name == 'Body', 'truth': graph.Truth()}
                if not item['ns']:
                    f_locals = model.locals_of(frame)
                    item['locals'] = f_locals
                    for name in good:
                        item['truth'].add(f_locals[name])
                item['depth'] = 0
                f = frame
                while f is not None:
                    item['depth'] += 1
                    f = f.f_back
                expected[(n, t.ID)] = item

        tee = rig.Tee(sys.gettrace(), observe, {path})
        tee.install()

        def run():
            code, ns = rig.load_module(path)
            exec(code, ns)
            if kind == 'exec':
                outer = compile('main(p)\n', 'some/dir\udcff/odd\udcfename.py', 'exec')
                exec(outer, dict(ns, p=[1]))
            else:
                ns['main']([1])

        done = []
        name = rng.choice(['worker', 'half \udcff name', ''])
        failed = []

        def body():
            try:
                run()
                done.append(1)
            except BaseException as e:
                failed.append(traceback.format_exc(limit=-4) + repr(type(e)))

        t = threading.Thread(target=body, name=name)
        t.start()
        t.join()
        tee.remove()
        agent.stop()
        if kind == 'exec' or '\udcff' in name:
            out.count('bad_names')
        out.check(done and not tee.raised, 'a hostile value made the agent raise into the program', raised=tee.raised[:2],
                  values=picked, failed=failed)
        sent = {int.from_bytes(m.ID, 'big'): m for m in agent.sent()}
        got = {}
        for p in agent.pushed:
            got.setdefault(p['tp'], []).append(p['snapshot'])
        if len({n for n, _ in expected}) < len(expected):
            out.count('same_event')
        used.update(picked)
        out.count('hostile_values', len(picked))
        for (n, tp_id), item in expected.items():
            detail = {'tp': str(item['tp']), 'values': picked, 'kind': kind, 'agent_log': rig.AGENT_LOG[-2:],
                      'source': src[len(values.PREAMBLE + hostile.PREAMBLE + HOLDER):]}
            out.count('due')
            out.case((sorted(picked), kind, dict(item['tp'].args)['frame_type'], len(tps)),
                     sample={'values': picked, 'kind': kind, 'tracepoints': len(tps),
                             'watches': list(item['tp'].watches)})
            snaps = got.get(tp_id, [])
            if not out.check(len(snaps) == 1, 'a due hit gave %d snapshots' % len(snaps), **detail):
                continue
            out.count('delivered')
            msg = sent.get(snaps[0].id)
            if not out.check(msg is not None, 'a snapshot did not arrive at the service', **detail):
                continue
            out.count('sent')
            for view in (model.view_obj(snaps[0]), model.view_msg(msg)):
                judge(out, view, item, good, bad, containers, detail, kind)
        rig.AGENT_LOG.clear()
    for v in used:
        out.count('kinds_of_hostile_values')
    clock.remove()


def judge(out, view, item, good, bad, containers, detail, kind):
    t = item['tp']
    frame_type = dict(t.args)['frame_type']
    dangling = graph.closed(view)
    out.check(not dangling, 'a reference of the snapshot does not resolve', dangling=dangling[:3], **detail)
    out.check(len(view['frames']) == item['depth'], 'the snapshot has %d of %d frames' % (len(view['frames']),
                                                                                      item['depth']), **detail)
    out.check(bool(view['id']) and view['tp']['id'] == t.ID, 'the snapshot does not name the tracepoint', **detail)
    # a table is not shared with the other tracepoints
    reach, todo = set(), [r[0] for f in view['frames'] for r in f['vars']]
    todo += [w['ref'][0] for w in view['watches'] if w['ref'] is not None]
    while todo:
        vid = todo.pop()
        if vid in reach or vid not in view['lookup']:
            continue
        reach.add(vid)
        todo += [c[0] for c in view['lookup'][vid]['children']]
    extra = set(view['lookup']) - reach
    out.check(not extra, 'the table has variables that are not part of this snapshot',
              extra=[view['lookup'][x] for x in extra][:2], **detail)
    watches = [w for w in view['watches'] if w['source'] == 'WATCH']
    out.check([w['expr'] for w in watches] == list(t.watches) and
              all((w['ref'] is None) != (w['error'] is None) for w in watches),
              'the watches are not complete', watches=watches[:4], **detail)
    out.count('hostile_watches', sum(1 for w in t.watches if 'h' in w))
    if 'log_msg' in t.args:
        fields = [w for w in view['watches'] if w['source'] == 'LOG']
        out.count('hostile_log_fields', len(fields))
        out.check(view['log'] is not None and view['log'].startswith('[deep] z ') and len(fields) == 3,
                  'the log of the snapshot is not complete', log=view['log'], **detail)
    for v in view['lookup'].values():
        if not isinstance(v['value'], str) or not isinstance(v['type'], str):
            out.violation('a variable has no text', variable=v, **detail)
    if frame_type == 'no_frame':
        out.check(not any(f['vars'] for f in view['frames']), 'frames have variables', **detail)
        return
    if item['ns']:
        out.count('namespace_frames')
        return
    f_locals = item['locals']
    refs = {}
    for r in view['frames'][0]['vars']:
        refs.setdefault(r[1], []).append(r)
    out.check(sorted(refs) == sorted(f_locals) and all(len(r) == 1 for r in refs.values()),
              'the variables of the frame are not complete', have=sorted(refs), want=sorted(f_locals), **detail)
    if frame_type == 'all_frame':
        for f in view['frames'][1:]:
            if f['method'] == 'caller' and f['file'].endswith('.py') and '/zoo' in f['file']:
                # the budget can be used up by the other frames
                if len(view['lookup']) < model.MAX_VARS - 100:
                    out.check({r[1] for r in f['vars']} == {'p', 'w0', 'w1'}, 'the variables of the caller are not '
                              'complete', have=[r[1] for r in f['vars']], **detail)
    for name in bad + containers:
        if name in refs:
            v = view['lookup'].get(refs[name][0][0])
            out.check(v is not None and v['type'] == clean(model.tname(f_locals[name])) and isinstance(v['value'], str),
                      'a hostile variable has no entry of its type', name=name, entry=v, **detail)
    complete = len(view['lookup']) < model.MAX_VARS - 100
    problems = []
    for name in good:
        if name in refs:
            compare(out, view, item['truth'], refs[name][0], f_locals[name], name, problems, complete, 1)
    out.check(not problems, 'a value that is not hostile is not intact', problems=problems[:4], **detail)
    problems = []
    for name in containers:
        if name in refs:
            container(out, view, refs[name][0], f_locals[name], name, problems, complete, item['truth'])
    out.check(not problems, 'a container of a hostile value is not intact', problems=problems[:4], **detail)


def clean(text):
    return text.encode('utf-8', 'replace').decode()


def container(out, view, ref, value, name, problems, complete, truth):
    """The hostile element is somewhere in the container, the other element is intact."""
    v = view['lookup'].get(ref[0])
    if v is None:
        return
    out.count('containers')
    if type(value) is dict or type(value) is list or type(value) is tuple:
        kids = list(value.items()) if type(value) is dict else list(enumerate(value))
        if v['value'] != 'Size: %d' % len(value):
            problems.append('%s has the value %r' % (name, v['value']))
    elif isinstance(value, Exception):
        kids = list(enumerate(value.args))
    else:
        kids = list(dict.items(value.__dict__))
    have = [c[1] for c in v['children']]
    want = [clean(k) if type(k) is str else str(k) if type(k) is int and abs(k) < 10 ** 9 else None for k, _ in kids]
    if complete and (len(have) != len(want) or any(w is not None and w != clean(h) for h, w in zip(have, want))):
        problems.append('%s has the children %s' % (name, have))
        return
    for c, (k, x) in zip(v['children'], kids):
        if c[0] not in view['lookup']:
            problems.append('%s.%s does not resolve' % (name, c[1]))
        elif view['lookup'][c[0]]['type'] != clean(model.tname(x)):
            problems.append('%s.%s has the type %r' % (name, c[1], view['lookup'][c[0]]['type']))
        elif id(x) in truth.recs:
            compare(out, view, truth, c, x, '%s.%s' % (name, c[1]), problems, complete, 2)


def compare(out, view, truth, ref, value, where, problems, complete, level):
    rec = truth.recs[id(value)]
    v = view['lookup'].get(ref[0])
    if v is None:
        problems.append('%s does not resolve' % where)
        return
    out.count('intact_values')
    if v['type'] != rec.type or rec.texts and rec.texts[0] is not None and ' at 0x' not in rec.texts[0] and \
            v['value'] not in [clean(x)[:model.MAX_STRING] for x in rec.texts]:
        problems.append('%s is %s %r and not %s %r' % (where, v['type'], v['value'][:80], rec.type, rec.texts[0][:80]))
    if not rec.strict or level >= 4 or not complete:
        return
    if len(v['children']) != len(rec.children):
        problems.append('%s has %d children and not %d' % (where, len(v['children']), len(rec.children)))
        return
    for c, (names, child) in zip(v['children'], rec.children):
        if (c[1], c[3]) not in names:
            problems.append('%s has the child %r' % (where, c[1]))
        elif id(child) in truth.recs:
            compare(out, view, truth, c, child, '%s.%s' % (where, c[1]), problems, complete, level + 1)


@CHECK.planner
def plan(tier, seed):
    return core.spread('zoo', 48 if tier == 'quick' else 640, seed, rounds=18)


if __name__ == '__main__':
    sys.exit(CHECK.main())
