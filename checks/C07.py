"""C07: the variable table of a snapshot is closed and de-duplicated by identity."""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, graph, model, rig, values  # noqa: E402

CHECK = core.Check(
    'C07', 'exploration',
    'A case is one delivered snapshot (in process, and as parsed from the wire) of a generated program with shared, '
    'cyclic and equal-but-distinct data, whose values are also reached through watches, log fields, several frames and '
    'the captured result. Every reference has to resolve; every path of the snapshot is followed along the real objects '
    'that an observer held at the event, which gives the relation between variable ids and object identities: it has to '
    'be one to one. Non-trivial: an object is reached by at least two paths. Distinct by (types, paths, ids).',
    ['paths below iterators, functions, classes, modules and subclasses of containers are only checked for closure',
     'expressions are evaluated by the observer as well: what they create is compared by relation, not by address'],
    required=['snapshots', 'paths', 'shared_objects', 'cyclic', 'watch_roots', 'capture_roots', 'log_roots',
              'budget_hit', 'multi_frame', 'equal_distinct', 'same_event_snapshots', 'temporary_watches'])

TWINS = ['tw1 = [1, "x"]; tw2 = [1, "x"]', 'tw1 = {"k": 1}; tw2 = {"k": 1}', 'tw1 = 12345 + len("ab"); tw2 = 12345 + len("ab")',
         'tw1 = Plain(a=1); tw2 = Plain(a=1)', 'tw1 = "ab" * 3; tw2 = "ab" * len("abc")', 'tw1 = [[]]; tw2 = [tw1[0], []]',
         'tw1 = 1000.5 * 2; tw2 = 1000.5 * len("ab")', 'tw1 = (1, [2]); tw2 = tw1', 'tw1 = []; tw2 = [tw1, tw1, tw1]',
         'tw1 = AlwaysEqual(); tw2 = AlwaysEqual()', 'tw1 = {}; tw2 = Quiet(); tw2.__dict__ = tw1',
         'tw1 = Quiet(); tw2 = tw1.__dict__', 'tw1 = [1.5] * 12; tw2 = [list(tw1) for _ in range(12)]',
         'tw1 = True; tw2 = [1, 1.0, True, tw1]', 'tw1 = KeyError([1]); tw2 = tw1.args']
WATCHES = ['{n}', '{n}', '[{n}]', '({n}, {m})', '{{"w": {n}, "v": [{n}]}}', '[{n}, {m}, {n}]', '[1, "x"]', '[[], []]',
           '[{n}] * 3', 'Plain(q={n})', 'tw1', '[tw1, tw2]', 'tw2', '{{}}', '[object()]', '"t%d" % len("abc")',
           '[["w"]]', 'str(5000)', '10 ** 6', 'not_there', '(lambda: {n})()', 'list(({n},))', 'G_SHARED', '[G_SHARED, {n}]',
           'Plain(a=1)', 'Plain(b=2)', '[1.25]', '{{"z": 7}}', '[k for k in [[], [], []]]']
RESULTS = ['{n}', '[{n}, {m}]', '{{"r": {n}}}', 'None', 'tw1', '({n},)', 'fresh', '"text" * 3', 'G_SHARED', '[[], []]']

EXTRA = '''
G_SHARED = [['shared']]
class AlwaysEqual:
    def __eq__(self, other):
        return True
    def __hash__(self):
        return 1
    def __str__(self):
        return 'equal'

class Captured(Exception):
    pass
'''


def make(rng):
    lines, names = values.statements(rng, rng.randrange(2, 8))
    names = names or ['G_SHARED']
    twins = [rng.choice(TWINS)]
    outer, outer_names = values.statements(rng, 2)

    def fill(text):
        return text.replace('{{', '\1').replace('}}', '\2').replace('{n}', rng.choice(names)).replace(
            '{m}', rng.choice(names)).replace('\1', '{').replace('\2', '}')

    body = ''.join('    %s\n' % x for x in lines + twins)
    result = fill(rng.choice(RESULTS))
    src = values.PREAMBLE + EXTRA
    src += 'def target(p):\n%s    fresh = [1]\n    mark = fresh\n' % body
    if rng.random() < .35:
        src += '    raise Captured(%s)\n' % result
    else:
        src += '    return %s\n' % result
    src += 'def caller(p):\n%s    again = p\n    wrapped = [p]\n    return target(%s)\n' % (
        ''.join('    %s\n' % x for x in outer), rng.choice(['p', 'wrapped', '[p, again]', 'wrapped[0]']))
    src += 'def main(p):\n    held = p\n    try:\n        return caller(held)\n    except Captured as e:\n        return 0\n'
    return src, fill, names


@CHECK.unit
def tables(out, rng, params):
    clock = rig.VirtualClock().install()
    tmp = rig.scratch()
    for round_ in range(params['rounds']):
        rig.EVENTS.clear()
        src, fill, names = make(rng)
        base = 'table%d.py' % round_
        path = rig.write_module(tmp, base, src)
        mark = src.split('\n').index('    mark = fresh') + 1
        agent = rig.Agent()
        tps, limited = [], None
        for k in range(rng.choice([1, 1, 2, 3])):
            args = {'fire_count': '-1', 'fire_period': '0',
                    'frame_type': rng.choice(['single_frame', 'single_frame', 'all_frame', 'no_frame'])}
            line = mark
            kind = rng.randrange(4)
            if kind == 1:
                args['stage'] = 'line_capture'
                line = rng.choice([mark, mark + 1])
            elif kind == 2:
                args.update(stage='method_capture', method_name='target')
            if rng.random() < .4:
                args['log_msg'] = 'log %s' % ' '.join('{%s}' % e for e in
                                                      [rng.choice(['tw1', 'tw2', 'fresh', 'p', 'nope'] + names)
                                                       for _ in range(rng.randrange(1, 4))])
            watches = [fill(rng.choice(WATCHES)) for _ in range(rng.choice([0, 1, 2, 4]))]
            tps.append(rig.tp('t%d' % k, base, line, args, watches))
        limits = {}
        if rng.random() < .35:
            limits = {'MAX_VARIABLES': rng.choice([1, 3, 7, 15, 30, 60]), 'MAX_COLLECTION_SIZE': rng.choice([2, 10, 40]),
                      'MAX_VAR_DEPTH': rng.choice([2, 5, 7])}
            t = tps[0]
            del tps[1:]
            rig.install_limited(agent, base, t.line_number, t.args, t.watches, limits)
            tps[0].ID = 't'
        else:
            agent.install(tps)
        readings, latest, args_seen = {}, {}, {}
        max_coll = limits.get('MAX_COLLECTION_SIZE', model.MAX_COLLECTION)

        def observe(inv, n, frame, event, arg):
            if frame.f_code.co_name != 'target':
                return
            if event in ('return', 'exception') and event == 'exception' or event == 'return' and inv not in args_seen:
                args_seen.setdefault(inv, arg)
                for key, r in readings.items():
                    if r['inv'] == inv:
                        r['capture'] = arg
                        r['truth'].add(arg)
                return
            for t in tps:
                if 'method_name' in t.args:
                    if event != 'call':
                        continue
                elif event != 'line' or frame.f_lineno != t.line_number:
                    continue
                truth = graph.Truth(max_coll)
                frames = []
                f = frame
                while f is not None:
                    f_locals = model.locals_of(f)
                    if f.f_code.co_filename == path:
                        for v in f_locals.values():
                            truth.add(v)
                    frames.append((f.f_code.co_filename, f_locals))
                    f = f.f_back
                scope = dict(frame.f_globals)
                scope.update(model.locals_of(frame))

                def ev(expr):
                    try:
                        value = eval(expr, dict(scope))
                    except Exception:
                        return None
                    truth.add(value)
                    return [value]

                readings[(n, t.ID)] = {'truth': truth, 'frames': frames, 'inv': inv, 'thread': threading.get_ident(),
                                       'watches': [ev(w) for w in t.watches],
                                       'fields': [ev(x.strip('{}')) for x in t.args['log_msg'].split(' ')[1:]]
                                       if 'log_msg' in t.args else []}

        tee = rig.Tee(sys.gettrace(), observe, {path})
        tee.install()

        def run():
            code, ns = rig.load_module(path)
            exec(code, ns)
            ns['main'](['p'])

        t = threading.Thread(target=run)
        t.start()
        t.join()
        tee.remove()
        agent.stop()
        out.check(not tee.raised, 'the trace function raised', raised=tee.raised[:2])
        sent = {int.from_bytes(m.ID, 'big'): m for m in agent.sent()}
        by_tp = {}
        for p in agent.pushed:
            by_tp.setdefault(p['tp'], []).append(p['snapshot'])
        if len({n for n, _ in readings}) < len(readings):
            out.count('same_event_snapshots')
        for (n, tp_id), r in readings.items():
            snaps = by_tp.get(tp_id, [])
            if not out.check(len(snaps) == 1, 'a tracepoint gave %d snapshots' % len(snaps), log=rig.AGENT_LOG[-2:],
                             source=src[len(values.PREAMBLE):]):
                continue
            t = next(x for x in tps if x.ID == tp_id)
            views = [model.view_obj(snaps[0])]
            if out.check(snaps[0].id in sent, 'a snapshot was not sent', log=rig.AGENT_LOG[-2:]):
                views.append(model.view_msg(sent[snaps[0].id]))
            for view in views:
                judge(out, view, r, t, path, limits, src)
        rig.AGENT_LOG.clear()
    clock.remove()


def judge(out, view, r, t, path, limits, src):
    out.count('snapshots')
    detail = {'tp': str(t), 'limits': limits, 'source': src[len(values.PREAMBLE):]}
    dangling = graph.closed(view)
    out.check(not dangling, 'a reference does not resolve in the table of the snapshot', dangling=dangling[:3], **detail)
    if len(view['lookup']) >= limits.get('MAX_VARIABLES', model.MAX_VARS) - 1:
        out.count('budget_hit')
    roots = []
    multi = 0
    for f, (name, f_locals) in zip(view['frames'], r['frames']):
        if f['vars'] and name == path:
            multi += 1
            for ref in f['vars']:
                if out.check(ref[1] in f_locals, 'a frame has a variable that is not a local', name=ref[1], **detail):
                    roots.append(('%s.%s' % (f['method'], ref[1]), ref, f_locals[ref[1]]))
            names = [ref[1] for ref in f['vars']]
            out.check(len(names) == len(set(names)), 'a frame has a variable twice', names=names, **detail)
    if multi > 1:
        out.count('multi_frame')
    for source, real, key in (('WATCH', r['watches'], 'watch_roots'), ('LOG', r['fields'], 'log_roots')):
        have = [w for w in view['watches'] if w['source'] == source]
        for w, value in zip(have, real):
            if w['ref'] is not None and value is not None:
                roots.append(('%s %s' % (source, w['expr']), w['ref'], value[0]))
                out.count(key)
    for w in view['watches']:
        if w['source'] == 'CAPTURE' and w['ref'] is not None and 'capture' in r:
            roots.append(('captured', w['ref'], r['capture']))
            out.count('capture_roots')
    if len([w for w in view['watches'] if w['source'] == 'WATCH' and w['ref']]) > 1:
        out.count('temporary_watches')
    problems = []
    ids, paths = graph.walk(view, r['truth'], roots, problems.append)
    out.count('paths', paths)
    out.check(not problems, 'a path of the snapshot does not exist in the program', problems=problems[:3], **detail)
    back, shared = {}, 0
    for vid, objs in ids.items():
        if len(objs) > 1:
            out.violation('two different objects share a variable id', vid=vid, paths=list(objs.values())[:3],
                          entry=view['lookup'].get(vid), **detail)
        for oid, where in objs.items():
            back.setdefault(oid, {}).setdefault(vid, where)
    for oid, vids in back.items():
        if len(vids) > 1:
            out.violation('one object is recorded as more than one variable', paths=vids,
                          value=r['truth'].recs[oid].texts if oid in r['truth'].recs else None, **detail)
    out.count('oracle_evaluations', len(ids) + len(back))
    # how often it is reached
    references = {}
    for _, ref in graph.all_refs(view):
        references[ref[0]] = references.get(ref[0], 0) + 1
    shared = sum(1 for c in references.values() if c > 1)
    out.count('shared_objects', shared)
    texts = {}
    for oid in back:
        rec = r['truth'].recs.get(oid)
        if rec is not None and rec.texts:
            texts.setdefault((rec.type, rec.texts[0]), []).append(oid)
    out.count('equal_distinct', sum(1 for v in texts.values() if len(v) > 1))
    if cyclic(view):
        out.count('cyclic')
    out.case((sorted(v['type'] for v in view['lookup'].values()), paths, shared, sorted(dict(t.args).items())),
             sample={'variables': len(view['lookup']), 'paths': paths, 'shared': shared, 'watches': list(t.watches)},
             nontrivial=shared > 0)


def cyclic(view):
    state = {}
    for start in view['lookup']:
        stack = [(start, iter([c[0] for c in view['lookup'][start]['children']]))]
        if state.get(start):
            continue
        state[start] = 1
        while stack:
            vid, it = stack[-1]
            nxt = next(it, None)
            if nxt is None:
                state[vid] = 2
                stack.pop()
            elif state.get(nxt) == 1:
                return True
            elif not state.get(nxt) and nxt in view['lookup']:
                state[nxt] = 1
                stack.append((nxt, iter([c[0] for c in view['lookup'][nxt]['children']])))
    return False


@CHECK.planner
def plan(tier, seed):
    return core.spread('tables', 24 if tier == 'quick' else 320, seed, rounds=25)


if __name__ == '__main__':
    sys.exit(CHECK.main())
