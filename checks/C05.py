"""C05: collection is bounded and spends its budget breadth-first."""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, graph, model, rig  # noqa: E402

CHECK = core.Check(
    'C05', 'exploration',
    'A case is one delivered snapshot of a frame whose locals are generated object graphs (wide, deep, shared, cyclic, '
    'long texts; up to thousands of objects), with the default limits or configured ones. An observer that holds the '
    'real objects follows every path of the snapshot and computes the bounds, the exactness of the truncation flags and '
    'the depth of everything recorded and everything left out. Non-trivial: a limit was hit. Distinct by (limits, '
    'sizes).',
    ['the limits are set in the config of the action where they are not the default ones',
     'the order in which frames (frame_type all_frame) and watches spend what is left of the budget is not judged',
     'locals have level 1; the children of objects at the last level are optional',
     'the virtual clock keeps the time budget of the collector from running out'],
    required=['snapshots', 'budget_exhausted', 'budget_not_exhausted', 'truncated', 'not_truncated', 'collections_cut',
              'collections_whole', 'depth_cut', 'default_limits', 'configured_limits', 'watch_roots', 'levels_compared'])

DEFAULTS = {'MAX_VARIABLES': 1000, 'MAX_COLLECTION_SIZE': 10, 'MAX_STRING_LENGTH': 1024, 'MAX_VAR_DEPTH': 5}

SOURCE = '''
def hold(values):
    %s
    del values
    done = 0
    return 1

def raising(values):
    %s
    del values
    raise KeyError(a)

def outer(values, second):
    first = second
    extra = [second]
    return hold(values) if not second else raising(values)
'''


def source(n):
    names = ['abcdefghij'[i] for i in range(n)]
    line = '; '.join('%s = values[%d]' % (x, i) for i, x in enumerate(names))
    return SOURCE % (line, line)


WATCHES = ['a', '[a, b, [a]]', '{"w": a}', '[[[[[[[[a]]]]]]]]', 'list(range(100000, 100040))', '"w" * 5000',
           '["q" * n for n in range(1018, 1034)]', '{str(i): [i + 100000, "t%d" % i] for i in range(500)}', 'len(a)',
           '[{"x": [{"x": [{"x": [{"x": 1}]}]}]}]', 'tuple(str(i) for i in range(30))',
           '["\\u00e9" * n for n in (1, 2, 5, 7, 15, 600, 1023, 1024, 1025, 3000)]', '"\\U0001f600" * 700', '"e\\u0301" * 500',
           'set(range(15))', 'nope']


@CHECK.unit
def limits(out, rng, params):
    clock = rig.VirtualClock().install()
    tmp = rig.scratch()
    for round_ in range(params['rounds']):
        rig.EVENTS.clear()
        n = rng.choice([1, 2, 3, 4, 6, 10])
        base = 'limits%d.py' % n
        src = source(n)
        path = rig.write_module(tmp, base, src)
        line = src.split('\n').index('    done = 0') + 1
        raise_line = src.split('\n').index('    raise KeyError(a)') + 1
        agent = rig.Agent()
        limits_ = dict(DEFAULTS)
        configured = rng.random() < .75
        if configured:
            for key, options in (('MAX_VARIABLES', [0, 1, 2, 3, 5, 8, 13, 20, 40, 100, 300]),
                                 ('MAX_COLLECTION_SIZE', [0, 1, 2, 3, 5, 9, 11, 50]),
                                 ('MAX_STRING_LENGTH', [0, 1, 3, 6, 7, 8, 20, 1023, 1025]),
                                 ('MAX_VAR_DEPTH', [1, 2, 3, 4, 6, 8])):
                if rng.random() < .6:
                    limits_[key] = rng.choice(options)
        sizes = [rng.choice([1, 3, 10, 60, 60, 400] + ([2500] if not configured else [])) for _ in range(n)]
        fresh = [0]
        vals = [graph.build(rng, s, rng.choice(graph.STYLES), fresh) for s in sizes]
        if rng.random() < .3:
            vals = [vals[0]] * n
        watches = [rng.choice(WATCHES) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]
        frame_type = rng.choice(['single_frame', 'single_frame', 'single_frame', 'all_frame', 'no_frame'])
        log = rng.choice([None, None, 'm {a} {len(a)} {nope}'])
        second = rng.random() < .3
        args = {'fire_count': '-1', 'fire_period': '0', 'frame_type': frame_type}
        if log:
            args['log_msg'] = log
        stage = rng.choice([None, None, 'method_capture', 'line_capture'])
        if stage:
            args['stage'] = stage
        target = raise_line if second else line
        if stage == 'method_capture':
            args['method_name'] = 'raising' if second else 'hold'
        if configured:
            rig.install_limited(agent, base, target, args, watches, limits_)
            out.count('configured_limits')
        else:
            agent.install([rig.tp('t', base, target, args, watches)])
            out.count('default_limits')
        seen = {}

        def observe(inv, n_, frame, event, arg):
            func = frame.f_code.co_name
            if func != ('raising' if second else 'hold'):
                return
            if event == ('call' if stage == 'method_capture' else 'line') and (
                    stage == 'method_capture' or frame.f_lineno == target) and 'truth' not in seen:
                truth = graph.Truth(limits_['MAX_COLLECTION_SIZE'], max_levels=limits_['MAX_VAR_DEPTH'] + 2)
                f_locals = model.locals_of(frame)
                for v in f_locals.values():
                    truth.add(v)
                scope = dict(frame.f_globals)
                scope.update(f_locals)
                seen['watches'] = []
                for w in watches:
                    try:
                        value = eval(w, dict(scope))
                    except Exception:
                        seen['watches'].append(None)
                    else:
                        truth.add(value)
                        seen['watches'].append([value])
                seen['truth'] = truth
                seen['locals'] = f_locals
            elif event in ('return', 'exception') and 'truth' in seen and 'arg' not in seen:
                seen['truth'].add(arg)
                seen['arg'] = arg

        tee = rig.Tee(sys.gettrace(), observe, {path})
        tee.install()
        code, ns = rig.load_module(path)

        def run():
            exec(code, ns)
            try:
                ns['outer'](vals, second)
            except KeyError:
                pass

        t = threading.Thread(target=run)
        t.start()
        t.join()
        tee.remove()
        agent.stop()
        out.check(not tee.raised, 'the trace function raised', raised=tee.raised[:2])
        snaps = [x['snapshot'] for x in agent.pushed]
        if out.check(len(snaps) == 1 and 'truth' in seen, 'there are %d snapshots' % len(snaps), limits=limits_, args=args,
                     log=rig.AGENT_LOG[-2:]):
            views = [model.view_obj(snaps[0])] + [model.view_msg(m) for m in agent.sent()]
            out.check(len(views) == 2, 'the snapshot was not sent', log=rig.AGENT_LOG[-2:])
            for view in views:
                judge(out, view, seen, limits_, watches, frame_type, args)
        rig.AGENT_LOG.clear()
    clock.remove()


def judge(out, view, seen, limits_, watches, frame_type, args):
    out.count('snapshots')
    truth = seen['truth']
    max_vars, max_coll = limits_['MAX_VARIABLES'], limits_['MAX_COLLECTION_SIZE']
    max_str, max_depth = limits_['MAX_STRING_LENGTH'], limits_['MAX_VAR_DEPTH']
    where = {'limits': limits_, 'frame_type': frame_type, 'args': args, 'watches': watches,
             'types': {k: type(v).__name__ for k, v in seen['locals'].items()}}
    total = len(view['lookup'])
    out.high('max_variables_seen', total)
    out.check(total <= max_vars + 1, 'a snapshot holds %d variables, the maximum is %d' % (total, max_vars), **where)
    cut = False
    for vid, v in view['lookup'].items():
        out.check(len(v['value']) <= max_str, 'a value has %d characters, the maximum is %d' % (len(v['value']), max_str),
                  **where)
        if v['type'] in ('list', 'tuple', 'set', 'frozenset'):
            out.check(len(v['children']) <= max_coll, 'a %s has %d elements, the maximum is %d' % (
                v['type'], len(v['children']), max_coll), **where)
    # where is everything
    roots = [('watch %d' % i, w['ref'], real[0]) for i, (w, real) in
             enumerate(zip([w for w in view['watches'] if w['source'] == 'WATCH'], seen['watches']))
             if w['ref'] is not None and real is not None]
    out.count('watch_roots', len(roots))
    roots += [('capture', w['ref'], seen['arg']) for w in view['watches']
              if w['source'] == 'CAPTURE' and w['ref'] is not None and 'arg' in seen]
    frame_roots = []
    if frame_type != 'no_frame':
        top = view['frames'][0]['vars']
        frame_roots = [('local %s' % r[1], r, seen['locals'][r[1]]) for r in top if r[1] in seen['locals']]
        out.check(len(frame_roots) == len(top), 'the frame has variables that are not locals', **where)
    problems = []
    ids, _ = graph.walk(view, truth, frame_roots + roots, problems.append)
    out.check(not problems, 'a snapshot has a path that the program does not have', problems=problems[:3], **where)
    texts_ok(out, view, truth, ids, max_str, where)
    # the shortest way to every entry, along the references of the snapshot
    level = {}
    todo = [(ref[0], 1) for f in view['frames'] for ref in f['vars']]
    todo += [(w['ref'][0], 1) for w in view['watches'] if w['ref'] is not None]
    while todo:
        nxt = []
        for vid, lvl in todo:
            if vid in level or vid not in view['lookup']:
                continue
            level[vid] = lvl
            nxt += [(c[0], lvl + 1) for c in view['lookup'][vid]['children']]
        todo = nxt
    deepest = max(level.values(), default=0)
    out.high('max_level_seen', deepest)
    out.check(deepest <= max_depth, 'a variable is at level %d, the maximum depth is %d' % (deepest, max_depth), **where)
    if frame_type != 'no_frame':
        cut = breadth(out, view, seen, ids, limits_, where)
    out.case((sorted(limits_.items()), total, frame_type, len(seen['locals']), len(watches)),
             sample={'limits': limits_, 'variables': total, 'levels': deepest, 'frame type': frame_type},
             nontrivial=cut or total >= max_vars)


def texts_ok(out, view, truth, ids, max_str, where):
    for vid, objs in ids.items():
        v = view['lookup'].get(vid)
        rec = truth.recs.get(next(iter(objs)))
        if v is None or rec is None or len(objs) != 1:
            continue
        if rec.texts is not None and len(rec.texts) == 1 and rec.texts[0] is not None and ' at 0x' not in rec.texts[0]:
            want = rec.texts[0]
            out.check(v['value'] == want[:max_str], 'a value is not the start of the text of the object',
                      value=v['value'][:100], want=want[:100], **where)
            out.check(bool(v['truncated']) == (len(want) > max_str), 'truncated is %r, but the text has %d of at most %d '
                      'characters' % (v['truncated'], len(want), max_str), value=v['value'][:100], **where)
            out.count('truncated' if v['truncated'] else 'not_truncated')
        else:
            out.check(bool(v['truncated']) <= (len(v['value']) == max_str), 'a short value is marked as truncated',
                      value=v['value'][:100], **where)
        if type(rec.obj) in (list, tuple, set, frozenset):
            size = len(rec.obj)
            out.count('collections_cut' if len(v['children']) < size else 'collections_whole')


def breadth(out, view, seen, ids, limits_, where):
    """Everything at one level is recorded before anything deeper."""
    truth, max_depth = seen['truth'], limits_['MAX_VAR_DEPTH']
    recorded = set()
    for vid, objs in ids.items():
        if vid in view['lookup']:
            recorded.update(objs)
    levels = truth.levels(list(seen['locals'].values()), max_depth + 1)
    # follow the references of the frame only, watches have a budget of their own
    from_frame = {}
    todo = [(r[0], 1) for r in view['frames'][0]['vars']]
    while todo:
        nxt = []
        for vid, lvl in todo:
            if vid in from_frame or vid not in view['lookup']:
                continue
            from_frame[vid] = lvl
            nxt += [(c[0], lvl + 1) for c in view['lookup'][vid]['children']]
        todo = nxt
    in_frame = set()
    for vid in from_frame:
        in_frame.update(ids.get(vid, ()))
    reached = [lvl for oid, lvl in levels.items() if oid in in_frame]
    deepest = max(reached, default=0)
    missing = [(lvl, oid) for oid, lvl in levels.items() if oid not in in_frame]
    out.count('levels_compared', deepest)
    # the children of an object that is at the last level are cut by the depth, and not by the budget
    bad = [(lvl, oid) for lvl, oid in missing if lvl < deepest and lvl <= max_depth - 1]
    out.check(not bad, 'a variable at level %d is missing, although there are variables at level %d' % (
        min(bad)[0] if bad else 0, deepest),
        missing=[(lvl, model.tname(truth.recs[oid].obj)) for lvl, oid in sorted(bad)[:5] if oid in truth.recs],
        variables=len(view['lookup']), **where)
    if any(lvl >= max_depth for lvl, _ in missing):
        out.count('depth_cut')
    short = [(lvl, oid) for lvl, oid in missing if lvl <= max_depth - 1]
    slack = 2 + len(view['frames']) + len(view['watches'])
    if short:
        out.count('budget_exhausted')
        used = len(view['lookup'])
        out.check(used + slack >= limits_['MAX_VARIABLES'], 'a variable at level %d is missing, although only %d of %d '
                  'variables are used' % (min(short)[0], used, limits_['MAX_VARIABLES']), **where)
    else:
        out.count('budget_not_exhausted')
    return bool(short)


@CHECK.planner
def plan(tier, seed):
    return core.spread('limits', 24 if tier == 'quick' else 320, seed, rounds=30)


if __name__ == '__main__':
    sys.exit(CHECK.main())
