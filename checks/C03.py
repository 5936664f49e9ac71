"""C03: actions fire at exactly the configured locations."""
import os
import sys
import threading
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, progs, rig  # noqa: E402

CHECK = core.Check(
    'C03', 'exploration',
    'A case is one generated program (one to three files, some with the same base name; recursion, exceptions, '
    'generators, context managers, nested functions, threads) run under the real agent with a random set of line and '
    'method tracepoints of all action kinds (unlimited fire count). Non-trivial: at least one tracepoint is due and at '
    'least one configured tracepoint is never due. Distinct by the (tracepoint, hit count) profile.',
    ['CPython 3.12 delivers line/call events as sys.settrace documents; the reference stream is recorded by another '
     'trace function on the same program',
     'method tracepoints on generators and coroutines are not judged on resume events'],
    required=['line_hits_due', 'method_hits_due', 'never_due_tracepoints', 'programs_tee', 'programs_plain',
              'same_location_pairs', 'threads_run', 'silent_programs', 'config_changes_in_flight',
              'hits_in_functions_entered_before_the_change'])

KINDS = ('snapshot', 'log', 'metric', 'span')
UNLIMITED = {'fire_count': '-1', 'fire_period': '0'}


ALIKE = """

class Alike:
    def f0(self, n):
        k = n
        return k

    def _f0(self, n):
        k = n
        return k

    def __f0(self, n):
        return self._f0(n)

    def both(self, n):
        return self.__f0(n)

    def f0_(self, n):
        return n

    @property
    def F0(self):
        return 1

    @staticmethod
    def main(a, b):
        return a

    @classmethod
    def __f1__(cls):
        return cls


class Alike2(Alike):
    def f0(self, n):
        return super().f0(n)


def _f1(n):
    return n


def _main(n):
    def f0(n):
        return n

    def main_(n):
        return f0(n)
    f1 = lambda n: main_(n)
    return f1(n)


for thing in (Alike(), Alike2()):
    thing.f0(1)
    thing.both(2)
    thing.f0_(3)
    thing.F0
    thing.main(1, 2)
    thing.__f1__()
_f1(1)
_main(2)
"""


def make_tp(tp_id, kind, path, line, args):
    args = dict(UNLIMITED, **args)
    metrics = []
    if kind == 'snapshot':
        args['frame_type'] = 'no_frame'
    else:
        args['snapshot'] = 'no_collect'
    if kind == 'log':
        args['log_msg'] = tp_id
    if kind == 'metric':
        metrics = [rig.metric(tp_id)]
    if kind == 'span':
        args['span'] = 'method' if 'method_name' in args else 'line'
    return rig.tp(tp_id, path, line, args, [], metrics)


def effects():
    out = []
    for kind, d in list(rig.EVENTS):
        if kind == 'push':
            out.append((d['tname'], d['hit'], d['tp'], d['seq']))
        elif kind == 'log':
            out.append((d['tname'], d['hit'], d['msg'][len('[deep] '):], d['seq']))
        elif kind == 'metric':
            out.append((d['tname'], d['hit'], d['name'], d['seq']))
        elif kind == 'span_open':
            out.append((d['tname'], d['hit'], d['tp'], d['seq']))
    return out


def choose(rng, files, sources, out):
    """A random set of tracepoints: list of (proto, matcher description)."""
    tps = []
    bases = sorted({os.path.basename(f) for f in files})
    n = 0
    code_lines = {os.path.basename(f): progs.lines_of(s) for f, s in zip(files, sources)}
    locations = []
    for _ in range(rng.randrange(4, 14)):
        base = rng.choice(bases)
        r = rng.random()
        if r < 0.55:
            line = rng.choice(sorted(code_lines[base]))
            loc = ('line', base, line)
        elif r < 0.8:
            names = sorted(set(code_lines[base].values()) - {'<module>', 'Node', 'AppError', 'Alike', 'Alike2'})
            names = [x for x in names if not x.startswith(('gen', 'coro', 'managed'))]
            loc = ('method', base, rng.choice(names))
        elif r < 0.9:
            # close, but not a location of the program
            loc = rng.choice([('line', base[1:], rng.choice(sorted(code_lines[base]))),
                              ('line', 'x' + base, rng.choice(sorted(code_lines[base]))),
                              ('line', base.upper(), rng.choice(sorted(code_lines[base]))),
                              ('line', base + 'c', rng.choice(sorted(code_lines[base]))),
                              ('line', base, 5000), ('line', base, 1), ('line', base, 0),
                              ('method', base, 'f'), ('method', base, 'F0'), ('method', base, 'f00'),
                              ('method', 'x' + base, 'main'), ('method', base, 'ain')])
        else:
            loc = rng.choice(locations) if locations else ('line', base, 5000)
        locations.append(loc)
    for loc in locations:
        kind = rng.choice(KINDS)
        n += 1
        tp_id = 'tp%d-%s' % (n, kind)
        args = {}
        line = loc[2]
        if loc[0] == 'method':
            args['method_name'] = loc[2]
            # the line of a method tracepoint must not matter
            line = rng.choice([0, 1, rng.randrange(200)])
            if rng.random() < .4:
                args['stage'] = rng.choice(['method_start', 'method_start', 'method_end'])
        elif rng.random() < .3:
            args['stage'] = rng.choice(['line_start', 'line_end'])
        tps.append((make_tp(tp_id, kind, loc[1], line, args), loc, tp_id))
    out.count('same_location_pairs', len(locations) - len(set(locations)))
    return tps


def due(tps, ev):
    out = []
    for _, loc, tp_id in tps:
        if loc[1] != ev.base:
            continue
        if loc[0] == 'line' and ev.event == 'line' and ev.line == loc[2]:
            out.append(tp_id)
        elif loc[0] == 'method' and ev.event == 'call' and ev.func == loc[2]:
            out.append(tp_id)
    return out


def make_files(rng, tmp, silent):
    sources, files = [], []
    layout = rng.choice([['app.py'], ['a/app.py', 'b/app.py'], ['app.py', 'myapp.py'], ['p/mod.py', 'p/od.py'],
                         ['a/app.py', 'b/app.py', 'c/other.py']])
    for rel in layout:
        p = progs.generate(rng, n_funcs=rng.randrange(2, 4), size=rng.randrange(3, 8), coroutines=rng.random() < .3)
        source = p.source + (ALIKE if rng.random() < .4 else '')
        sources.append(source)
        files.append(rig.write_module(tmp, rel, source))
    return files, sources


def run_all(files, n_threads):
    """Run the programs, in the main thread and in others."""

    def one(args):
        for path in files:
            code, ns = rig.load_module(path)
            try:
                exec(code, ns)
                ns['main'](*args)
            except Exception:
                pass

    one((3, 4))
    threads = [threading.Thread(target=one, args=((t, 2),), name='worker-%d' % t) for t in range(n_threads)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


@CHECK.unit
def programs(out, rng, params):
    tmp = rig.scratch()
    for round_ in range(params['n']):
        files, sources = make_files(rng, os.path.join(tmp, str(round_)), False)
        n_threads = rng.choice([0, 0, 1, 3])
        tps = choose(rng, files, sources, out)
        if rng.random() < .1:
            # a program without any matching location
            tps = [(make_tp(t[2], 'snapshot', 'nomatch.py', 10 + i, {}), ('line', 'nomatch.py', 10 + i), t[2])
                   for i, t in enumerate(tps)]
            out.count('silent_programs')
        rig.EVENTS.clear()
        tee_mode = params['mode'] == 'tee'
        agent = rig.Agent()
        agent.install([t[0] for t in tps])
        fset = set(files)
        rec = rig.Recorder()
        if tee_mode:
            tee = rig.Tee(sys.gettrace(), rec, fset)
            tee.install()
            run_all(files, n_threads)
            tee.remove()
            agent.stop()
            out.check(not tee.raised, 'the trace function raised', raised=tee.raised[:3])
            out.count('programs_tee')
        else:
            run_all(files, n_threads)
            still = sys.gettrace()
            agent.stop()
            out.check(still is not None, 'tracing was switched off while the program was running')
            with rig.PlainTracer(rec, fset):
                run_all(files, n_threads)
            out.count('programs_plain')
        out.count('threads_run', n_threads)
        out.count('reference_events', len(rec.events))
        compare(out, tps, rec.events, effects(), tee_mode, files)


@CHECK.unit
def changing(out, rng, params):
    """The configuration changes while functions are running: every frame goes by the current configuration."""
    tmp = rig.scratch()
    for round_ in range(params['n']):
        files, sources = make_files(rng, os.path.join(tmp, str(round_)), False)
        configs = []
        for k in range(rng.randrange(2, 7)):
            r = rng.random()
            tps = [] if r < .15 else choose(rng, files, sources, out)
            if r > .6:
                only = rng.choice(sorted({os.path.basename(f) for f in files}))
                tps = [t for t in tps if t[1][1] == only]
            # there is always one, functions entered without any tracepoint are not watched
            tps.append((make_tp('elsewhere', 'log', 'nomatch.py', 7, {}), ('line', 'nomatch.py', 7), 'elsewhere'))
            configs.append([(t[0], t[1], 'c%d.%s' % (k, t[2])) for t in tps])
        for k, tps in enumerate(configs):
            for proto, _, name in tps:
                rename(proto, name)
        rig.EVENTS.clear()
        agent = rig.Agent()
        agent.install([t[0] for t in configs[0]])
        current = [0]
        changes = sorted(rng.sample(range(5, 400), len(configs) - 1))
        count = [0]

        def extra(item, frame, arg):
            count[0] += 1
            if changes and count[0] >= changes[0]:
                changes.pop(0)
                current[0] += 1
                agent.install([t[0] for t in configs[current[0]]])
                out.count('config_changes_in_flight')
            return current[0]

        rec = rig.Recorder(extra)
        tee = rig.Tee(sys.gettrace(), rec, set(files))
        tee.install()
        run_all(files, 0)
        tee.remove()
        agent.stop()
        out.check(not tee.raised, 'the trace function raised', raised=tee.raised[:3])
        inside = set()
        frames = {}
        for ev in rec.events:
            frames.setdefault(ev.inv, ev.extra)
            if ev.extra != frames[ev.inv] and due(configs[ev.extra], ev):
                inside.add((ev.inv, ev.n))
        out.count('hits_in_functions_entered_before_the_change', len(inside))
        compare(out, [t for tps in configs for t in tps], rec.events, effects(), True, files, configs)


def rename(proto, name):
    proto.ID = name
    if proto.metrics:
        proto.metrics[0].name = name
    if 'log_msg' in proto.args:
        proto.args['log_msg'] = name


def compare(out, tps, ref, seen, tee_mode, files, configs=None):
    expected = [(ev, ids) for ev in ref for ids in [due(tps if configs is None else configs[ev.extra], ev)] if ids]
    total = Counter(i for _, ids in expected for i in ids)
    kinds = {t[2]: t[1][0] for t in tps}
    out.count('line_hits_due', sum(n for i, n in total.items() if kinds[i] == 'line'))
    out.count('method_hits_due', sum(n for i, n in total.items() if kinds[i] == 'method'))
    never = [t[2] for t in tps if t[2] not in total]
    out.count('never_due_tracepoints', len(never))
    got = Counter(e[2] for e in seen)
    out.case(sorted(total.items()) + sorted(never), sample={'due': dict(total), 'never due': never},
             nontrivial=bool(total) and bool(never) or not total)
    locs = {t[2]: t[1] for t in tps}
    if not out.check(got == total, 'the number of actions differs from the number of times the location was reached',
                     missing={k: (v, locs[k]) for k, v in (total - got).items()},
                     extra={k: (v, locs.get(k)) for k, v in (got - total).items()}):
        return
    if tee_mode:
        want = Counter((ev.n, i) for ev, ids in expected for i in ids)
        have = Counter((e[1][1] if e[1] else None, e[2]) for e in seen)
        out.check(want == have, 'an action happened at another event than the one that reaches its location',
                  missing=list((want - have).items())[:5], extra=list((have - want).items())[:5])
        return
    # in order, per thread
    for tname in sorted({ev.tname for ev, _ in expected} | {e[0] for e in seen}):
        want = [sorted(ids) for ev, ids in expected if ev.tname == tname]
        have = [e[2] for e in seen if e[0] == tname]
        pos = 0
        for k, ids in enumerate(want):
            chunk = sorted(have[pos:pos + len(ids)])
            if not out.check(chunk == ids, 'the order of the actions differs from the order of the program',
                             thread=tname, at=k, want=ids, have=chunk):
                break
            pos += len(ids)
        out.check(len(have) == sum(map(len, want)), 'actions on a thread that did not reach the location',
                  thread=tname)


@CHECK.planner
def plan(tier, seed):
    n = 24 if tier == 'quick' else 200
    return core.spread('programs', n, seed, mode='tee', n=6) + core.spread('programs', n, seed + 7, mode='plain', n=6) + \
        core.spread('changing', n, seed + 13, n=6)


if __name__ == '__main__':
    sys.exit(CHECK.main())
