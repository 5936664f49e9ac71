"""C15: deferred work is completed exactly once, in the invocation and on the thread that began it."""
import itertools
import os
import queue
import sys
import threading
import time
from dis import opname
from collections import Counter, defaultdict

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, progs, rig  # noqa: E402

CHECK = core.Check(
    'C15', 'exploration',
    'A case is one run of a program (about fifty hand-written shapes of recursion, exceptions, generators, coroutines, '
    'finalizers and callbacks, or a generated program) on one or more threads, with a random set of span tracepoints and '
    'capturing snapshots on its lines and functions, nested and on the same locations. Another trace function records the '
    'events, and sys.monitoring records what every invocation returned, yielded or raised. Every opening has to be closed '
    'exactly once by the same thread, at a later event of the same invocation and not after its end; every hit of a '
    'capture has to deliver exactly one snapshot with the recorded result of its own invocation. Non-trivial: at least '
    'two openings were pending at the same time on one thread. Distinct by (openings per tracepoint and depth).',
    ['CPython 3.12 delivers sys.settrace and sys.monitoring events as documented; the suspension of a generator or '
     'coroutine ends the running piece of it'],
    required=['spans_opened', 'captures', 'captured_returns', 'captured_exceptions', 'nested_openings', 'threads_run',
              'recursive_openings', 'method_spans', 'line_spans', 'generator_pieces', 'failing_closes', 'failing_pushes',
              'config_changes', 'reused_threads', 'identical_locations'])

UNLIMITED = {'fire_count': '-1', 'fire_period': '0'}
HERE = os.path.dirname(os.path.abspath(__file__))
SHAPES = os.path.join(os.path.dirname(HERE), 'harness', 'spanshapes.py')


class Truth:
    """What sys.monitoring says about the end of every invocation."""

    TOOL = 3

    def __init__(self, files):
        self.files = files
        self.last = threading.local()
        self.missed = 0

    def install(self):
        mon = sys.monitoring
        events = mon.events
        mon.use_tool_id(self.TOOL, 'truth')
        for name in ('PY_RETURN', 'PY_YIELD', 'PY_UNWIND'):
            mon.register_callback(self.TOOL, getattr(events, name), self.callback(name))
        mon.set_events(self.TOOL, events.PY_RETURN | events.PY_YIELD | events.PY_UNWIND)

    def remove(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)

    def callback(self, name):
        def fn(code, offset, value):
            if code.co_filename in self.files:
                # the trace function got the same event just before
                item = getattr(self.last, 'value', None)
                if item is not None and item.extra == code:
                    item.extra = (name, value)
                    self.last.value = None
                else:
                    self.missed += 1
        return fn

    def extra(self, item, frame, arg):
        if item.event == 'return':
            self.last.value = item
            return frame.f_code
        if item.event == 'exception':
            return arg[1]
        if item.event == 'line':
            return opname[frame.f_code.co_code[frame.f_lasti]]
        return None


def span(tp_id, base, line, method, args=()):
    a = dict(UNLIMITED, snapshot='no_collect', span='method' if method else 'line', **dict(args))
    if method:
        a['method_name'] = method
    return rig.tp(tp_id, base, line, a)


def capture(tp_id, base, line, method, args=()):
    a = dict(UNLIMITED, frame_type='no_frame', stage='method_capture' if method else 'line_capture', **dict(args))
    if method:
        a['method_name'] = method
    return rig.tp(tp_id, base, line, a)


def text(v):
    """The type and the text of a collected value; None: not to be compared."""
    if isinstance(v, (list, tuple, set, frozenset, dict)):
        return type(v).__name__, None
    if v is None or isinstance(v, (int, float, str)):
        return type(v).__name__, str(v)
    if isinstance(v, BaseException):
        return type(v).__name__, str(v)
    return type(v).__name__, None


def shown(snapshot, watch):
    if watch.result is None:
        return None
    variable = snapshot.var_lookup[watch.result.vid]
    if watch.expression == 'exception':
        kids = [snapshot.var_lookup[c.vid] for c in variable.children]
        if len(kids) < 2:
            return None
        variable = kids[1]
    return variable.type, variable.value


class Judge:
    def __init__(self, out, tps, events, what):
        self.out = out
        self.what = what
        self.kinds = {tp_id: (kind, base, line, method) for tp_id, kind, base, line, method in tps}
        self.by_inv = defaultdict(list)
        self.events = events
        for e in sorted(events, key=lambda e: e.n):
            self.by_inv[e.inv].append(e)
        self.by_n = {e.n: e for e in events}

    def due(self):
        """(tp_id, event) of every hit."""
        lines, methods = defaultdict(list), defaultdict(list)
        for tp_id, (kind, base, line, method) in self.kinds.items():
            (methods[(base, method)] if method else lines[(base, line)]).append((tp_id, kind))
        for e in self.events:
            if e.event == 'line':
                for tp_id, kind in lines.get((e.base, e.line), ()):
                    yield tp_id, kind, e
            elif e.event == 'call':
                for tp_id, kind in methods.get((e.base, e.func), ()):
                    yield tp_id, kind, e

    def end_of(self, e):
        """The end of the piece of the invocation in which this event is: its next return event."""
        for x in self.by_inv[e.inv]:
            if x.n > e.n and x.event == 'return':
                return x
        return None

    def window(self, opened, at, tname, kind, tp_id):
        """An opening at an event has to end at `at`: (invocation, number)."""
        out = self.out
        where = {'tp': tp_id, 'location': self.kinds[tp_id][1:], 'opened': opened, 'closed': self.by_n.get(at[1]) if at else at,
                 'run': self.what}
        if not out.check(tname == opened.tname, 'a %s is completed by another thread' % kind, thread=tname, **where):
            return False
        if not out.check(at is not None, 'a %s is completed outside of the program that opened it' % kind, **where):
            return False
        end = self.end_of(opened)
        if end is None:
            return True
        after = [x for x in self.by_inv[opened.inv] if opened.n < x.n <= at[1]]
        ok = out.check(at[1] > opened.n and after, 'a %s is completed before the program moved on' % kind, end=end, **where)
        ok = out.check(at[1] <= end.n, 'a %s is completed after the end of the invocation' % kind, end=end, **where) and ok
        ok = out.check(at[0] == opened.inv, 'a %s is completed in another invocation' % kind, end=end, **where) and ok
        if self.kinds[tp_id][3]:
            # this is the work of the whole invocation
            ok = out.check(not [x for x in self.by_inv[opened.inv] if at[1] < x.n <= end.n and x.event == 'line'],
                           'a %s for a method is completed while the method runs' % kind, end=end, **where) and ok
        return ok

    def spans(self, opens, closes, due, processors=1):
        out = self.out
        closed = defaultdict(list)
        for c in closes:
            closed[c['span']].append(c)
        out.count('spans_opened', len(opens))
        want = Counter((tp_id, e.n) for tp_id, kind, e in due if kind == 'span' for _ in range(processors))
        have = Counter((o['tp'], o['hit'][1] if o['hit'] else None) for o in opens)
        if not out.check(want == have, 'the opened spans are not those of the program', missing=list((want - have))[:5],
                         extra=list((have - want))[:5], run=self.what):
            return
        for o in opens:
            e = self.by_n[o['hit'][1]]
            got = closed.pop(o['span'], [])
            out.count('method_spans' if self.kinds[o['tp']][3] else 'line_spans')
            if not out.check(len(got) == 1, 'a span is closed %s' % ('never' if not got else '%d times' % len(got)), opened=e,
                             tp=o['tp'], location=self.kinds[o['tp']][1:], run=self.what,
                             end=self.end_of(e), events=self.by_inv[e.inv][:30]):
                continue
            self.window(e, got[0]['hit'], got[0]['tname'], 'span', o['tp'])
        out.check(not closed, 'spans are closed that were not opened', spans=list(closed)[:5])

    def captures(self, pushes, due):
        out = self.out
        wanted = [(tp_id, e) for tp_id, kind, e in due if kind == 'capture']
        out.count('captures', len(wanted))
        by_key = defaultdict(list)
        for p in pushes:
            by_key[(p['tp'], p['hit'][0] if p['hit'] else None)].append(p)
        hits = defaultdict(list)
        for tp_id, e in wanted:
            hits[(tp_id, e.inv)].append(e)
        for key in sorted(set(by_key) - set(hits), key=repr):
            out.violation('a captured snapshot is completed in an invocation without a hit', tp=key[0], run=self.what,
                          completed=self.by_n.get(by_key[key][0]['hit'][1]) if by_key[key][0]['hit'] else None)
        for key, opened in hits.items():
            got = sorted(by_key.get(key, []), key=lambda p: p['seq'])
            if not out.check(len(got) == len(opened), 'the number of captured snapshots of an invocation is wrong',
                             tp=key[0], location=self.kinds[key[0]][1:], hits=opened, got=len(got), run=self.what,
                             events=self.by_inv[key[1]][:30]):
                continue
            for e, p in zip(sorted(opened, key=lambda e: e.n), got):
                if self.window(e, p['hit'], p['tname'], 'capture', key[0]):
                    self.result(e, p)

    def known(self, opened, at, ended, expression, got):
        if ended is None or ended[0] != 'PY_UNWIND':
            return None
        before = [text(x.extra) for x in self.events if x.event == 'exception' and x.n < opened.n]
        if opened.event == 'line' and opened.extra == 'PUSH_EXC_INFO' and \
                (expression == 'return' and got == ('NoneType', 'None') or
                 expression == 'exception' and got != text(ended[1]) and got in before):
            return ('with-line-in-flight', 'a capture that begins on the with line that an exception passes')
        if expression == 'exception':
            # raised (and handled) while the real one was handled
            later = [x.extra for x in self.by_inv[opened.inv] if x.event == 'exception' and x.n < at.n]
            if any(text(x) == got and x is not ended[1] and x.__context__ is ended[1] for x in later):
                return ('handled-in-cleanup', 'an exception that was handled last in the cleanup is captured')
        return None

    def result(self, opened, p):
        out = self.out
        snapshot = p['snapshot']
        watches = [w for w in snapshot.watches if w.source == 'CAPTURE']
        at = self.by_n[p['hit'][1]]
        method = self.kinds[p['tp']][3]
        where = {'tp': p['tp'], 'opened': opened, 'completed': at, 'run': self.what,
                 'watches': [(w.expression, shown(snapshot, w)) for w in watches]}
        if not out.check(len(watches) <= 1, 'more than one captured result', **where):
            return
        if not watches:
            out.check(not method and at.event == 'line', 'the captured result is missing', **where)
            return
        w = watches[0]
        got = shown(snapshot, w)
        end = self.end_of(opened)
        ended = end.extra if end is not None else None
        known = self.known(opened, at, ended, w.expression, got)
        if known:
            out.known_finding(*known)
        elif w.expression == 'exception':
            out.count('captured_exceptions')
            if method:
                if out.check(ended[0] == 'PY_UNWIND', 'an exception is captured for an invocation that returned',
                             real=ended, **where):
                    out.check(got == text(ended[1]) or got is None, 'the captured exception is not the one of the invocation',
                              real=ended, **where)
            else:
                raised = [text(x.extra) for x in self.by_inv[opened.inv] if opened.n < x.n <= at.n and x.event == 'exception']
                if ended[0] == 'PY_UNWIND':
                    raised.append(text(ended[1]))
                out.check(got in raised or got is None, 'the captured exception is not the one of the invocation',
                          real=raised, **where)
        else:
            out.count('captured_returns')
            if out.check(w.expression == 'return' and ended[0] != 'PY_UNWIND' and at is end,
                         'a returned value is captured for an invocation that raised (or still runs)', real=ended,
                         events=self.by_inv[opened.inv][:40], **where):
                want = text(ended[1])
                out.check(got is not None and (got == want or want[1] is None and got[0] == want[0]),
                          'the captured value is not the one of the invocation', real=ended, **where)


def overlaps(opens, closes):
    """(how many openings had others pending on their thread, the largest number of pending ones)"""
    events_ = sorted([(o['seq'], 1, o['thread']) for o in opens] + [(c['seq'], -1, c['thread']) for c in closes])
    depth, nested, most = Counter(), 0, 0
    for _, d, thread in events_:
        depth[thread] += d
        if d > 0 and depth[thread] > 1:
            nested += 1
        most = max(most, depth[thread])
    return nested, most


def run(out, what, files, tps, protos, program, agent_hook=None, faults=None):
    rig.EVENTS.clear()
    rig.FAULTS.clear()
    rig.FAULTS.update(faults or {})
    processors = 2 if faults or len(tps) % 2 else 1
    agent = rig.Agent(plugins=('RecLogger', 'RecSpans', 'RecSpansB')[:1 + processors])
    agent.install(protos)
    if agent_hook is not None:
        agent_hook(agent)
    truth = Truth(files)
    rec = rig.Recorder(truth.extra)
    tee = rig.Tee(sys.gettrace(), rec, files)
    truth.install()
    tee.install()
    try:
        program()
    finally:
        tee.remove()
        truth.remove()
    seen = list(rig.EVENTS)
    agent.stop()
    rig.FAULTS.clear()
    out.check(not tee.raised, 'the trace function raised', raised=tee.raised[:3])
    incomplete = [e for e in rec.events if e.event == 'return' and not isinstance(e.extra, tuple)]
    if incomplete:
        raise core.Inconclusive('no result is known for %s (%d)' % (incomplete[:3], len(incomplete)))
    judge = Judge(out, tps, rec.events, what)
    due = list(judge.due())
    opens = [d for k, d in seen if k == 'span_open']
    closes = [d for k, d in seen if k == 'span_close']
    pushes = [d for k, d in seen if k == 'push']
    judge.spans(opens, closes, due, processors)
    judge.captures(pushes, due)
    nested, most = overlaps(opens, closes)
    out.count('nested_openings', nested)
    out.high('max_pending_on_a_thread', most)
    out.count('generator_pieces', sum(1 for e in rec.events if e.event == 'return' and e.extra[0] == 'PY_YIELD'))
    stacks = defaultdict(Counter)
    for e in rec.events:
        if e.event == 'call':
            stacks[e.tname][e.func] += 1
        elif e.event == 'return':
            stacks[e.tname][e.func] -= 1
    per_tp = Counter(tp_id for tp_id, _, _ in due)
    out.case((sorted(per_tp.values()), nested, most, [p[1:] for p in tps][:6]),
             {'program': what, 'openings': len(opens), 'captures': len(pushes), 'nested': nested}, nested > 0)
    return agent


def choose(rng, out, base, lines, functions, n):
    tps, protos = [], []
    locations = []
    for i in range(n):
        if locations and rng.random() < .2:
            line, method = rng.choice(locations)
            out.count('identical_locations')
        elif rng.random() < .5:
            line, method = rng.choice(lines), None
        else:
            line, method = rng.choice([0, rng.choice(lines)]), rng.choice(functions)
        locations.append((line, method))
        kind = rng.choice(['span', 'capture'])
        tp_id = '%s-%d-%s' % (kind, i, method or line)
        tps.append((tp_id, kind, base, line, method))
        extra = rng.choice([{}, {}, {'log_msg': 'x {1+1}'}]) if kind == 'capture' else {}
        protos.append((span if kind == 'span' else capture)(tp_id, base, line, method, extra))
        if extra:
            protos[-1].args['log_msg'] = extra['log_msg']
    return tps, protos


def shapes_module(tmp, n):
    with open(SHAPES) as f:
        source = f.read()
    path = rig.write_module(os.path.join(tmp, 'd%d' % n), 'shapes.py', source)
    code, ns = rig.load_module(path)
    return source, path, code, ns


def faults_of(rng, out):
    if rng.random() < .7:
        return None

    def fail(data):
        if data['span'] % 2:
            out.count('failing_closes')
            raise RuntimeError('close failed')

    def fail_push(snapshot):
        if rng.random() < .5:
            out.count('failing_pushes')
            raise RuntimeError('push failed')

    return rng.choice([{'span_close': fail}, {'push': fail_push}, {'span_close': fail, 'push': fail_push}])


@CHECK.unit
def shapes(out, rng, params):
    """One thread, all shapes, many tracepoints."""
    tmp = rig.scratch()
    end = time.monotonic() + params['seconds']
    for n in itertools.count():
        if time.monotonic() > end or out.violations:
            return
        source, path, code, ns = shapes_module(tmp, n)
        exec(code, ns)
        owners = progs.lines_of(source)
        first = source[:source.index('def unique')].count('\n')
        lines = [l for l in sorted(owners) if l > first and owners[l] not in ('<module>', 'main', 'one')]
        functions = sorted({owners[l] for l in lines}) + ['<lambda>']
        tps, protos = choose(rng, out, 'shapes.py', lines, functions, rng.choice([3, 10, 40, 120]))
        calls = len(ns['CALLS'])
        order = [rng.randrange(calls) for _ in range(calls)] if rng.random() < .5 else list(range(calls))
        out.count('recursive_openings', sum(1 for t in tps if t[4] in ('recursion', 'twice', 'run', 'inner', 'recursion_handled')))
        run(out, ['shapes', [t[0] for t in tps][:12]], {path}, tps, protos, lambda: ns['main'](order), faults=faults_of(rng, out))


@CHECK.unit
def single(out, rng, params):
    """Each location of the shapes on its own: a span and a capture."""
    tmp = rig.scratch()
    source, path, code, ns = shapes_module(tmp, 0)
    exec(code, ns)
    owners = progs.lines_of(source)
    first = source[:source.index('def unique')].count('\n')
    lines = [l for l in sorted(owners) if l > first and owners[l] not in ('<module>', 'main', 'one')]
    functions = sorted({owners[l] for l in lines}) + ['<lambda>']
    locations = [(l, None) for l in lines] + [(0, f) for f in functions]
    for i, (line, method) in enumerate(locations):
        if i % params['of'] != params['part'] or out.violations:
            continue
        tps = [('s', 'span', 'shapes.py', line, method), ('c', 'capture', 'shapes.py', line, method)]
        protos = [span('s', 'shapes.py', line, method), capture('c', 'shapes.py', line, method)]
        run(out, ['single', line, method], {path}, tps, protos, lambda: ns['main'](range(len(ns['CALLS']))))
        out.count('single_locations')


@CHECK.unit
def generated(out, rng, params):
    tmp = rig.scratch()
    end = time.monotonic() + params['seconds']
    for n in itertools.count():
        if time.monotonic() > end or out.violations:
            return
        p = progs.generate(rng, n_funcs=rng.randrange(2, 5), size=rng.randrange(3, 9), coroutines=rng.random() < .5)
        rels = rng.choice([['app.py'], ['a/app.py', 'b/app.py']])
        files = [rig.write_module(os.path.join(tmp, str(n)), rel, p.source) for rel in rels]
        owners = progs.lines_of(p.source)
        lines = sorted(owners)
        functions = sorted(set(owners.values()) - {'<module>'})
        tps, protos = choose(rng, out, 'app.py', lines, functions, rng.choice([2, 6, 20, 60]))

        def one(args):
            spaces = []
            for path in files:
                code, ns = rig.load_module(path)
                if spaces:
                    # the functions of one file call those of the other one
                    ns['main_of_the_other'] = spaces[-1]['main']
                exec(code, ns)
                spaces.append(ns)
                try:
                    ns['main'](*args)
                except Exception:
                    pass

        threads = rng.choice([0, 0, 2, 4])

        def program():
            one((3, 4))
            ts = [threading.Thread(target=one, args=((t, 2),), name='worker-%d-%d' % (n, t)) for t in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()

        out.count('threads_run', threads)
        run(out, ['generated', n, threads], set(files), tps, protos, program, faults=faults_of(rng, out))


@CHECK.unit
def threaded(out, rng, params):
    """Many threads in the same functions; threads that end and others that get their identity; worker threads."""
    tmp = rig.scratch()
    end = time.monotonic() + params['seconds']
    for n in itertools.count():
        if time.monotonic() > end or out.violations:
            return
        source, path, code, ns = shapes_module(tmp, n)
        exec(code, ns)
        owners = progs.lines_of(source)
        first = source[:source.index('def unique')].count('\n')
        lines = [l for l in sorted(owners) if l > first and owners[l] not in ('<module>', 'main', 'one')]
        functions = sorted({owners[l] for l in lines})
        tps, protos = choose(rng, out, 'shapes.py', lines, functions, rng.choice([10, 40]))
        names = itertools.count()
        orders = [[rng.randrange(1000) for _ in range(rng.choice([3, 10]))] for _ in range(12)]
        mode = rng.choice(['together', 'after each other', 'workers', 'nested', 'die'])
        idents = []

        def work(i):
            idents.append(threading.get_ident())
            ns['main'](orders[i])

        def dies(i):
            idents.append(threading.get_ident())
            ns['main'](orders[i])
            ns['unwound_deep'](2)

        def nested(i):
            t = threading.Thread(target=work, args=(i,), name='inner-%d-%d' % (n, next(names)))
            t.start()
            ns['main'](orders[i][:2])
            t.join()

        def program():
            old = threading.excepthook
            threading.excepthook = lambda *a: None
            interval = sys.getswitchinterval()
            sys.setswitchinterval(rng.choice([interval, 1e-5]))
            try:
                if mode == 'workers':
                    todo = queue.Queue()
                    for i in range(12):
                        todo.put(i)

                    def worker():
                        while True:
                            try:
                                i = todo.get_nowait()
                            except queue.Empty:
                                return
                            work(i)
                    ts = [threading.Thread(target=worker, name='worker-%d-%d' % (n, i)) for i in range(3)]
                else:
                    fn = {'nested': nested, 'die': dies}.get(mode, work)
                    ts = [threading.Thread(target=fn, args=(i,), name='t-%d-%d' % (n, i)) for i in range(8)]
                for t in ts:
                    t.start()
                    if mode in ('after each other', 'die'):
                        t.join()
                for t in ts:
                    t.join()
            finally:
                sys.setswitchinterval(interval)
                threading.excepthook = old

        run(out, ['threads', mode, [t[0] for t in tps][:10]], {path}, tps, protos, program, faults=faults_of(rng, out))
        out.count('threads_run', len(idents))
        out.count('reused_threads', len(idents) - len(set(idents)))


@CHECK.unit
def changes(out, rng, params):
    """The configuration changes (or becomes empty) while work is pending."""
    tmp = rig.scratch()
    end = time.monotonic() + params['seconds']
    for n in itertools.count():
        if time.monotonic() > end or out.violations:
            return
        source, path, code, ns = shapes_module(tmp, n)
        exec(code, ns)
        owners = progs.lines_of(source)
        first = source[:source.index('def unique')].count('\n')
        lines = [l for l in sorted(owners) if l > first and owners[l] not in ('<module>', 'main', 'one')]
        functions = sorted({owners[l] for l in lines})
        holder = []
        tps, protos = choose(rng, out, 'shapes.py', lines, functions, 40)
        # `unique` is called from within most of the others
        plan = {rng.randrange(60): rng.choice(['none', 'all', 'half']) for _ in range(rng.choice([1, 2, 4]))}
        calls = itertools.count()
        unique = ns['unique']

        def changing():
            what = plan.get(next(calls))
            if what is not None:
                out.count('config_changes')
                # (this file is not part of the program)
                from deep.config.tracepoint_config import ConfigUpdateListener  # noqa: F401
                agent = holder[0]
                tracer = sys.gettrace()
                sys.settrace(None)
                agent.install(protos if what == 'all' else [] if what == 'none' else protos[::2])
                sys.settrace(tracer)
            return unique()

        ns['unique'] = changing
        rig.EVENTS.clear()
        agent = rig.Agent()
        holder.append(agent)
        agent.install(protos)
        truth = Truth({path})
        rec = rig.Recorder(truth.extra)
        tee = rig.Tee(sys.gettrace(), rec, {path})
        truth.install()
        tee.install()
        try:
            ns['main']([rng.randrange(1000) for _ in range(30)])
        finally:
            tee.remove()
            truth.remove()
        seen = list(rig.EVENTS)
        agent.stop()
        judge = Judge(out, tps, rec.events, ['changes', plan])
        # which ones are hit depends on the configuration, so only what was opened is judged
        opens = [d for k, d in seen if k == 'span_open']
        closes = [d for k, d in seen if k == 'span_close']
        due = [(o['tp'], 'span', judge.by_n[o['hit'][1]]) for o in opens]
        judge.spans(opens, closes, due)
        out.case(('changes', sorted(plan.items()), len(opens)), {'plan': plan}, len(opens) > 0)


@CHECK.planner
def plan(tier, seed):
    if tier == 'quick':
        return core.spread('shapes', 6, seed, seconds=12) + core.spread('generated', 4, seed, seconds=12) + \
            core.spread('threaded', 4, seed, seconds=12) + core.spread('changes', 2, seed, seconds=8) + \
            [('single', {'part': i, 'of': 8}) for i in range(8)]
    return core.spread('shapes', 24, seed, seconds=60) + core.spread('generated', 16, seed, seconds=60) + \
        core.spread('threaded', 16, seed, seconds=60) + core.spread('changes', 8, seed, seconds=60) + \
        [('single', {'part': i, 'of': 8}) for i in range(8)]


if __name__ == '__main__':
    sys.exit(CHECK.main())
