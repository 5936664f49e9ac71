"""C16: log tracepoints emit the template with every field evaluated in place."""
import itertools
import logging
import os
import re
import sys
import threading
import time
from collections import defaultdict

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, extra, model, rig  # noqa: E402
from harness.scenes import FAILING, SOURCE, SYNTAX, program  # noqa: E402

CHECK = core.Check(
    'C16', 'exploration',
    'A case is one run of a generated program with log tracepoints whose templates are built from a known list of parts '
    '(literal text with and without brackets, fields with names, attributes, items, calls, operators, strings that contain '
    'template characters, and failing expressions of many kinds). Another trace function evaluates the fields in the same '
    'frame at the same event; the message that the tracepoint logger got has to be the concatenation of the parts, with '
    'the ids of the tracepoint and of the trigger in their own places, once per permitted hit, and equal to the message on '
    'the snapshot (in process and on the wire), which has one watch result per field. Non-trivial: at least one field. '
    'Distinct by (kinds of the parts, mode).',
    ['format specs and conversions of a field are not part of the statement; a placeholder for a value that has no string '
     'form is not compared'],
    required=['messages', 'fields', 'failing_fields', 'escaped_brackets', 'snapshots_with_log', 'wire_logs', 'plain_templates',
              'evaluated_once', 'limited_tracepoints', 'context_ids', 'python_logger_records', 'no_logger_runs', 'threads_run',
              'method_hits', 'syntax_errors', 'long_values', 'unbalanced'])

UNLIMITED = {'fire_count': '-1', 'fire_period': '0'}

LITERALS = ['value', ' ', 'a=', ': ', ', ', '%s', '%d %(x)s', '100%', '\n', '\t', "it's", '"quoted"', '\\n', '\\',
            '[deep] ', 'h\u00e9 \u4e2d \U0001f600', '!r', ':>10', '$x ${y}', '#', 'x' * 200, 'name', '.', '[0]', '()', "''",
            '<b>&amp;</b>', '\x00', '%', 'ctx=1 tracepoint=2', '\r\n', '\u2028']
BRACKETS = ['{', '}', '{}', '{x}', '}{', '{{', '}}', '{{x}}', '{0!r:>10}', '{ }', 'a{b', 'c}d', '{"a": 1}']

# expression, kind
FIELDS = ['a', 'b', 'text', 'items', 'mapping', 'obj', 'point', 'none', 'flag', 'a + b', 'a * 2', 'a - 1', 'a // 2', 'a % 2',
          'a == 1', 'a != 1', 'a < b', 'a >= b', 'a <= b', 'not flag', 'flag and a', 'a if flag else b', 'items[0]',
          'items[-1]', 'items[1:]', 'items[::2]', 'items[a:b]', 'mapping["k"]', "mapping['k']", "mapping['k'][0]",
          'mapping.get("nope")', 'mapping.get("nope", "default")', 'point.x', 'point.y', 'obj.name', 'obj.child.name',
          'obj.method(1)', 'obj.method(a, k=2)', 'len(items)', 'str(a)', 'repr(text)', 'sum(items)', 'text.upper()',
          'text.split()[0]', '"%s-%s" % (a, b)', "'{}'.format(a)", '"{a}"', "'}'", "'{'", "'}{'", '"{{}}"', "f'{a}'",
          'f"{a}:{b!r:>4}"', '(a, b)', '[a, b]', '[i for i in items]', '[i for i in items if i != a]',
          'sorted(items, key=lambda v: -v)', '(lambda v: v + 1)(a)', 'dict(k=a)', ' {"k": a}["k"]', ' {"k": {"n": b}}["k"]["n"]',
          ' {a, b} - {a}', 'list(map(str, items))', '"a:b"', "'a!r'", 'a in items', 'a is None', 'type(a).__name__', 'G',
          'G_LIST[0]', 'helper(a)', 'big', 'brackets', 'percent', '"\\n"', "'\\''", "'it\\'s'", '"""triple"""', '0', '1.5', '-1',
          'None', 'True', '0x10', '1_000', '...', 'any(i == a for i in items)', 'max(a, b)', '~a', 'a ** 2', 'a or b',
          'obj', 'stamp()', 'stamp()', '"x" + stamp()', 'a ', ' a', ' a + b ', 'print', 'Point', 'closed', 'error', 'data',
          'nested["a"]["b"][1]["c"]', 'globals()["G"]', '"\u4e2d"', 'n\u00e4me', 'int.from_bytes(b"\\x01", "big")',
          '__name__', '"!="', 'a!=b', "a=='x:y'", 'items[1 if flag else 0]', 'mapping["a:b"]', 'mapping["{"]', "mapping['}']",
          'str(items)[0:3]', 'isinstance(a, int)', '"a" "b"', '(lambda: 1)()', 'colored.RED', 'colored(1).name', 'Text("sub")',
          'once']


def template(rng, out):
    """Parts: ('text', text) or ('field', expression, kind)."""
    parts = []
    for _ in range(rng.choice([1, 2, 3, 5, 9])):
        r = rng.random()
        if r < .35:
            parts.append(('text', rng.choice(LITERALS)))
        elif r < .5:
            parts.append(('text', rng.choice(BRACKETS)))
            out.count('escaped_brackets')
        elif r < .85:
            parts.append(('field', rng.choice(FIELDS), 'value'))
        elif r < .95:
            parts.append(('field', rng.choice(FAILING), 'fails'))
        else:
            parts.append(('field', rng.choice(SYNTAX), 'syntax'))
            out.count('syntax_errors')
    return parts


def written(parts):
    text = ''
    for p in parts:
        text += p[1].replace('{', '{{').replace('}', '}}') if p[0] == 'text' else '{%s}' % p[1]
    return text


def ambiguous(parts):
    """A bracket of a field next to an escaped one, or to one of the expression, cannot be told apart."""
    for p in parts:
        if p[0] != 'field':
            continue
        if p[1][:1] in '{}' and p[1] or p[1][-1:] in '{}' and p[1]:
            return True
    return False


class Log:
    """A log tracepoint."""

    def __init__(self, out, rng, tp_id, base, line, fn, tmp_limit=True):
        self.id = tp_id
        while True:
            self.parts = template(rng, out)
            # quotes of a failing field can reach into what follows; this is not the grammar of the statement
            if not ambiguous(self.parts) and not (any(p[-1] == 'syntax' for p in self.parts) and any(
                    p[0] == 'text' and re.search('["\'{}]', p[1]) for p in self.parts)):
                break
        self.text = written(self.parts)
        self.collects = rng.random() < .5
        self.args = dict(UNLIMITED, log_msg=self.text)
        self.limit = None
        if tmp_limit and rng.random() < .2:
            self.limit = rng.choice([1, 2])
            self.args['fire_count'] = str(self.limit)
            out.count('limited_tracepoints')
        self.method = None
        if fn is not None and rng.random() < .15:
            self.method = fn
            self.args['method_name'] = fn
            if rng.random() < .5:
                self.args['stage'] = 'method_start'
        elif rng.random() < .3:
            self.args['stage'] = 'line_start'
        if not self.collects:
            self.args['snapshot'] = 'no_collect'
        elif rng.random() < .5:
            self.args['frame_type'] = rng.choice(['no_frame', 'all_frame', 'single_frame'])
        self.watches = rng.choice([[], [], ['a'], ['undefined', 'b', 'a']]) if self.collects else []
        self.line = line
        self.base = base
        if not self.text.strip():
            self.parts = [('text', 'x')]
            self.text = self.args['log_msg'] = 'x'
        if not any(p[0] == 'field' for p in self.parts):
            out.count('plain_templates')

    def proto(self):
        return rig.tp(self.id, self.base, 0 if self.method else self.line, self.args, self.watches)

    def at(self, event, frame):
        if os.path.basename(frame.f_code.co_filename) != self.base:
            return False
        if self.method:
            return event == 'call' and frame.f_code.co_name == self.method
        return event == 'line' and frame.f_lineno == self.line


class Expect:
    """What the fields are at one event."""

    def __init__(self, log, frame, out):
        self.values = []
        self.stamps = 0
        scope = dict(frame.f_globals)
        scope.update(model.locals_of(frame))
        for p in log.parts:
            if p[0] == 'text':
                continue
            expression = p[1]
            if 'stamp()' in expression:
                # evaluating this twice would be noticed
                self.stamps += 1
                self.values.append(('stamp', expression))
                continue
            try:
                value = eval(compile(expression.strip(' \t'), '<expected>', 'eval'), scope)
            except SyntaxError:
                self.values.append(('syntax', None))
                continue
            except BaseException as e:
                self.values.append(('error', str(e)))
                continue
            if len(str(value)) > 1024:
                out.count('long_values')
            self.values.append(('value', str(value), type(value).__name__))


def match(log, expect, message, errors):
    """The reason why the message is not the expected one."""
    pattern = [re.escape('[deep] ')]
    values_ = iter(expect.values)
    errors = iter(errors)
    for p in log.parts:
        if p[0] == 'text':
            pattern.append(re.escape(p[1]))
            continue
        v = next(values_)
        error = next(errors, None)
        if v[0] in ('value', 'error'):
            pattern.append(re.escape(v[1]))
        elif v[0] == 'stamp':
            pattern.append('x?S[0-9]+;')
        else:
            # the text of a syntax error is that of the interpreter
            pattern.append(re.escape(error) if error else '.+')
    return re.fullmatch(''.join(pattern), message, re.DOTALL) is not None


def judge_snapshot(out, log, expect, snapshot, message, where):
    out.count('snapshots_with_log')
    fields = [p for p in log.parts if p[0] == 'field']
    out.check(snapshot.log_msg == message, 'the log message on the snapshot is not the logged one', snapshot=snapshot.log_msg,
              logged=message, **where)
    watches = [w for w in snapshot.watches if w.source == 'LOG']
    other = [w for w in snapshot.watches if w.source == 'WATCH']
    out.check([w.expression for w in other] == log.watches, 'the watches of the tracepoint are not those configured',
              got=[w.expression for w in other], want=log.watches, **where)
    out.check(len(watches) + len(other) == len(snapshot.watches), 'the snapshot has other watch results',
              sources=[w.source for w in snapshot.watches], **where)
    if not out.check(len(watches) == len(fields), 'the snapshot does not have one watch result per field',
                     got=[w.expression for w in watches], want=[p[1] for p in fields], **where):
        return
    for w, p, v in zip(watches, fields, expect.values):
        out.check(w.expression.strip() == p[1].strip(), 'a watch result is not that of its field', got=w.expression, want=p[1],
                  **where)
        if w.error == 'Max variables reached' and len(snapshot.var_lookup) >= 500:
            # the limits of a collection are those of another property
            out.count('over_the_limit')
            continue
        if v[0] == 'error':
            out.check(w.result is None and w.error == v[1], 'the watch result of a failing field is not its error', got=w.error,
                      want=v[1], field=p[1], **where)
        elif v[0] == 'syntax':
            out.check(w.result is None and bool(w.error), 'a field that is no expression has no error', field=p[1], **where)
        elif out.check(w.result is not None and w.error is None, 'the watch result of a field is an error', error=w.error,
                       field=p[1], **where) and v[0] == 'value':
            variable = snapshot.var_lookup.get(w.result.vid)
            if out.check(variable is not None, 'the value of a field is not on the snapshot', field=p[1], **where):
                ok = variable.type == v[2]
                if v[2] in ('str', 'int', 'float', 'bool', 'Thing', 'Point', 'NoneType', 'bytes', 'Text'):
                    ok = ok and variable.value == v[1][:1024]
                out.check(ok, 'the watch result of a field is not its value', type=variable.type, value=variable.value, want=v,
                          field=p[1], **where)


def errors_of(snapshot):
    return [w.error for w in snapshot.watches if w.source == 'LOG']


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.texts = []

    def emit(self, record):
        self.texts.append((record.levelname, record.getMessage()))


@CHECK.unit
def templates(out, rng, params):
    tmp = rig.scratch()
    end = time.monotonic() + params['seconds']
    for n in itertools.count():
        if time.monotonic() > end or out.violations:
            return
        source, marks = program(rng, rng.choice([2, 5]))
        path = rig.write_module(os.path.join(tmp, str(n)), 'logged.py', source)
        code, ns = rig.load_module(path)
        exec(code, ns)
        logs = []
        for i in range(rng.choice([1, 4, 12])):
            line, fn = rng.choice(marks)
            logs.append(Log(out, rng, rng.choice(['tp-%d', 'log-%d-\u00e9', '%d', 'a b %d'] ) % i, 'logged.py', line, fn))
        mode = rng.choice(['recorder', 'recorder', 'recorder', 'python', 'both', 'none', 'two'])
        rig.EVENTS.clear()
        extra.reset({'Extra0': {'kinds': ('logger',), 'order': rng.choice([5, 1])}})
        plugins = {'recorder': ('RecLogger',), 'python': (), 'both': ('RecLogger',), 'none': (),
                   'two': (extra.path('Extra0'), 'RecLogger')}[mode]
        config = {} if mode in ('python', 'both') else {'PLUGIN_PYTHONPLUGIN': 'False'}
        records = Records()
        agent = rig.Agent(config=config, plugins=plugins)
        agent.install([log.proto() for log in logs])
        logger = logging.getLogger('deep')
        level = logger.level
        logger.addHandler(records)
        logger.setLevel('INFO')
        due = []
        by_location = {}
        for log in logs:
            by_location.setdefault((log.line, None) if log.method is None else (None, log.method), []).append(log)

        def observe(inv, number, frame, event, arg):
            if event == 'line':
                found = by_location.get((frame.f_lineno, None), ())
            elif event == 'call':
                found = by_location.get((None, frame.f_code.co_name), ())
            else:
                return
            for log in found:
                if log.at(event, frame):
                    due.append((number, threading.current_thread().name, log, Expect(log, frame, out)))
                    if event == 'call':
                        out.count('method_hits')

        threads = rng.choice([0, 0, 0, 3])
        tee = rig.Tee(sys.gettrace(), observe, {path})
        clock = rig.VirtualClock().install()
        tee.install()
        try:
            ns['main']()
            ts = [threading.Thread(target=ns['main'], name='t%d' % i) for i in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            tee.remove()
            clock.remove()
        agent.stop()
        logger.removeHandler(records)
        logger.setLevel(level)
        out.count('threads_run', threads)
        out.check(not tee.raised, 'the trace function raised', raised=tee.raised[:3])
        judge(out, rng, mode, agent, logs, due, ns, records, threads)
        out.case((mode, threads, [[(p[0], p[-1] if p[0] == 'field' else p[1] in BRACKETS) for p in log.parts] for log in logs][:4]),
                 {'templates': [log.text for log in logs[:3]], 'mode': mode},
                 any(p[0] == 'field' for log in logs for p in log.parts))


def judge(out, rng, mode, agent, logs, due, ns, records, threads):
    by_id = {log.id: log for log in logs}
    fired = defaultdict(list)
    for number, tname, log, expect in sorted(due, key=lambda d: d[0]):
        fired[log.id].append((number, tname, log, expect))
    if not threads:
        permitted = {(i, h[0]): h for i, hits in fired.items()
                     for h in (hits if by_id[i].limit is None else hits[:by_id[i].limit])}
    else:
        permitted = None
    got_logs = [d for d in rig.events('log')]
    pushes = defaultdict(list)
    for d in agent.pushed:
        pushes[(d['tp'], d['hit'][1] if d['hit'] else None)].append(d['snapshot'])
    messages = {}
    if mode in ('recorder', 'both', 'two'):
        for d in got_logs:
            key = (d['tp'], d['hit'][1] if d['hit'] else None)
            if 'plugin' in d:
                out.violation('the message goes to another than the configured (first) logger', logger=d['plugin'])
                return
            messages.setdefault(key, []).append(d)
        out.check(all(isinstance(d['msg'], str) and isinstance(d['ctx'], str) for d in got_logs), 'the logger gets no text')
        twice = [k for k, v in messages.items() if len(v) > 1]
        out.check(not twice, 'more than one message for a hit', hits=twice[:5])
        hits = {(i, h[0]): h for i, hs in fired.items() for h in hs}
        unknown = [(d['tp'], d['msg']) for k, v in messages.items() if k not in hits for d in v]
        if not out.check(not unknown, 'a message is not labelled with the id of its tracepoint', got=unknown[:3]):
            return
        if permitted is not None:
            out.check(set(messages) == set(permitted), 'the messages are not those of the permitted hits',
                      missing=[(k, by_id[k[0]].text) for k in set(permitted) - set(messages)][:3],
                      extra=list(set(messages) - set(permitted))[:3])
        else:
            for i, hs in fired.items():
                n = sum(1 for k in messages if k[0] == i)
                want = len(hs) if by_id[i].limit is None else min(len(hs), by_id[i].limit)
                out.check(n == want, 'the number of messages is not that of the permitted hits', tp=i, got=n, want=want)
        contexts = defaultdict(set)
        for key, ds in messages.items():
            number, tname, log, expect = hits[key]
            d = ds[0]
            where = {'template': log.text, 'message': d['msg'], 'expected': expect.values, 'mode': mode}
            snaps = pushes.get(key, [])
            errors = errors_of(snaps[0]) if snaps else []
            out.count('messages')
            out.count('fields', len(expect.values))
            out.count('failing_fields', sum(1 for v in expect.values if v[0] in ('error', 'syntax')))
            out.check(d['tname'] == tname, 'the message is logged by another thread')
            out.check(match(log, expect, d['msg'], errors), 'the message is not the template with its fields evaluated', **where)
            contexts[number].add(d['ctx'])
            if not log.collects:
                out.check(not snaps, 'a snapshot of a tracepoint that does not collect', **where)
                continue
            if out.check(len(snaps) == 1, 'no snapshot for a hit of a tracepoint that collects and logs', **where):
                judge_snapshot(out, log, expect, snaps[0], d['msg'], where)
                attributes = dict(snaps[0].attributes)
                out.check(attributes.get('context') == d['ctx'] and attributes.get('tracepoint') == d['tp'] and
                          snaps[0].tracepoint.id == d['tp'], 'the ids of the message are not those of the snapshot',
                          attributes=attributes, tp=d['tp'], ctx=d['ctx'], **where)
        out.count('context_ids', len(contexts))
        out.check(all(len(c) == 1 for c in contexts.values()), 'the messages of one trigger have different context ids')
        ids = [c for cs in contexts.values() for c in cs]
        out.check(len(set(ids)) == len(ids), 'the messages of different triggers have the same context id')
        out.check(not set(ids) & set(by_id), 'the context id is the id of a tracepoint')
    stamped = [s for _, s in ns['STAMPS']]
    if mode != 'none':
        # every stamp is in one message
        texts = [d['msg'] for d in got_logs] if mode != 'python' else [t for _, t in records.texts]
        used = [m for t in texts for m in re.findall('S[0-9]+;', t)]
        out.check(sorted(used) == sorted(stamped), 'a field was not evaluated exactly once for its message', used=used[:10],
                  stamped=stamped[:10])
        out.count('evaluated_once', len(stamped))
    # the default logger of the agent
    ours = [t for _, t in records.texts if t.startswith('[deep] ')]
    if mode != 'python':
        out.check(not ours, 'the default logger writes the message as well', got=ours[:2])
    elif permitted is not None:
        left = list(ours)
        for (tp_id, number), (_, _, log, expect) in permitted.items():
            snaps = pushes.get((tp_id, number), [])
            found = None
            for t in left:
                m = re.fullmatch(r'(.*) ctx=(\S+) tracepoint=(.*)', t, re.DOTALL)
                if m and m.group(3) == tp_id and match(log, expect, m.group(1), errors_of(snaps[0]) if snaps else []) and \
                        (not snaps or dict(snaps[0].attributes)['context'] == m.group(2)):
                    found = t
                    break
            if out.check(found is not None, 'the record of the default logger is not the message with the ids', template=log.text,
                         expected=expect.values, records=[t[-100:] for t in left[:4]], tp=tp_id):
                left.remove(found)
                out.count('python_logger_records')
            else:
                return
        out.check(not left, 'the default logger writes other messages', left=left[:3])
    if mode == 'none':
        out.count('no_logger_runs')
        for (tp_id, number), snaps in pushes.items():
            hit = [h for h in fired[tp_id] if h[0] == number]
            if hit and by_id[tp_id].collects:
                log, expect = hit[0][2:]
                where = {'template': log.text, 'mode': mode, 'expected': expect.values}
                out.check(match(log, expect, snaps[0].log_msg or '', errors_of(snaps[0])),
                          'the message on the snapshot is not the template with its fields evaluated', got=snaps[0].log_msg, **where)
                judge_snapshot(out, log, expect, snaps[0], snaps[0].log_msg, where)
        if permitted is not None:
            want = sum(1 for k in permitted if by_id[k[0]].collects)
            out.check(sum(map(len, pushes.values())) == want, 'snapshots are missing without a tracepoint logger')
    # on the wire
    by_sid = {d['snapshot'].id_str: d['snapshot'] for d in agent.pushed}
    for m in agent.sent():
        s = by_sid.get(m.ID.hex())
        if s is None:
            continue
        out.count('wire_logs')
        out.check(m.log_msg == s.log_msg, 'the log message that is sent is not that of the snapshot', sent=m.log_msg, got=s.log_msg)
        sent = [w.expression for w in m.watches if w.source == 1]
        out.check(sent == [w.expression for w in s.watches if w.source == 'LOG'], 'the watch results of the log are not sent',
                  sent=sent, sources=[w.source for w in m.watches])


@CHECK.unit
def unbalanced(out, rng, params):
    """Templates that are not well formed must still give one message (and a snapshot)."""
    tmp = rig.scratch()
    path = rig.write_module(tmp, 'logged.py', SOURCE + '\ndef main():\n    a = 5\n    mark = 1\n    return mark\n')
    line = SOURCE.count('\n') + 4
    code, ns = rig.load_module(path)
    exec(code, ns)
    for _ in range(params['n']):
        agent = rig.Agent()
        rig.EVENTS.clear()
        texts = {}
        for i in range(20):
            text = ''.join(rng.choice(['{', '}', '{a', 'a}', '{a}', ' ', "'", '"', 'x', '!', ':', '[', '{a!z}', '{a:z}', '{a!r}',
                                       '{a:>9}', '{a.b[}', '{{', '}}']) for _ in range(rng.choice([1, 2, 4, 7])))
            texts['t%d' % i] = 'start ' + text + ' end'
        agent.install([rig.tp(k, 'logged.py', line, dict(UNLIMITED, log_msg=v, **({} if i % 2 else {'snapshot': 'no_collect'})))
                       for i, (k, v) in enumerate(texts.items())])
        sys.settrace(agent.deep.trigger_handler.trace_call)
        ns['main']()
        sys.settrace(None)
        agent.stop()
        for i, (k, v) in enumerate(texts.items()):
            got = [d['msg'] for d in rig.events('log') if d['tp'] == k]
            out.count('unbalanced')
            if out.check(len(got) == 1, 'no message (or more than one) for a template that is not well formed', template=v, got=got):
                out.check(got[0].startswith('[deep] start '), 'the literal text is lost', template=v, got=got[0])
            if i % 2:
                snaps = [d['snapshot'] for d in agent.pushed if d['tp'] == k]
                out.check(len(snaps) == 1 and got and snaps[0].log_msg == got[0], 'the snapshot does not have the message',
                          template=v)
        out.case(sorted(texts.values()), None, False)


@CHECK.planner
def plan(tier, seed):
    if tier == 'quick':
        return core.spread('templates', 15, seed, seconds=14) + core.spread('unbalanced', 1, seed, n=10)
    return core.spread('templates', 56, seed, seconds=80) + core.spread('unbalanced', 8, seed, n=200)


if __name__ == '__main__':
    sys.exit(CHECK.main())
