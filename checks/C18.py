"""C18: resource identity: merge precedence, mandatory keys, bounded attribute store."""
import collections
import itertools
import json
import os
import subprocess
import sys
import threading
import time
from collections import OrderedDict
from urllib.parse import quote

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, extra, interleave, model, rig  # noqa: E402

CHECK = core.Check(
    'C18', 'exploration',
    'A case is (a) a history of operations on an attribute container of some capacity, compared after every operation with a '
    'reference model (contents in order, dropped counter, what was raised), (b) a concurrent history of set and delete from '
    'several threads under forced interleavings, whose end state and results have to be those of some order of the operations, '
    '(c) a chain of merges of resources with and without schema urls, where the operands must stay what they are, (d) a setting '
    'of the environment, code and plugins, where the resource in the polls and snapshots that are sent has to be the '
    'combination of the sources. Non-trivial: at least one eviction, rejection, override or context switch. Distinct by the '
    'history.',
    ['with capacity 0, the counting of values that are not valid is not judged', 'the order of a key that is set again is that of '
     'a new key', 'bytearray and memoryview values, and str subclasses in sequences are not judged'],
    required=['operations', 'evictions', 'rejected_keys', 'rejected_values', 'truncated', 'decoded', 'frozen_rejections',
              'frozen_sequences', 'capacity_zero', 'deletes', 'concurrent_histories', 'context_switches', 'merges', 'overrides',
              'schema_conflicts', 'operands_checked', 'created_resources', 'env_malformed_items', 'env_service_names',
              'default_service_names', 'polls_compared', 'snapshots_compared', 'plugin_resources', 'failed_plugin_resources',
              'fresh_processes', 'failed_constructions', 'hostile_sequences', 'aggregated'])

MISSING = object()
SDK = ('telemetry.sdk.language', 'telemetry.sdk.name', 'telemetry.sdk.version')


# ---------------------------------------------------------------- the reference model

INVALID = object()


def clean_one(value, limit):
    if isinstance(value, bytes):
        try:
            value = value.decode('utf-8')
        except UnicodeDecodeError:
            return None
    if isinstance(value, str) and limit is not None:
        return value[:limit]
    return value


def clean(key, value, limit):
    if not isinstance(key, str) or key == '':
        return INVALID
    if isinstance(value, (bool, int, float, str, bytes)):
        value = clean_one(value, limit)
        return INVALID if value is None else value
    if isinstance(value, collections.abc.Sequence):
        cleaned = [clean_one(v, limit) for v in value]
        kinds = {type(v) for v in cleaned if v is not None}
        if len(kinds) > 1 or not kinds <= {bool, int, float, str}:
            return INVALID
        return tuple(cleaned)
    return INVALID


class Model:
    def __init__(self, capacity, limit):
        self.capacity, self.limit = capacity, limit
        self.items = []
        self.dropped = 0

    def copy(self):
        m = Model(self.capacity, self.limit)
        m.items, m.dropped = list(self.items), self.dropped
        return m

    def set(self, key, value):
        if self.capacity == 0:
            self.dropped += 1
            return 'dropped'
        value = clean(key, value, self.limit)
        if value is INVALID:
            return 'rejected'
        known = [i for i in self.items if i[0] == key]
        if known:
            self.items.remove(known[0])
        elif self.capacity is not None and len(self.items) == self.capacity:
            self.items.pop(0)
            self.dropped += 1
        self.items.append((key, value))
        return 'set'

    def delete(self, key):
        known = [i for i in self.items if i[0] == key]
        if not known:
            return 'KeyError'
        self.items.remove(known[0])
        return 'deleted'


def identical(a, b):
    """Equal, with the same types."""
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or a != a and b != b)


def same_items(got, want):
    return len(got) == len(want) and all(g[0] == w[0] and identical(g[1], w[1]) for g, w in zip(got, want))


class Listy(collections.abc.Sequence):
    """A sequence that is no list."""

    def __init__(self, items):
        self.list = items

    def __getitem__(self, i):
        return self.list[i]

    def __len__(self):
        return len(self.list)


class Hostile(Listy):
    def __getitem__(self, i):
        if i == 1:
            raise ValueError('item {0} %s')
        return self.list[i]


KEYS = ['a', 'b', 'c', 'd', 'e', 'key.with.dots', '\u00e9', ' ', 'x' * 300, '%s', '{k}']
BAD_KEYS = ['', 1, None, b'a', ('a',), True, 1.5, [], {}, object()]


def a_value(rng, depth=0):
    r = rng.random()
    if r < .35:
        return rng.choice(['v', '', 'text', '\u4e2d\u6587' * 4, 'x' * 50, '\x00', '%s {x}', 'w', 'longer than three'])
    if r < .5:
        return rng.choice([0, 1, -5, 2 ** 70, True, False, 1.5, 0.0, float('nan'), float('inf')])
    if r < .6:
        return rng.choice([b'bytes', b'', '\u4e2d'.encode(), b'longer bytes value'])
    if r < .68:
        return rng.choice([b'\x81', b'\xff\xfe', b'ok\xc3'])
    if r < .9:
        kind = rng.choice([lambda: rng.choice(['s', 'text value', '']), lambda: rng.choice([1, 2, 3]), lambda: rng.choice([1.5, 2.0]),
                           lambda: rng.choice([True, False]), lambda: rng.choice([b'b', b'\x81', 'str']), lambda: None,
                           lambda: rng.choice([1, True]), lambda: rng.choice([1, 1.0]), lambda: rng.choice(['s', 1]),
                           lambda: rng.choice([[], {}, object(), ('a',), 'ok'])])
        items = [kind() if rng.random() < .85 else None for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        if rng.random() < .05:
            return range(3)
        return rng.choice([list, tuple, Listy, collections.deque])(items)
    return rng.choice([None, {}, {'k': 'v'}, {1, 2}, object(), 1j, print, [[1]], [{}], [object()], iter([1]), (x for x in 'ab'),
                       Exception('e'), type])


def about(value):
    return type(value).__name__ if not isinstance(value, (list, tuple, Listy, collections.deque)) else \
        [type(v).__name__ for v in value]


# ---------------------------------------------------------------- histories on one container

def observe(b):
    return list(b.items())


@CHECK.unit
def histories(out, rng, params):
    from deep.api.attributes import BoundedAttributes
    end = time.monotonic() + params['seconds']
    while time.monotonic() < end and not out.violations:
        capacity = rng.choice([None, 0, 1, 1, 2, 3, 3, 5, 8])
        limit = rng.choice([None, None, 0, 1, 3, 10])
        m = Model(capacity, limit)
        initial = {}
        keys = rng.sample(KEYS, rng.choice([2, 4, 8]))
        for _ in range(rng.choice([0, 0, 1, 3, 8])):
            initial[rng.choice(keys + ([rng.choice(['', 1, None, b'a', True])] if capacity else []))] = a_value(rng)
        if capacity == 0:
            initial = {k: 'v' for k in initial}
            out.count('capacity_zero')
        for k, v in initial.items():
            if not isinstance(v, (collections.abc.Iterator,)):
                m.set(k, v)
            elif capacity == 0:
                m.set(k, v)
        frozen = rng.random() < .3
        source = initial or rng.choice([None, {}, initial])
        b = BoundedAttributes(capacity, source, frozen, limit)
        if source:
            # the container has its own data
            for v in source.values():
                if isinstance(v, list):
                    v.append('later')
                    out.count('frozen_sequences')
            source['later'] = 'later'
        history = [('create', capacity, limit, frozen, len(initial))]
        interesting = False

        def compare(after):
            got = observe(b)
            ok = same_items(got, m.items) and b.dropped == m.dropped and len(b) == len(m.items)
            ok = ok and list(b) == [k for k, _ in m.items] and list(b.keys()) == list(b)
            ok = ok and all(k in b and identical(b[k], v) and identical(b.get(k), v) for k, v in m.items)
            ok = ok and all(k not in b for k in keys if k not in dict(m.items)) and b.get('nope', MISSING) is MISSING
            ok = ok and same_items(list(b.copy().items()), m.items) and dict(b) == dict(b.items())
            ok = ok and (capacity is None or len(b) <= capacity)
            return out.check(ok, 'the container is not what the history of operations makes it', after=after, got=got, want=m.items,
                             dropped=b.dropped, want_dropped=m.dropped, capacity=capacity, limit=limit, history=history[-6:])

        compare('create')
        for _ in range(rng.choice([3, 10, 30])):
            if out.violations:
                break
            op = rng.choice(['set', 'set', 'set', 'set', 'bad_key', 'del', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'merge_in',
                             'merge_self', 'mutate_copy', 'hostile', 'set_same'])
            key, value = rng.choice(keys), a_value(rng)
            raised, expect, result = None, None, None
            before = observe(b)
            dropped_before = m.dropped
            changes = True
            if op == 'bad_key':
                key = rng.choice(BAD_KEYS)
                if capacity == 0:
                    continue
            if capacity == 0 and op in ('set', 'update', 'setdefault', 'merge_in', 'hostile'):
                value = 'v'
            if op == 'set_same' and m.items:
                key, value = rng.choice(m.items)
            many = {rng.choice(keys): 'v' if capacity == 0 else rng.choice([a_value(rng), 'plain']) for _ in range(rng.choice([0, 1, 3]))}
            try:
                if op in ('set', 'bad_key', 'set_same'):
                    b[key] = value
                elif op == 'del':
                    del b[key]
                elif op == 'update':
                    changes = bool(many)
                    rng.choice([lambda: b.update(many), lambda: b.update(list(many.items()))])()
                elif op == 'merge_in':
                    changes = bool(many)
                    b.merge_in(many)
                elif op == 'merge_self':
                    changes = bool(m.items)
                    b.merge_in(b)
                elif op == 'setdefault':
                    changes = key not in dict(m.items)
                    result = b.setdefault(key, value)
                elif op == 'pop':
                    changes = key in dict(m.items)
                    result = b.pop(key)
                elif op == 'popitem':
                    changes = bool(m.items)
                    result = b.popitem()
                elif op == 'clear':
                    changes = bool(m.items)
                    b.clear()
                elif op == 'mutate_copy':
                    changes = False
                    c = b.copy()
                    c['mutated'] = 'yes'
                    c.pop(next(iter(c)))
                elif op == 'hostile':
                    b[key] = Hostile([1, 2, 3]) if capacity != 0 else value
            except Exception as e:
                raised = type(e).__name__
            out.count('operations')
            history.append((op, str(key)[:10], about(value)))
            if frozen:
                if changes:
                    out.check(raised is not None, 'a frozen container accepts a modification', op=op, key=key)
                    out.check(raised == 'TypeError' or op not in ('set', 'bad_key', 'del', 'update', 'merge_in', 'clear', 'set_same'),
                              'a frozen container does not reject a modification as such', op=op, raised=raised)
                    out.count('frozen_rejections')
                interesting = True
                compare(history[-1])
                continue
            if op in ('set', 'bad_key', 'set_same'):
                expect = m.set(key, value)
                if expect == 'rejected':
                    out.count('rejected_keys' if op == 'bad_key' else 'rejected_values')
                elif isinstance(value, bytes):
                    out.count('decoded')
                if isinstance(value, str) and limit is not None and len(value) > limit:
                    out.count('truncated')
                out.check(raised is None, 'setting a value raises', op=op, key=key, about=about(value), raised=raised)
                if isinstance(value, list) and value and expect == 'set':
                    value.append('later')
                    out.count('frozen_sequences')
            elif op == 'del':
                expect = m.delete(key)
                out.check((raised == 'KeyError') == (expect == 'KeyError'), 'deleting a key does not do so', raised=raised, want=expect)
                out.count('deletes')
            elif op in ('update', 'merge_in'):
                for k, v in many.items():
                    m.set(k, v)
                out.check(raised is None, 'merging raises', raised=raised)
            elif op == 'merge_self':
                for k, v in list(m.items):
                    m.set(k, v)
                out.check(raised is None, 'merging raises', raised=raised)
            elif op == 'setdefault':
                if changes:
                    m.set(key, value)
                else:
                    out.check(identical(result, dict(m.items)[key]), 'setdefault does not give the value')
            elif op == 'pop':
                out.check((raised == 'KeyError') == (not changes), 'pop does not do so', raised=raised)
                if changes:
                    out.check(identical(result, dict(m.items)[key]), 'pop does not give the value')
                    m.delete(key)
            elif op == 'popitem':
                out.check((raised == 'KeyError') == (not changes), 'popitem does not do so', raised=raised)
                if raised is None:
                    out.check(any(same_items([result], [i]) for i in m.items), 'popitem gives what is not in the container')
                    m.delete(result[0])
            elif op == 'clear':
                m.items = []
            elif op == 'hostile':
                out.count('hostile_sequences')
                if capacity == 0:
                    m.set(key, value)
                else:
                    out.check(same_items(observe(b), before), 'a value that fails changes the container')
                    # nothing may be held after this
                    t = threading.Thread(target=lambda: b.__setitem__('after', 1), daemon=True)
                    t.start()
                    t.join(20)
                    if not out.check(not t.is_alive(), 'the container is locked after a value that fails'):
                        return
                    m.set('after', 1)
            if m.dropped != dropped_before:
                out.count('evictions', m.dropped - dropped_before)
                interesting = True
            interesting = interesting or expect == 'rejected'
            compare(history[-1])
        out.case(history, {'history': history[:8]}, interesting)
        for bad in (-1, '5', 1.5, -100):
            try:
                BoundedAttributes(bad)
                out.check(False, 'a container can be made with a capacity that is none', capacity=bad)
            except ValueError:
                out.count('failed_constructions')


# ---------------------------------------------------------------- concurrent histories

def outcomes(m, scripts):
    """All (items, dropped, results) that some order of the operations gives."""
    found = set()

    def step(state, positions, results):
        done = True
        for i, script in enumerate(scripts):
            if positions[i] < len(script):
                done = False
                s = state.copy()
                op = script[positions[i]]
                r = s.set(op[1], op[2]) if op[0] == 'set' else s.delete(op[1])
                if op[0] == 'set':
                    r = None
                step(s, positions[:i] + (positions[i] + 1,) + positions[i + 1:],
                     results[:i] + (results[i] + (r,),) + results[i + 1:])
        if done:
            found.add((tuple(state.items), state.dropped, results))

    step(m, (0,) * len(scripts), ((),) * len(scripts))
    return found


@CHECK.unit
def concurrent(out, rng, params):
    from deep.api.attributes import BoundedAttributes
    interleave.watch_new_threads()
    end = time.monotonic() + params['seconds']
    signatures = set()
    while time.monotonic() < end and not out.violations:
        capacity = rng.choice([1, 2, 3, None])
        keys = rng.sample(KEYS[:5], rng.choice([2, 3, 5]))
        m = Model(capacity, None)
        initial = {k: 'initial' for k in rng.sample(keys, min(len(keys), rng.choice([0, 1, 2, 3])))}
        for k, v in initial.items():
            m.set(k, v)
        scripts = []
        for t in range(rng.choice([2, 2, 3])):
            scripts.append([('del', rng.choice(keys)) if rng.random() < .25 else ('set', rng.choice(keys), '%d.%d' % (t, i))
                            for i in range(rng.choice([1, 2, 3]) if t < 2 else 1)])
        possible = outcomes(m, scripts)
        for _ in range(3):
            b = BoundedAttributes(capacity, initial, False)
            b.dropped = m.dropped
            results = [[] for _ in scripts]
            too_many = []

            def runner(i):
                def run():
                    for op in scripts[i]:
                        try:
                            if op[0] == 'set':
                                b[op[1]] = op[2]
                                results[i].append(None)
                            else:
                                del b[op[1]]
                                results[i].append('deleted')
                        except KeyError:
                            results[i].append('KeyError')
                        if capacity is not None and len(b) > capacity:
                            too_many.append(len(b))
                return run

            inter = interleave.Interleaver(('deep/api/attributes/__init__.py',), 'random', seed=rng.random(),
                                           probability=rng.choice([.1, .3, .6]))
            inter.install()
            try:
                errors = interleave.run_threads([runner(i) for i in range(len(scripts))])
            finally:
                inter.remove()
            if not out.check(errors is not None, 'the container deadlocks', scripts=scripts):
                return
            got = (tuple(b.items()), b.dropped, tuple(tuple(r) for r in results))
            detail = {'capacity': capacity, 'initial': sorted(initial), 'scripts': scripts}
            out.check(not errors, 'a concurrent operation raises', errors=errors, **detail)
            out.check(not too_many, 'the container holds more than its capacity', sizes=too_many, **detail)
            out.check(got in possible, 'the end of concurrent operations is that of no order of them', got=got, **detail)
            out.count('concurrent_histories')
            out.count('context_switches', len(inter.order))
            signatures.add(inter.signature())
            out.case((capacity, sorted(initial), scripts, hash(inter.signature())), {'scripts': scripts, 'capacity': capacity},
                     len(inter.order) > 1)
    out.high('distinct_interleavings', len(signatures))


# ---------------------------------------------------------------- resources

def attributes_of(rng, keys, n):
    result = {}
    for _ in range(n):
        result[rng.choice(keys)] = rng.choice(['v%d' % rng.randrange(100), rng.randrange(100), True, 1.5, ['a', 'b'], ('x',), b'bytes', [1, 2],
                                               '\u4e2d', ''])
    return result


RES_KEYS = ['a', 'b', 'c', 'service.name', 'service.version', 'telemetry.sdk.name', 'telemetry.sdk.version', 'host', 'process.executable.name']
SCHEMAS = [None, '', '', 'http://one', 'http://one', 'http://two']


def fold(base, other):
    """The attributes of a merge (later wins), and whether the schemas agree."""
    merged = OrderedDict(base)
    merged.update(other)
    return merged


def cleaned(attributes):
    result = OrderedDict()
    for k, v in (attributes or {}).items():
        v = clean(k, v, None)
        if v is not INVALID:
            result[k] = v
    return result


def view(resource):
    return [dict(resource.attributes.items()), resource.schema_url, resource.attributes.dropped, list(resource.attributes)]


def merge_model(old, new):
    (a, s), (b, t) = old, new
    if s and t and s != t:
        return old
    return fold(a, b), s or t


@CHECK.unit
def resources(out, rng, params):
    from deep.api import resource as module
    from deep.api.resource import Resource
    end = time.monotonic() + params['seconds']
    constants = [(module._DEFAULT_RESOURCE, view(module._DEFAULT_RESOURCE)), (module._EMPTY_RESOURCE, view(module._EMPTY_RESOURCE))] \
        if hasattr(module, '_DEFAULT_RESOURCE') and hasattr(module, '_EMPTY_RESOURCE') else []
    constants.append((Resource.get_empty(), view(Resource.get_empty())))
    while time.monotonic() < end and not out.violations:
        chain = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            attributes = attributes_of(rng, RES_KEYS, rng.choice([0, 1, 3, 6]))
            if rng.random() < .3:
                attributes[rng.choice(['bad', '', 'b'])] = rng.choice([object(), None, [1, 'a'], {}, b'\x81'])
            schema = rng.choice(SCHEMAS)
            chain.append((Resource(attributes, schema), (cleaned(attributes), schema or '')))
        if rng.random() < .3:
            chain.insert(0, (Resource.get_empty(), (OrderedDict(), '')))
        merged, want = chain[0]
        everything = [(r, view(r)) for r, _ in chain]
        conflicts = overrides = 0
        for r, w in chain[1:]:
            before = merged
            conflict = bool(want[1] and w[1] and want[1] != w[1])
            conflicts += conflict
            if not conflict:
                overrides += sum(1 for k in w[0] if k in want[0])
            merged = merged.merge(r)
            want = merge_model(want, w)
            everything.append((merged, view(merged)))
            out.count('merges')
            got = dict(merged.attributes.items())
            out.check(set(got) == set(want[0]) and all(identical(got[k], v) for k, v in want[0].items()) and
                      merged.schema_url == want[1],
                      'a merged resource is not the old one with the keys of the new one', got=got, want=dict(want[0]),
                      schemas=(before.schema_url, r.schema_url, merged.schema_url, want[1]))
            try:
                merged.attributes['changed'] = 'x'
                out.check(False, 'the attributes of a resource can be modified')
            except TypeError:
                out.count('frozen_rejections')
        for r, was in everything + constants:
            out.check(view(r) == was, 'a merge modifies an operand', now=view(r), was=was)
            out.count('operands_checked')
        out.count('schema_conflicts', conflicts)
        out.count('overrides', overrides)
        out.case(('merge', [(sorted(w[0]), w[1]) for _, w in chain]), {'chain': [[dict(w[0]), w[1]] for _, w in chain]},
                 bool(conflicts or overrides))
        create(out, rng, Resource, module, constants)


def environment(rng):
    """The two variables, and what they say: ({variable: text}, attributes, malformed items)."""
    env, attributes, malformed = {}, OrderedDict(), 0
    if rng.random() < .8:
        items = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            r = rng.random()
            if r < .75:
                key = rng.choice(RES_KEYS + ['k%d' % rng.randrange(5), 'a.b', '\u00e9'])
                value = rng.choice(['v', 'two words', 'a=b', '==', 'x,y', 'per%cent', '\u4e2d', '', '1', 'http://x/y?z', '%41', 'True',
                                    "quo'te", '{x}', 'a+b', ' padded ', 'env%d' % rng.randrange(9)])
                text = quote(value, safe='' if value != value.strip() else rng.choice(['', '=/:?+', '= '])) if rng.random() < .8 or ',' in value or '%' in value or value != value.strip() else value
                pad = rng.choice(['', '', ' ', '  '])
                items.append('%s%s%s=%s%s%s' % (pad, key, pad, pad, text, pad))
                attributes[key] = value
            else:
                items.append(rng.choice(['', 'novalue', ' ', '=v', ' = ', ';', '=']))
                malformed += 1
        env['DEEP_RESOURCE_ATTRIBUTES'] = ','.join(items)
    if rng.random() < .5:
        name = rng.choice(['from-env', '', 'service,with=chars', '\u4e2d', 'a b', 'x%41'])
        env['DEEP_SERVICE_NAME'] = name
        if name:
            attributes['service.name'] = name
    return env, attributes, malformed


class Environment:
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in ('DEEP_RESOURCE_ATTRIBUTES', 'DEEP_SERVICE_NAME')}
        for k in self.old:
            os.environ.pop(k, None)
        os.environ.update(self.env)

    def __exit__(self, *_):
        for k, v in self.old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def defaults():
    import deep.version
    return OrderedDict([('telemetry.sdk.language', 'python'), ('telemetry.sdk.name', 'deep'),
                        ('telemetry.sdk.version', deep.version.__version__)])


def named(attributes):
    """The same, with a service name."""
    if not attributes.get('service.name'):
        attributes = OrderedDict(attributes)
        exe = attributes.get('process.executable.name')
        attributes['service.name'] = 'unknown_service:' + (str(exe) if exe else 'python')
    return attributes


def compare(out, got, want, kind, **detail):
    same = set(got) == set(want) and all(identical(got[k], v) for k, v in want.items())
    return out.check(same, kind, got=got, want=dict(want),
                     different=sorted(k for k in set(got) | set(want) if not identical(got.get(k), want.get(k))), **detail)


def create(out, rng, Resource, module, constants):
    env, from_env, malformed = environment(rng)
    code = attributes_of(rng, RES_KEYS, rng.choice([0, 0, 1, 3]))
    if 'service.name' in code and not isinstance(code['service.name'], str):
        code['service.name'] = 'from-code'
    if rng.random() < .2:
        code['invalid'] = object()
    schema = rng.choice(SCHEMAS)
    with Environment(env):
        got = Resource.create(rng.choice([code, dict(code)]) or rng.choice([None, {}]), schema)
        detected = module.DeepResourceDetector().detect()
    want = named(fold(fold(defaults(), from_env), cleaned(code)))
    out.count('created_resources')
    out.count('env_malformed_items', malformed)
    out.count('env_service_names', 'DEEP_SERVICE_NAME' in env)
    if str(want['service.name']).startswith('unknown_service:'):
        out.count('default_service_names')
    where = {'env': env, 'code': code}
    compare(out, dict(got.attributes.items()), want, 'the resource is not the combination of its sources', **where)
    compare(out, dict(detected.attributes.items()), from_env, 'the resource of the environment is not what the environment says', **where)
    out.check(got.schema_url == (schema or ''), 'the schema of the code is lost', got=got.schema_url, want=schema)
    for r, was in constants:
        out.check(view(r) == was, 'creating a resource modifies a constant', now=view(r), was=was)
    again = None
    with Environment({}):
        again = Resource.create()
    compare(out, dict(again.attributes.items()), named(defaults()), 'a resource remembers another one')
    # several detectors, in order
    parts, want = [], dict(want)
    wanted = (OrderedDict(got.attributes.items()), got.schema_url)
    for _ in range(rng.choice([0, 1, 3])):
        attributes = attributes_of(rng, RES_KEYS, 2)
        fails = rng.random() < .3
        s = rng.choice(SCHEMAS)

        class Detector(module.ResourceDetector):
            def detect(self, fails=fails, attributes=attributes, s=s):
                if fails:
                    raise ValueError('detector {0} %s')
                return Resource(attributes, s)

        parts.append(Detector())
        if not fails:
            wanted = merge_model(wanted, (cleaned(attributes), s or ''))
    if parts:
        was = view(got)
        result = module.get_aggregated_resources(parts, got)
        compare(out, dict(result.attributes.items()), wanted[0], 'the aggregated resource is not the merge in order')
        out.check(view(got) == was, 'aggregating modifies the initial resource')
        out.count('aggregated')
    out.case(('create', sorted(env), sorted(from_env), sorted(code), malformed), {'env': env, 'code': repr(code)[:200]},
             bool(set(from_env) & set(code)) or malformed > 0)


# ---------------------------------------------------------------- what is sent

def sent_attributes(out, resource):
    attributes = {}
    for kv in resource:
        out.check(kv.key not in attributes, 'an attribute of the resource is sent twice', key=kv.key)
        attributes[kv.key] = model.value_msg(kv.value)
    return attributes


@CHECK.unit
def wire(out, rng, params):
    """The whole agent, with resources from plugins."""
    from deep.api.resource import Resource
    tmp = rig.scratch()
    path = rig.write_module(tmp, 'located.py', 'def main():\n    mark = 1\n    return mark\n')
    code, ns = rig.load_module(path)
    exec(code, ns)
    end = time.monotonic() + params['seconds']
    while time.monotonic() < end and not out.violations:
        env, from_env, _ = environment(rng)
        table, orders = {}, rng.sample([-20, -3, -1, 1, 2, 5, 30, 1000], 4)
        sources = [(0, {'python_version': '.'.join(map(str, sys.version_info[:3]))}, '')]
        failed = 0
        for i in range(rng.choice([0, 1, 2, 4])):
            name = 'Extra%d' % i
            attributes = attributes_of(rng, RES_KEYS + ['python_version', 'plugin'], rng.choice([0, 1, 4]))
            if 'service.name' in attributes:
                attributes['service.name'] = rng.choice(['from-plugin-%d' % i, ''])
            schema = rng.choice([None, None, 'http://one', 'http://two'])
            spec = {'kinds': rng.choice([('resource',), ('resource', 'decorator'), ('resource', 'metric')]), 'order': orders[i]}
            what = rng.choice(['ok', 'ok', 'ok', 'ok', 'raises', 'none', 'no_resource', 'inactive'])
            spec['resource'] = {'ok': lambda attributes=attributes, schema=schema: Resource(attributes, schema),
                                'none': lambda: None,
                                'no_resource': rng.choice([lambda: {'a': 'dict'}, lambda: 'text', lambda: 5, lambda: object()])
                                }.get(what, lambda: Resource({'a': 'failed'}))
            if what == 'raises':
                failure = rng.choice([ValueError('x'), SystemExit('x'), KeyboardInterrupt()])
                spec['fail'] = {'resource': lambda failure=failure: failure}
            if what == 'inactive':
                spec['active'] = False
            if what == 'ok':
                sources.append((orders[i], cleaned(attributes), schema or ''))
                out.count('plugin_resources')
            else:
                failed += 1
                out.count('failed_plugin_resources')
            table[name] = spec
        extra.reset(table)
        plugins = [extra.path(name) for name in table]
        rng.shuffle(plugins)
        rig.EVENTS.clear()
        want = (named(fold(defaults(), from_env)), '')
        for _, attributes, schema in sorted(sources, key=lambda s: s[0]):
            want = merge_model(want, (attributes, schema))
        want = named(want[0])
        with Environment(env):
            agent = rig.Agent(plugins=plugins)
            agent.install([rig.tp('t', 'located.py', 2, {'fire_count': '-1', 'fire_period': '0'})])
            sys.settrace(agent.deep.trigger_handler.trace_call)
            ns['main']()
            sys.settrace(None)
            agent.deep.poll.poll()
            if rng.random() < .3:
                # another life, with the same sources
                agent.deep.shutdown()
                agent.deep.start()
            agent.stop()
        where = {'env': env, 'plugins': [(table[n]['order'], n) for n in table], 'sources': [(s[0], dict(s[1]), s[2]) for s in sources]}
        polls = [p['msg'] for p in agent.wire.polls]
        out.check(bool(polls) and bool(agent.sent()), 'nothing is sent', **where)
        for p in polls:
            got = sent_attributes(out, p.resource.attributes)
            if not compare(out, got, want, 'the resource of a poll is not the combination of its sources', **where):
                break
            out.check(p.resource.dropped_attributes_count == 0, 'attributes of the resource are dropped')
            out.check(all(k in got for k in SDK) and bool(got.get('service.name')), 'the resource has no identity', got=got)
            out.count('polls_compared')
        for s in agent.sent():
            compare(out, sent_attributes(out, s.resource), want, 'the resource of a snapshot is not the combination of its sources', **where)
            out.count('snapshots_compared')
        out.case(('wire', sorted(env), [(o, sorted(a), s) for o, a, s in sources], failed), where, len(sources) > 1)


PROGRAM = '''
import json, os, sys
sys.path.insert(0, %r)
from harness import core
core.bootstrap()
from harness import rig, model
agent = rig.Agent(plugins=[])
agent.deep.poll.poll()
agent.stop()
p = agent.wire.polls[-1]['msg']
print('RESULT ' + json.dumps({kv.key: model.value_msg(kv.value) for kv in p.resource.attributes}))
'''


@CHECK.unit
def fresh(out, rng, params):
    """The variables of a new process, with bytes that are no text as well."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for _ in range(params['n']):
        env, from_env, malformed = environment(rng)
        raw = {k.encode(): v.encode() for k, v in env.items()}
        odd = set()
        if rng.random() < .3:
            raw[b'DEEP_RESOURCE_ATTRIBUTES'] = raw.get(b'DEEP_RESOURCE_ATTRIBUTES', b'x=y') + b',odd=\xff\xfe'
            odd.add('odd')
            from_env = dict(from_env)
            if 'DEEP_RESOURCE_ATTRIBUTES' not in env:
                from_env = fold({'x': 'y'}, from_env)
        if rng.random() < .15:
            raw[b'DEEP_SERVICE_NAME'] = b'name\xff'
            odd.add('service.name')
        base = {k: v for k, v in os.environb.items() if not k.startswith(b'DEEP_')}
        base[b'PYTHONUTF8'] = b'1'
        p = subprocess.run([sys.executable, '-c', PROGRAM % root], env={**base, **raw}, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=120, cwd=root)
        lines = [line for line in p.stdout.decode(errors='replace').splitlines() if line.startswith('RESULT ')]
        where = {'env': {k.decode(): repr(v) for k, v in raw.items()}}
        if not out.check(p.returncode == 0 and len(lines) == 1, 'the agent does not poll with this environment', code=p.returncode,
                         stderr=p.stderr.decode(errors='replace')[-1500:], **where):
            continue
        got = json.loads(lines[0][7:])
        want = named(fold(defaults(), from_env))
        want['python_version'] = '.'.join(map(str, sys.version_info[:3]))
        for k in odd:
            out.check(bool(got.get(k)), 'an attribute that is no text is lost', key=k, got=got, **where)
            got.pop(k, None)
            want.pop(k, None)
        compare(out, got, want, 'the resource of a new process is not what its environment says', **where)
        out.count('fresh_processes')
        out.case(('fresh', sorted(map(str, raw.items()))), where, bool(raw))


@CHECK.planner
def plan(tier, seed):
    if tier == 'quick':
        return core.spread('histories', 4, seed, seconds=12) + core.spread('concurrent', 4, seed, seconds=12) + \
            core.spread('resources', 3, seed, seconds=12) + core.spread('wire', 4, seed, seconds=12) + core.spread('fresh', 1, seed, n=8)
    return core.spread('histories', 16, seed, seconds=70) + core.spread('concurrent', 16, seed, seconds=70) + \
        core.spread('resources', 8, seed, seconds=60) + core.spread('wire', 16, seed, seconds=70) + core.spread('fresh', 8, seed, n=60)


if __name__ == '__main__':
    sys.exit(CHECK.main())
