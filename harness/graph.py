"""Ground truth of object graphs: who refers to whom, by identity."""
from collections import deque

from harness import model

OPAQUE = ('type', 'module')


class Truth:
    """What the objects that are reachable from some roots looked like when they were added."""

    def __init__(self, max_collection=model.MAX_COLLECTION, max_levels=9, max_nodes=20000):
        self.max_collection = max_collection
        self.max_levels = max_levels
        self.max_nodes = max_nodes
        self.recs = {}
        self.keep = []

    def add(self, value):
        """Read everything that is reachable from this value (what was read before is not read again)."""
        queue = deque([(value, 1)])
        while queue:
            v, level = queue.popleft()
            self.keep.append(v)
            if id(v) in self.recs or len(self.recs) > self.max_nodes:
                continue
            rec = self.recs[id(v)] = model.describe(v, self.max_collection)
            if level < self.max_levels:
                for _, child in rec.children:
                    queue.append((child, level + 1))
            else:
                self.keep.extend(c for _, c in rec.children)
                rec.strict = False
        return value

    def levels(self, roots, max_level):
        """The shortest distance of every object from the roots (which are at level 1)."""
        out = {}
        queue = deque((id(v), 1) for v in roots)
        while queue:
            oid, level = queue.popleft()
            if oid in out:
                continue
            out[oid] = level
            if level < max_level and oid in self.recs:
                for _, child in self.recs[oid].children:
                    queue.append((id(child), level + 1))
        return out


def all_refs(view):
    """Every reference in a snapshot: (where, ref)."""
    for i, f in enumerate(view['frames']):
        for v in f['vars']:
            yield 'frame %d' % i, v
    for k, v in view['lookup'].items():
        for c in v['children']:
            yield 'variable %s' % k, c
    for w in view['watches']:
        if w['ref'] is not None:
            yield '%s %r' % (w['source'], w['expr']), w['ref']


def walk(view, truth, roots, problem):
    """
    Follow all the paths of a snapshot along the paths of the objects.

    :param roots: (where, ref, value)
    :param problem: called with (text) when a path of the snapshot does not exist in the objects
    :return: (vid -> {object id: where}), number of paths
    """
    ids = {}
    todo = deque(roots)
    seen = set()
    paths = 0
    while todo:
        where, ref, value = todo.popleft()
        vid = ref[0]
        paths += 1
        ids.setdefault(vid, {}).setdefault(id(value), where)
        if (vid, id(value)) in seen:
            continue
        seen.add((vid, id(value)))
        rec = truth.recs.get(id(value))
        entry = view['lookup'].get(vid)
        if rec is None or entry is None or not rec.strict:
            continue
        names = {}
        for acceptable, child in rec.children:
            for name in acceptable:
                names.setdefault(name, []).append(child)
        used = {}
        for kid in entry['children']:
            found = names.get((kid[1], kid[3]))
            if not found:
                problem('%s.%s is not part of the program (a %s)' % (where, kid[1], rec.type))
                continue
            if len(found) > 1:
                # more than one key has this text, the order tells them apart
                k = used[(kid[1], kid[3])] = used.get((kid[1], kid[3]), -1) + 1
                if k >= len(found):
                    problem('%s.%s is repeated' % (where, kid[1]))
                    continue
                todo.append(('%s.%s' % (where, kid[1]), kid, found[k]))
            else:
                todo.append(('%s.%s' % (where, kid[1]), kid, found[0]))
    return ids, paths


def closed(view):
    """References that do not resolve in the table of the snapshot."""
    return ['%s refers to %r as %r, which is not in the table' % (where, ref[1], ref[0])
            for where, ref in all_refs(view) if not ref[0] or ref[0] not in view['lookup']]


class Thing:
    """An object with attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __str__(self):
        return 'Thing'


class Fail(Exception):
    pass


def build(rng, size, style, fresh=None):
    """
    A graph of up to `size` objects, all of them can be described strictly.

    :return: the list of the objects, the first one is the root
    """
    fresh = fresh or [0]

    def leaf():
        fresh[0] += 1
        k = rng.randrange(10)
        if k < 4:
            return 100000 + fresh[0]
        if k < 7:
            # the length of a text is its number of characters, however they are encoded
            return 's%d' % fresh[0] + rng.choice('xxxx\u00e9\u20ac\U0001f600\n\x00') * rng.choice(
                [0, 0, 1, 3, 7, 30, 300, 600, 1020, 1023, 1030])
        if k == 7:
            return fresh[0] + .5
        return rng.choice([None, True, 1, '', 'same', b'b', (), frozenset()])

    nodes = []
    leaves = [0]

    def node(depth):
        leaves[0] += 1
        if len(nodes) >= size or depth > 14 or leaves[0] > 3 * size + 1500:
            return leaf()
        if nodes and rng.random() < style['share']:
            return rng.choice(nodes)
        if rng.random() < style['leaf']:
            return leaf()
        kind = rng.choice(style['kinds'])
        width = rng.choice(style['widths'])
        if kind == 'list':
            v = []
            nodes.append(v)
            for _ in range(width):
                v.append(node(depth + 1))
        elif kind == 'dict':
            v = {}
            nodes.append(v)
            for i in range(width):
                v['k%d' % i if rng.random() < .8 else 1000 + i] = node(depth + 1)
        elif kind == 'object':
            v = Thing()
            nodes.append(v)
            for i in range(width):
                setattr(v, rng.choice(['a%d', '_p%d', '_Thing__s%d']) % i, node(depth + 1))
        elif kind == 'tuple':
            v = tuple(node(depth + 1) for _ in range(width))
            nodes.append(v)
        elif kind == 'set':
            v = {rng.choice([fresh[0] * 1000 + i, 't%d-%d' % (fresh[0], i)]) for i in range(width)}
            fresh[0] += 1
            nodes.append(v)
        else:
            v = Fail(*[node(depth + 1) for _ in range(width)])
            nodes.append(v)
        return v

    root = node(0)
    # cycles
    for v in nodes:
        if rng.random() < style['cycle']:
            other = rng.choice(nodes)
            if type(v) is list:
                v.append(other)
            elif type(v) is dict:
                v['cycle'] = other
            elif type(v) is Thing:
                v.cycle = other
    return root


STYLES = [
    dict(share=.05, leaf=.3, kinds=['list', 'dict', 'object', 'tuple'], widths=[1, 2, 3, 5], cycle=.1),
    dict(share=.0, leaf=.05, kinds=['list'], widths=[8, 10, 11, 12, 30], cycle=.0),
    dict(share=.1, leaf=.1, kinds=['dict'], widths=[10, 40], cycle=.05),
    dict(share=.0, leaf=.0, kinds=['list', 'tuple', 'dict', 'object', 'fail'], widths=[1], cycle=.0),
    dict(share=.3, leaf=.2, kinds=['list', 'dict', 'object', 'set', 'tuple', 'fail'], widths=[2, 4, 9, 10, 11], cycle=.2),
    dict(share=.0, leaf=.6, kinds=['dict', 'object'], widths=[50, 300, 1200], cycle=.0),
    dict(share=.02, leaf=.5, kinds=['list', 'set', 'tuple', 'fail'], widths=[0, 1, 5, 10, 11, 60], cycle=.02),
    dict(share=.0, leaf=1, kinds=['list'], widths=[1], cycle=.0),
]
