"""An independent reader of frames and values, and a common view of snapshots and snapshot messages."""
import ctypes
import types
from collections import deque

MAX_DEPTH = 5
MAX_COLLECTION = 10
MAX_STRING = 1024
MAX_VARS = 1000

CONTAINERS = (dict, list, tuple, set, frozenset)
LEAVES = (str, int, float, bool, type(None), bytes, complex, bytearray, range)


_to_fast = ctypes.pythonapi.PyFrame_LocalsToFast
_to_fast.argtypes = [ctypes.py_object, ctypes.c_int]
_to_fast.restype = None


def locals_of(frame):
    """A copy of the locals; Python must not write the values back when the observer returns."""
    try:
        return dict(frame.f_locals)
    finally:
        _to_fast(frame, 0)



def tname(v):
    return type.__dict__['__name__'].__get__(type(v))


class Rec:
    """What an object looks like at one instant."""

    __slots__ = ('obj', 'oid', 'type', 'texts', 'children', 'strict', 'level', 'expand')

    def __repr__(self):
        return '<Rec %s %r>' % (self.type, self.texts)


def demangled(cls, key):
    """The names that are acceptable for an attribute: (name, original name)."""
    out = [(key, None)]
    for c in cls.__mro__:
        prefix = '_' + c.__name__.lstrip('_') + '__'
        if key.startswith(prefix) and not key.endswith('__') and c.__name__.strip('_'):
            out.append((key[len(prefix) - 2:], key))
    return out


def private_of(cls, key):
    prefix = '_' + cls.__name__.lstrip('_') + '__'
    return key.startswith(prefix) and not key.endswith('__')


def modifiers_ok(name, modifiers):
    want = ('private',) if name.startswith('__') else ('protected',) if name.startswith('_') else ()
    return tuple(modifiers) == want


def describe(v, max_collection=MAX_COLLECTION):
    """Read one value: Rec; children are (acceptable names, value)."""
    r = Rec()
    r.obj = v
    r.oid = id(v)
    r.type = tname(v)
    r.children = []
    r.strict = True
    r.level = None
    r.expand = None
    t = type(v)
    if t in CONTAINERS:
        r.texts = ['Size: %d' % len(v)]
        if t is dict:
            r.children = [([(k if type(k) is str else text_of(k), None)], x) for k, x in list(v.items())]
        else:
            r.children = [([(str(i), None)], x) for i, x in enumerate(list(v)[:max_collection])]
    elif issubclass(t, CONTAINERS):
        r.texts = [text_of(v), 'Size: %d' % len(v)]
        r.strict = False
    elif t in LEAVES:
        r.texts = [text_of(v)]
    elif hasattr(t, '__next__'):
        r.texts = None
        r.strict = False
    elif isinstance(v, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType,
                        types.TracebackType, types.CodeType, types.FrameType)):
        r.texts = [text_of(v)]
        r.strict = False
    elif issubclass(t, Exception):
        r.texts = [text_of(v)]
        r.children = [([(str(i), None)], x) for i, x in enumerate(v.args[:max_collection])]
    else:
        r.texts = [text_of(v)]
        d = getattr(v, '__dict__', None)
        if type(d) is dict:
            r.children = [(demangled(t, k)[1:] if private_of(t, k) else demangled(t, k), x) for k, x in
                          list(d.items())]
        elif d is not None:
            r.strict = False
    return r


def text_of(v):
    try:
        return str(v)
    except Exception:
        return None


class Reading:
    """The state of a stack at one instant."""

    def __init__(self, frame, var_frames, max_depth=MAX_DEPTH, max_collection=MAX_COLLECTION, skip=()):
        """
        Read the stack.

        :param var_frames: 'none', 'top' or 'all'
        """
        self.frames = []
        self.recs = {}
        self.keep = []
        self.max_depth = max_depth
        self.max_collection = max_collection
        f = frame
        roots = []
        while f is not None:
            f_locals = locals_of(f)
            me = f_locals.get('self')
            self.frames.append({'file': f.f_code.co_filename, 'func': f.f_code.co_name, 'line': f.f_lineno,
                                'cls': tname(me) if me is not None else None, 'locals': f_locals})
            if var_frames == 'all' or var_frames == 'top' and len(self.frames) == 1:
                roots.append(f_locals)
            f = f.f_back
        self.roots = roots
        self.total = 0
        # opaque: something was seen whose content we do not judge, it can contain what is seen later
        self.opaque = self.tainted = False
        fuzzy = set()
        for f_locals in roots:
            self._simulate(list(f_locals.values()), fuzzy, 1)
            self.tainted = self.opaque

    def _simulate(self, values, fuzzy, level):
        queue = deque((v, level) for v in values)
        new_fuzzy = set()
        while queue:
            v, lvl = queue.popleft()
            if id(v) in self.recs:
                continue
            if self.total > 4 * MAX_VARS:
                break
            r = describe(v, self.max_collection)
            self.keep.append(v)
            r.level = lvl
            self.total += 1
            self.recs[id(v)] = r
            if not r.strict and not isinstance(v, (type, types.ModuleType, types.BuiltinFunctionType)):
                self.opaque = True
            elif isinstance(v, type) and v.__flags__ & 1 << 9:
                # the attributes of a class of the program, e.g. the members of an enum
                self.opaque = True
            if id(v) in fuzzy or not r.strict or self.tainted:
                r.expand = 'maybe'
            elif lvl <= self.max_depth - 2:
                r.expand = 'yes'
            elif lvl >= self.max_depth:
                r.expand = 'no'
            else:
                r.expand = 'maybe'
            for names, c in r.children:
                self.keep.append(c)
                if r.expand == 'yes':
                    queue.append((c, lvl + 1))
                else:
                    new_fuzzy.add(id(c))
        fuzzy |= new_fuzzy

    def add_root(self, value, fresh):
        """Read a value that is not part of the frames, e.g. the result of a watch."""
        known = id(value) in self.recs
        fuzzy, before = set(), len(self.recs)
        if not known:
            self.tainted = self.opaque
            self._simulate([value], fuzzy, 1)
            rec = self.recs[id(value)]
            if not fresh:
                for r in list(self.recs.values())[before:]:
                    r.expand = 'maybe'
            if any(' at 0x' in t for t in rec.texts or () if t):
                rec.texts = None
        return self.recs[id(value)]


def ref_view(v):
    return None if v is None else (v.vid, v.name, tuple(v.modifiers or ()), v.original_name or None)


def view_obj(s):
    """The content of an EventSnapshot."""
    return {
        'id': s.id,
        'tp': {'id': s.tracepoint.id, 'path': s.tracepoint.path, 'line': s.tracepoint.line_no,
               'args': dict(s.tracepoint.args), 'watches': list(s.tracepoint.watches)},
        'ts': s.ts_nanos, 'duration': s.duration_nanos, 'log': s.log_msg,
        'frames': [{'file': f.file_name, 'short': f.short_path, 'method': f.method_name, 'line': f.line_number,
                    'cls': f.class_name, 'app': f.app_frame, 'async': f.is_async, 'column': f.column_number,
                    't_file': f.transpiled_file_name, 't_line': f.transpiled_line_number,
                    't_column': f.transpiled_column_number,
                    'vars': [ref_view(v) for v in f.variables]} for f in s.frames],
        'lookup': {k: {'type': v.type, 'value': v.value, 'hash': v.hash, 'truncated': v.truncated,
                       'children': [ref_view(c) for c in v.children]} for k, v in s.var_lookup.items()},
        'watches': [{'expr': w.expression, 'source': w.source, 'ref': ref_view(w.result), 'error': w.error}
                    for w in s.watches],
        'attributes': dict(s.attributes.items()),
        'resource': dict(s.resource.attributes.items()),
    }


def _opt(msg, field):
    return getattr(msg, field) if msg.HasField(field) else None


def _ref_msg(v):
    return (v.ID, v.name, tuple(v.modifiers), (v.original_name if v.HasField('original_name') else None) or None)


def _opt_field(msg, name):
    try:
        return getattr(msg, name) if msg.HasField(name) else None
    except ValueError:
        return getattr(msg, name)


def view_msg(m):
    """The content of a Snapshot message."""
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import WatchSource
    return {
        'id': int.from_bytes(m.ID, 'big'),
        'tp': {'id': m.tracepoint.ID, 'path': m.tracepoint.path, 'line': m.tracepoint.line_number,
               'args': dict(m.tracepoint.args), 'watches': list(m.tracepoint.watches)},
        'ts': m.ts_nanos, 'duration': m.duration_nanos, 'log': _opt_field(m, 'log_msg'),
        'frames': [{'file': f.file_name, 'short': f.short_path, 'method': f.method_name, 'line': f.line_number,
                    'cls': _opt_field(f, 'class_name'), 'app': _opt_field(f, 'app_frame'),
                    'async': _opt_field(f, 'is_async'), 'column': _opt_field(f, 'column_number'),
                    't_file': _opt_field(f, 'transpiled_file_name'), 't_line': _opt_field(f, 'transpiled_line_number'),
                    't_column': _opt_field(f, 'transpiled_column_number'),
                    'vars': [_ref_msg(v) for v in f.variables]} for f in m.frames],
        'lookup': {k: {'type': v.type, 'value': v.value, 'hash': v.hash, 'truncated': _opt_field(v, 'truncated'),
                       'children': [_ref_msg(c) for c in v.children]} for k, v in m.var_lookup.items()},
        'watches': [{'expr': w.expression, 'source': WatchSource.Name(w.source),
                     'ref': _ref_msg(w.good_result) if w.WhichOneof('result') == 'good_result' else None,
                     'error': w.error_result if w.WhichOneof('result') == 'error_result' else None}
                    for w in m.watches],
        'attributes': {kv.key: value_msg(kv.value) for kv in m.attributes},
        'resource': {kv.key: value_msg(kv.value) for kv in m.resource},
        'attribute_count': len(m.attributes), 'resource_count': len(m.resource),
    }


def value_msg(v):
    kind = v.WhichOneof('value')
    if kind is None:
        return None
    x = getattr(v, kind)
    if kind == 'array_value':
        return tuple(value_msg(i) for i in x.values)
    if kind == 'kvlist_value':
        return {i.key: value_msg(i.value) for i in x.values}
    return x


def compare_value(view, reading, ref, value, where, problems, max_string=MAX_STRING, seen=None, complete=True):
    """Compare one reference of a snapshot with the value it has to describe."""
    rec = reading.recs.get(id(value))
    todo = [(ref, rec, where)] if rec is not None else []
    seen = seen if seen is not None else set()
    compared = 0
    while todo and len(problems) < 5:
        ref, rec, where = todo.pop()
        vid = ref[0]
        if (vid, rec.oid) in seen:
            continue
        seen.add((vid, rec.oid))
        v = view['lookup'].get(vid)
        if v is None:
            problems.append('%s refers to variable %r that is not in the table' % (where, vid))
            continue
        compared += 1
        if v['type'] != rec.type:
            problems.append('%s has type %r and not %r' % (where, v['type'], rec.type))
            continue
        if rec.texts is not None and None not in rec.texts:
            texts = [t[:max_string] for t in rec.texts]
            if v['value'] not in texts:
                problems.append('%s has value %r and not %r' % (where, v['value'][:200], texts[0][:200]))
            elif len(rec.texts) == 1 and bool(v['truncated']) != (len(rec.texts[0]) > max_string):
                problems.append('%s has truncated %r, the text has length %s' % (where, v['truncated'],
                                                                              len(rec.texts[0])))
        if not rec.strict:
            continue
        kids = v['children']
        if not kids and (rec.expand != 'yes' or not complete):
            continue
        if rec.expand == 'no' and kids:
            problems.append('%s has children although it is at the maximum depth' % where)
            continue
        if complete or len(kids) > len(rec.children):
            if len(kids) != len(rec.children):
                if not (isinstance(rec.obj, Exception) and len(kids) > len(rec.children)):
                    problems.append('%s has children %s and not %s' % (
                        where, [k[1] for k in kids][:20], [n[-1][0] for n, _ in rec.children][:20]))
                    continue
        for kid, (names, child) in zip(kids, rec.children):
            if (kid[1], kid[3]) not in names:
                problems.append('%s has the child %r (%r), expected %r' % (where, kid[1], kid[3], names))
                break
            if not modifiers_ok(kid[1], kid[2]):
                problems.append('%s.%s has modifiers %r' % (where, kid[1], kid[2]))
            rec2 = reading.recs.get(id(child))
            if rec2 is not None:
                todo.append((kid, rec2, '%s.%s' % (where, kid[1])))
            elif kid[0] not in view['lookup']:
                problems.append('%s.%s refers to variable %r that is not in the table' % (where, kid[1], kid[0]))
    return compared


def expected_app(filename, include, exclude, app_root):
    """All the acceptable (app frame, short path) of a file."""
    import sys
    hits = [p for p in list(exclude) + [sys.exec_prefix] if p and filename.startswith(p)]
    if hits:
        return [(False, filename[len(p):]) for p in hits]
    hits = [p for p in list(include) + [app_root] if p and filename.startswith(p)]
    if hits:
        return [(True, filename[len(p):]) for p in hits]
    return [(False, filename)]
