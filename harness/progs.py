"""Generator of deterministic, terminating host programs."""

PRELUDE = '''
import contextlib

LOG = []
G_INT = 7
G_LIST = [1, 2, 3]


class AppError(Exception):
    pass


class Node:
    kind = 'node'

    def __init__(self, value, child=None):
        self.value = value
        self._prot = value * 2
        self.__priv = [value, value + 1]
        self.child = child

    def total(self, extra):
        acc = self.value + extra
        if self.child is not None:
            acc += self.child.total(extra)
        return acc

    @staticmethod
    def make(depth):
        node = None
        for i in range(depth):
            node = Node(i, node)
        return node

    def __enter__(self):
        LOG.append(('enter', self.value))
        return self

    def __exit__(self, et, ev, tb):
        LOG.append(('exit', self.value, et.__name__ if et else None))
        return self.value % 5 == 4


@contextlib.contextmanager
def managed(tag):
    LOG.append(('open', tag))
    try:
        yield tag
    finally:
        LOG.append(('close', tag))

'''


class Program:
    """A generated program."""

    def __init__(self, source, functions, generators):
        self.source = source
        self.functions = functions
        self.generators = generators
        self.n_lines = source.count('\n') + 1


class Gen:
    def __init__(self, rng, n_funcs=4, size=8, raising=0.3, generators=True, prelude=PRELUDE, recursion=True,
                 coroutines=False):
        self.rng = rng
        self.lines = prelude.split('\n')
        self.n_funcs = n_funcs
        self.size = size
        self.raising = raising
        self.with_generators = generators
        self.recursion = recursion
        self.coroutines = coroutines
        self.funcs = []
        self.gens = []
        self.coros = []
        self.tmp = 0
        self.budget = 0

    def emit(self, ind, text):
        self.lines.append('    ' * ind + text)

    def int_expr(self, names):
        r = self.rng
        ints = names['int']
        k = r.randrange(8)
        if k == 0 or not ints:
            return str(r.randrange(0, 9))
        if k == 1:
            return '%s + %d' % (r.choice(ints), r.randrange(1, 5))
        if k == 2:
            return '%s * %d' % (r.choice(ints), r.randrange(1, 4))
        if k == 3:
            return '%s - %s' % (r.choice(ints), r.choice(ints))
        if k == 4:
            return 'len(%s)' % r.choice(names['list'] + names['str']) if names['list'] + names['str'] else '3'
        if k == 5:
            return '%s %% 7' % r.choice(ints)
        if k == 6:
            return 'sum(v for v in (%s, 1))' % r.choice(ints)
        return '%s + G_INT' % r.choice(ints)

    def cond(self, names):
        r = self.rng
        if not names['int']:
            return 'True'
        return '%s %% %d == %d' % (r.choice(names['int']), r.randrange(2, 4), r.randrange(2)) if r.random() < .6 else \
            '%s > %d' % (r.choice(names['int']), r.randrange(0, 6))

    def block(self, ind, names, depth, n, ctx):
        names = {k: list(v) for k, v in names.items()}
        for _ in range(max(1, n)):
            self.stmt(ind, names, depth, ctx)
        return names

    def stmt(self, ind, names, depth, ctx):
        r = self.rng
        choices = ['assign'] * 5 + ['aug', 'str', 'list', 'dict', 'log', 'obj', 'comp', 'lambda', 'del', 'tuple']
        if depth < 3:
            choices += ['if', 'for', 'while', 'try', 'with', 'if', 'try']
        if ctx['calls'] > 0:
            choices += ['call'] * 3 + ['method', 'gen']
        if ctx.get('gen'):
            choices += ['yield'] * 3
        if ctx.get('coro'):
            choices += ['await'] * 2
        if r.random() < self.raising:
            choices += ['raise', 'zero', 'key']
        if depth > 0:
            choices += ['early']
        if depth < 2:
            choices += ['nested']
        k = r.choice(choices)
        i = ind
        if k == 'assign':
            v = r.choice(['x', 'y', 'z', 'w', 'acc'])
            self.emit(i, '%s = %s' % (v, self.int_expr(names)))
            if v not in names['int']:
                names['int'].append(v)
        elif k == 'aug' and names['int']:
            self.emit(i, '%s += %s' % (r.choice(names['int']), self.int_expr(names)))
        elif k == 'str':
            self.emit(i, 'name = "n%d" + str(%s)' % (r.randrange(9), self.int_expr(names)))
            if 'name' not in names['str']:
                names['str'].append('name')
        elif k == 'list':
            self.emit(i, 'items = [%s, %s, "s%d"]' % (self.int_expr(names), self.int_expr(names), r.randrange(9)))
            if 'items' not in names['list']:
                names['list'].append('items')
        elif k == 'tuple':
            self.emit(i, 'pair = (%s, %s)' % (self.int_expr(names), self.int_expr(names)))
        elif k == 'dict':
            self.emit(i, 'info = {"k": %s, 3: "v"}' % self.int_expr(names))
        elif k == 'log':
            self.emit(i, 'LOG.append(("l%d", %s))' % (len(self.lines), self.int_expr(names)))
        elif k == 'obj':
            self.emit(i, 'node = Node(%s, Node(%d))' % (self.int_expr(names), r.randrange(5)))
        elif k == 'comp':
            self.emit(i, 'sq = [q * %d for q in range(%d)]' % (r.randrange(1, 4), r.randrange(1, 4)))
        elif k == 'lambda':
            self.emit(i, 'fn = lambda v: v + %d' % r.randrange(5))
            self.emit(i, 'LOG.append(fn(%s))' % self.int_expr(names))
        elif k == 'del':
            self.tmp += 1
            self.emit(i, 'tmp%d = %s' % (self.tmp, self.int_expr(names)))
            self.emit(i, 'del tmp%d' % self.tmp)
        elif k == 'if':
            self.emit(i, 'if %s:' % self.cond(names))
            self.block(i + 1, names, depth + 1, r.randrange(1, 3), ctx)
            if r.random() < .5:
                self.emit(i, 'else:')
                self.block(i + 1, names, depth + 1, r.randrange(1, 3), ctx)
        elif k == 'for':
            v = 'i%d' % depth
            self.emit(i, 'for %s in range(%d):' % (v, r.randrange(1, 4)))
            inner = {a: list(b) for a, b in names.items()}
            if v not in inner['int']:
                inner['int'].append(v)
            self.block(i + 1, inner, depth + 1, r.randrange(1, 3), dict(ctx, calls=min(ctx['calls'], 1), loop=True))
            if r.random() < .2:
                self.emit(i, 'else:')
                self.emit(i + 1, 'LOG.append("for-else")')
        elif k == 'while':
            self.tmp += 1
            v = 'n%d' % self.tmp
            self.emit(i, '%s = %d' % (v, r.randrange(1, 4)))
            self.emit(i, 'while %s > 0:' % v)
            self.emit(i + 1, '%s -= 1' % v)
            self.block(i + 1, names, depth + 1, 1, dict(ctx, calls=min(ctx['calls'], 1), loop=True))
        elif k == 'try':
            self.emit(i, 'try:')
            self.block(i + 1, names, depth + 1, r.randrange(1, 3), ctx)
            form = r.randrange(4)
            if form < 3:
                self.emit(i, 'except %s as err:' % r.choice(['ValueError', '(ValueError, ZeroDivisionError)', 'Exception',
                                                             'AppError', 'KeyError']))
                self.emit(i + 1, 'LOG.append(type(err).__name__)')
                self.block(i + 1, names, depth + 1, 1, ctx)
                if r.random() < .15:
                    self.emit(i + 1, 'raise')
            if form == 1:
                self.emit(i, 'else:')
                self.emit(i + 1, 'LOG.append("else")')
            if form >= 2:
                self.emit(i, 'finally:')
                self.emit(i + 1, 'LOG.append("fin%d")' % len(self.lines))
        elif k == 'with':
            self.emit(i, 'with %s as mg:' % r.choice(['Node(%s)' % self.int_expr(names), 'managed(%d)' % r.randrange(9)]))
            self.block(i + 1, names, depth + 1, r.randrange(1, 3), ctx)
        elif k == 'call' and ctx['callable']:
            ctx['calls'] -= 1
            fn = r.choice(ctx['callable'])
            self.emit(i, 'x = %s(%s, %s)' % (fn, self.int_expr(names), self.int_expr(names)))
            if 'x' not in names['int']:
                names['int'].append('x')
        elif k == 'method':
            self.emit(i, 'y = Node.make(%d).total(%s)' % (r.randrange(1, 4), self.int_expr(names)))
            if 'y' not in names['int']:
                names['int'].append('y')
        elif k == 'gen' and ctx['gens']:
            ctx['calls'] -= 1
            g = r.choice(ctx['gens'])
            form = r.randrange(3)
            if form == 0:
                self.emit(i, 'for gv in %s(%s):' % (g, self.int_expr(names)))
                self.emit(i + 1, 'LOG.append(gv)')
                if r.random() < .3:
                    self.emit(i + 1, 'break')
            elif form == 1:
                self.emit(i, 'LOG.append(list(%s(%s)))' % (g, self.int_expr(names)))
            else:
                self.emit(i, 'it = %s(%s)' % (g, self.int_expr(names)))
                self.emit(i, 'LOG.append(next(it, None))')
                self.emit(i, 'it.close()')
        elif k == 'yield':
            self.emit(i, 'yield %s' % self.int_expr(names))
        elif k == 'await' and ctx['coros']:
            self.emit(i, 'x = await %s(%s)' % (r.choice(ctx['coros']), self.int_expr(names)))
        elif k == 'raise':
            self.emit(i, 'if %s:' % self.cond(names))
            self.emit(i + 1, 'raise %s(%s)' % (r.choice(['ValueError', 'AppError', 'KeyError']), self.int_expr(names)))
        elif k == 'zero':
            self.emit(i, 'z = 1 // (%s)' % self.int_expr(names))
            if 'z' not in names['int']:
                names['int'].append('z')
        elif k == 'key':
            self.emit(i, 'LOG.append({"a": 1}["%s"])' % r.choice('aab'))
        elif k == 'early':
            self.emit(i, 'if %s:' % self.cond(names))
            self.emit(i + 1, 'return%s' % ('' if ctx.get('gen') else ' ' + self.int_expr(names)))
        elif k == 'nested':
            self.tmp += 1
            fn = 'inner%d' % self.tmp
            self.emit(i, 'def %s(p):' % fn)
            self.emit(i + 1, 'q = p + %d' % r.randrange(5))
            if r.random() < .4 and names['int'] and not ctx.get('gen'):
                self.emit(i + 1, 'q += %s' % r.choice(names['int']))
            self.emit(i + 1, 'return q')
            self.emit(i, 'LOG.append(%s(%s))' % (fn, self.int_expr(names)))
        else:
            self.emit(i, 'pass')

    def build(self):
        r = self.rng
        if self.with_generators:
            for n in range(r.randrange(1, 3)):
                name = 'gen%d' % n
                self.emit(0, '')
                self.emit(0, 'def %s(a):' % name)
                names = {'int': ['a'], 'str': [], 'list': []}
                self.block(1, names, 0, r.randrange(2, 5),
                           {'calls': 0, 'callable': [], 'gens': [], 'coros': [], 'gen': True})
                self.emit(1, 'yield a')
                self.gens.append(name)
        if self.coroutines:
            for n in range(2):
                name = 'coro%d' % n
                self.emit(0, '')
                self.emit(0, 'async def %s(a):' % name)
                self.block(1, {'int': ['a'], 'str': [], 'list': []}, 1, r.randrange(2, 4),
                           {'calls': 0, 'callable': [], 'gens': [], 'coros': list(self.coros), 'coro': True})
                self.emit(1, 'return a + 1')
                self.coros.append(name)
            self.emit(0, '')
            self.emit(0, 'def drive(co):')
            self.emit(1, 'try:')
            self.emit(2, 'while True:')
            self.emit(3, 'co.send(None)')
            self.emit(1, 'except StopIteration as stop:')
            self.emit(2, 'return stop.value')
        for n in range(self.n_funcs):
            name = 'f%d' % n
            self.emit(0, '')
            self.emit(0, 'def %s(a, b):' % name)
            names = {'int': ['a', 'b'], 'str': [], 'list': []}
            if self.recursion and r.random() < .4:
                self.emit(1, 'if 0 < b < 5:')
                self.emit(2, 'a = a %% 100 + %s(a %% 10, b - 1)' % name)
            self.block(1, names, 0, self.size,
                       {'calls': 2, 'callable': self.funcs[-2:], 'gens': self.gens, 'coros': []})
            if self.coros and r.random() < .5:
                self.emit(1, 'LOG.append(drive(%s(a)))' % r.choice(self.coros))
            if r.random() < .8:
                self.emit(1, 'return a + b')
            self.funcs.append(name)
        self.emit(0, '')
        self.emit(0, 'def main(a=3, b=4):')
        for fn in self.funcs:
            self.emit(1, 'try:')
            self.emit(2, 'LOG.append(("ret", "%s", %s(a, b)))' % (fn, fn))
            self.emit(1, 'except (ValueError, ZeroDivisionError, KeyError, AppError, UnboundLocalError, TypeError) as err:')
            self.emit(2, 'LOG.append(("err", type(err).__name__, str(err)))')
        self.emit(1, 'result = (a, b, len(LOG))')
        self.emit(1, 'return result')
        return Program('\n'.join(self.lines) + '\n', self.funcs + ['main', 'total', 'make'], list(self.gens))


def generate(rng, **kw):
    """Generate a program that compiles."""
    return Gen(rng, **kw).build()


def lines_of(source):
    """Lines that contain code (approximately), and the function that owns each of them."""
    import ast
    tree = ast.parse(source)
    out = {}

    class V(ast.NodeVisitor):
        def __init__(self):
            self.stack = ['<module>']

        def visit(self, node):
            if isinstance(node, ast.stmt):
                out.setdefault(node.lineno, self.stack[-1])
            scoped = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))
            if scoped:
                self.stack.append(node.name)
            self.generic_visit(node)
            if scoped:
                self.stack.pop()

    V().visit(tree)
    return out
