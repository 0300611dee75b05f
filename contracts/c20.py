from vc import *
from common import *
import six
from pyswagger import utils
from pyswagger.scan import Scanner, Dispatcher, default_tree_traversal
from pyswagger.spec.base import BaseObj, FieldMeta

KEY = Str(ex=['a', 'b', 'a/b', '~', '', '~1', '0', 'get'])


class A(six.with_metaclass(FieldMeta, BaseObj)):
    __swagger_fields__ = {'a': None}


class B(six.with_metaclass(FieldMeta, A)):
    __swagger_fields__ = {'b': None}


class C(six.with_metaclass(FieldMeta, B)):
    __swagger_fields__ = {'c': None}


KINDS = [A, B, C]


def returned(name, kind, i):
    """what a rule returns: results of all sorts"""
    return {'A': 0, 'B': None}[kind] if i == 0 and kind != 'C' else (name, kind, i)


def visitor(name, rules, log, results):
    """rules: for each class the number of rules registered for it; results: whether it takes results"""
    class V(object):
        class Disp(Dispatcher):
            pass

        def __init__(self):
            self.got = []
            self.name = name

    def add(kind, i):
        def rule(self, path, obj, app):
            log.append((self.name, kind.__name__, i, path, obj, app))
            return returned(self.name, kind.__name__, i)
        V.Disp.register([kind])(rule)
    for kind, n in zip(KINDS, rules):
        for i in range(n):
            add(kind, i)
    if results:
        @V.Disp.result
        def take(self, r):
            self.got.append(r)
    return V()


NUMBER = OneOf(0, 1, 2)
RULES = Tup(NUMBER, NUMBER, NUMBER)


@harness('rules', 'C20', inputs={'a': RULES, 'b': Tup(OneOf(0, 1), OneOf(0, 1), OneOf(0, 1)), 'k': OneOf(0, 1, 2), 'ra': Bool(), 'rb': Bool()}, sizes='two visitors, up to two rules per class, a class with up to two ancestors')
def rules(a, b, k, ra, rb):
    log, app = [], object()
    obj = KINDS[k](NullContext())
    v, w = visitor('v', a, log, ra), visitor('w', b, log, rb)
    Scanner(app).scan(route=[v, w], root=obj)
    want = []
    for name, n in [('v', a), ('w', b)]:
        for kind in [C, B, A][2 - k:]:
            for i in range(n[KINDS.index(kind)]):
                want.append((name, kind.__name__, i))
    ensure(same([x[:3] for x in log], want), 'each rule for the class and its ancestors, nearest first, visitors in order')
    for x in log:
        ensure(x[3] == '#' and x[4] is obj and x[5] is app, 'with path, object and application')
    ensure(same(v.got, [returned(*x) for x in want if x[0] == 'v'] if ra else []), 'results go to the rule set that gave them')
    ensure(same(w.got, [returned(*x) for x in want if x[0] == 'w'] if rb else []), 'results go to the rule set that gave them')


@harness('leaf_rules', 'C20', inputs={'k': OneOf(0, 1, 2), 'n': RULES, 'stop': OneOf((), (A,), (B,), (C,), (A, B), (A, B, C))}, sizes='up to two rules per class, a class with up to two ancestors')
def leaf_rules(k, n, stop):
    log = []
    obj = KINDS[k](NullContext())
    Scanner(None).scan(route=[visitor('v', n, log, False)], root=obj, leaves=list(stop))
    want = [('v', kind.__name__, i) for kind in [C, B, A][2 - k:] for i in range(n[KINDS.index(kind)])]
    ensure(same([x[:3] for x in log], want), 'objects that are not descended into are visited by all of their rules')


@harness('two_sets', 'C20', inputs={'k': OneOf(0, 1, 2), 'm': OneOf(0, 1, 2)})
def two_sets(k, m):
    log = []

    class V(object):
        class D1(Dispatcher):
            pass

        class D2(Dispatcher):
            pass

        @D1.register([KINDS[k]])
        def one(self, path, obj, app):
            return 'one'

        @D2.register([KINDS[m]])
        def two(self, path, obj, app):
            return 'two'

        @D1.result
        def r1(self, r):
            log.append(('r1', r))

        @D2.result
        def r2(self, r):
            log.append(('r2', r))
    Scanner(None).scan(route=[V()], root=C(NullContext()))
    ensure(same(sorted(log), [('r1', 'one'), ('r2', 'two')]), 'results go to the rule set that produced them')


class Cell(six.with_metaclass(FieldMeta, BaseObj)):
    """an object holding others in every way"""
    __swagger_fields__ = {'one': None, 'some': [], 'named': {}, 'groups': {}, 'text': None}


class Leaf(six.with_metaclass(FieldMeta, Cell)):
    pass


def cell(leaf=False, **f):
    return fill((Leaf if leaf else Cell)(NullContext()), f)


def visited(root, leaves=[]):
    """what a visitor of all kinds sees"""
    seen = []

    class V(object):
        class Disp(Dispatcher):
            pass

        @Disp.register([Cell])
        def see(self, path, obj, app):
            seen.append((path, obj))
    Scanner(None).scan(route=[V()], root=root, leaves=leaves)
    return seen


def check(root, objs, leaves=[]):
    """objs: (parent, object) of all that are to be visited"""
    seen = visited(root, leaves)
    ensure(len(seen) == len(objs), 'every object once')
    for i, (p, o) in enumerate(seen):
        ensure(root.resolve(utils.jp_split(p)[1:]) is o, 'the path resolves to the object')
        ensure(p.startswith('#'), 'the path begins at the root')
        ensure(all(x is not o for q, x in seen[:i]), 'no object twice')
    for par, o in objs:
        at = [i for i in range(len(seen)) if seen[i][1] is o]
        ensure(len(at) == 1, 'every object once')
        ensure(par is None or any(x is par for q, x in seen[:at[0]]), 'parents before children')


@harness('all_ways', 'C20', inputs={'j': KEY, 'k': KEY, 'n': OneOf(0, 1, 2), 'one': Bool(), 'leaf': Bool(), 'stop': Bool(), 't': Any()}, sizes='two levels, up to two children of each kind')
def all_ways(j, k, n, one, leaf, stop, t):
    assume(j != k)
    objs = []

    def children(d):
        cs = {'text': t}
        made = []

        def new(**f):
            c = cell(leaf and d == 1, **f)
            made.append(c)
            return c
        sub = children2 if d == 1 else (lambda: ({}, []))
        below = []

        def grown():
            f, m = sub()
            c = new(**f)
            below.append((c, m))
            return c
        if one:
            cs['one'] = grown()
        cs['some'] = [new() for i in range(n)]
        cs['named'] = {x: new() for x in [j, k][:n]}
        cs['groups'] = {x: [new() for i in range(n)] for x in [j, k][:1]}
        return cs, made, below

    def children2():
        f, made, below = children(2)
        return f, made
    f, made, below = children(1)
    root = cell(**f)
    objs = [(None, root)] + [(root, x) for x in made]
    for par, m in below:
        if not (leaf and stop):
            objs += [(par, x) for x in m]
    check(root, objs, [Leaf] if stop else [])


@harness('document', 'C20', inputs={'p': KEY, 'd': KEY, 'q': KEY, 'status': KEY, 'ops': OneOf((), ('get',), ('get', 'put')), 'par': OneOf(0, 1, 2), 'stop': Bool()}, sizes='documents with one path, up to two operations, a nested schema')
def document(p, d, q, status, ops, par, stop):
    leafs = [schema(type='string') for i in range(3)]
    s = schema(properties={q: leafs[0]}, items=leafs[1], allOf=[leafs[2]])
    made, below = [], []
    f = {}
    for o in ops:
        ps = [parameter('query', name=str(i), type='array', items=items(type='string')) for i in range(par)]
        rs = {status: response(description='x', schema=schema(), headers={d: header(type='string')})}
        x = operation(parameters=ps, responses=rs)
        made.append(x)
        f[o] = x
        for y in ps:
            below += [(x, y), (y, y.items)]
        below += [(x, rs[status]), (rs[status], rs[status].schema), (rs[status], rs[status].headers[d])]
    item = path_item(**f)
    root = swagger(paths={p: item}, definitions={d: s}, swagger='2.0')
    objs = [(None, root), (root, item), (root, s)] + [(s, x) for x in leafs] + [(item, x) for x in made] + ([] if stop else below)
    seen = []

    class V(object):
        class Disp(Dispatcher):
            pass

        @Disp.register([o2.Swagger, o2.PathItem, o2.Operation, o2.Schema, o2.Parameter, o2.Items, o2.Response, o2.Header])
        def see(self, path, obj, app):
            if all(x is not obj for y, x in seen):
                seen.append((path, obj))
    Scanner(None).scan(route=[V()], root=root, leaves=[o2.Operation] if stop else [])
    ensure(len(seen) == len(objs), 'every object')
    for par_, o in objs:
        at = [i for i in range(len(seen)) if seen[i][1] is o]
        ensure(len(at) == 1, 'every object')
        ensure(root.resolve(utils.jp_split(seen[at[0]][0])[1:]) is o, 'the path resolves to the object')
        ensure(par_ is None or any(x is par_ for y, x in seen[:at[0]]), 'parents before children')


# --- any number of objects

def made(kind, v):
    o = kind(NullContext())
    o.update_field('a', v)
    return o


@harness('any_objects', 'C20', inputs={'ds': ListOf(Tup(Str(), Any())), 'k': OneOf(0, 1, 2), 'n': OneOf(0, 1), 'm': OneOf(0, 1), 'take': Bool()}, covers=['some'])
def any_objects(ds, k, n, m, take):
    """the rules for a kind and its ancestors are applied to every object that is visited, in order"""
    log, app = [], object()
    v = visitor('v', (n, m, 1), log, take)
    seq = [(p, made(KINDS[k], x)) for p, x in ds]
    Scanner(app).scan(route=[v], root=made(A, None), nexter=lambda root, leaves: seq)
    rules = [(c, i) for c, i in ((C, 1), (B, m), (A, n))[2 - k:] if i]
    if not rules:
        ensure(same(log, []) and same(v.got, []), 'no rules')
        return
    cover('some')
    want = []
    for p, x in ds:
        for c, i in rules:
            want.append((c.__name__, p, x))
    ensure(same([(x[1], x[3], x[4].a) for x in log], want), 'each once, with its path')
    res = []
    for p, x in ds:
        for c, i in rules:
            res.append(returned('v', c.__name__, 0))
    ensure(same(v.got, res if take else []), 'every result')
