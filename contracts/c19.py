from vc import *
from common import *
from pyswagger.primitives import Primitive
from pyswagger import utils, errs
from pyswagger.scanner.cycle_detector import CycleDetector

V = 3


def closed_walks(edges, start):
    """the cycles reachable from start, each from its least vertex, by definition: simple closed walks"""
    found = []
    reach = [start]
    for i in range(len(edges)):
        for v in list(reach):
            for w in edges[v]:
                if w not in reach:
                    reach.append(w)

    def grow(path):
        for w in edges[path[-1]]:
            if w == path[0]:
                found.append(path + [w])
            elif w not in path and w > path[0]:
                grow(path + [w])
    for v in reach:
        grow([v])
    return found


def same_set(a, b):
    return len(a) == len(b) and all(x in b for x in a) and all(x in a for x in b)


NAMES19 = Str(nonempty=True, ex=['#/definitions/A', '#/definitions/B', 'a', 'b', 'c'])
ROW = Tup(Bool(), Bool(), Bool())


def graph(names, m):
    return {names[i]: [names[j] for j in range(len(names)) if m[i][j]] for i in range(len(names))}


@harness('cycles', 'C19', inputs={'s': OneOf('a', 'b', 'c'), 'm': Tup(ROW, ROW, ROW)}, sizes='three vertices, every graph, every start', weight=3)
def cycles(s, m):
    edges = graph(['a', 'b', 'c'], m)
    got = utils.walk(s, lambda v: edges[v])
    ensure(same_set(got, closed_walks(edges, s)), 'every reachable cycle once, from its least vertex, and nothing else')
    ensure(same(edges, graph(['a', 'b', 'c'], m)), 'the graph stays as it is')


@harness('collected', 'C19', inputs={'n': Tup(NAMES19, NAMES19), 'm': Tup(Tup(Bool(), Bool()), Tup(Bool(), Bool())), 'twice': Bool()}, sizes='two vertices, every graph, every start')
def collected(n, m, twice):
    assume(n[0] != n[1])
    edges = graph(n, m)
    known = []
    for v in n:
        r = utils.walk(v, lambda x: edges[x] + (edges[x] if twice else []), known)
        ensure(r is known, 'the cycles found so far are kept')
    want = closed_walks(edges, n[0])
    want += [c for c in closed_walks(edges, n[1]) if c not in want]
    ensure(same_set(known, want), 'each cycle once over all starts, however often an edge is given')


@harness('cycles_more', 'C19', inputs={'es': ListOf(Tup(Int(0, 5, ex=[0, 1, 2, 3, 4, 5]), Int(0, 5, ex=[0, 1, 2, 3, 4, 5])), max=9), 's': Int(0, 5)}, bounded='graphs of up to six vertices and nine edges')
def cycles_more(es, s):
    edges = {str(i): [] for i in range(6)}
    for a, b in es:
        edges[str(a)].append(str(b))
    got = utils.walk(str(s), lambda v: edges[v])
    plain = {}
    for k in edges:
        plain[k] = sorted(set(edges[k]))
    ensure(same_set(got, closed_walks(plain, str(s))), 'every reachable cycle once, from its least vertex, and nothing else')


class Link(object):
    """an object that may refer to another"""
    ref_obj = None


@harness('chain', 'C19', inputs={'n': OneOf(1, 2, 3, 4), 'back': OneOf(None, 0, 1, 2, 3)}, covers=['end', 'cycle'], sizes='chains of up to four objects')
def chain(n, back):
    assume(back is None or back < n)
    ls = [Link() for i in range(n)]
    for i in range(n - 1):
        ls[i].ref_obj = ls[i + 1]
    if back is not None:
        ls[n - 1].ref_obj = ls[back]
    for i in range(n):
        r = outcome(utils.deref, ls[i])
        if back is None:
            cover('end')
            ensure(r.ok and r.val is ls[n - 1], 'the first object that is no reference')
        else:
            cover('cycle')
            ensure(isinstance(r.exc, errs.CycleDetectionError), 'a chain that revisits an object fails with a cycle error')


@harness('plain', 'C19', inputs={'v': Scalar()})
def plain(v):
    ensure(utils.deref(v) is v, 'what is no reference is its own target')
    s = schema(type='string')
    ensure(utils.deref(s) is s, 'what is no reference is its own target')


@harness('guard', 'C19', inputs={'seq': Tup(OneOf(0, 1, 2), OneOf(0, 1, 2), OneOf(0, 1, 2), OneOf(0, 1, 2))}, sizes='four objects, three different ones')
def guard(seq):
    objs = [schema(), schema(), schema()]
    g = utils.CycleGuard()
    for i in range(len(seq)):
        r = outcome(g.update, objs[seq[i]])
        ensure(r.ok == (seq[i] not in seq[:i]), 'an object is refused when seen before')
        if not r.ok:
            ensure(isinstance(r.exc, errs.CycleDetectionError), 'by a cycle error')
            break


@harness('schemas', 'C19', inputs={'chain_': ListOf(Scalar('int'), max=2), 'n': OneOf(1, 2, 3)}, sizes='chains of up to three schemas')
def schemas(chain_, n):
    ss = [schema(**{'$ref': str(i)}) for i in range(n)]
    for i in range(n - 1):
        ss[i].update_field('ref_obj', ss[i + 1])
    ensure(utils.deref(ss[0]) is ss[n - 1], 'the first object whose reference leads nowhere')
    ss[n - 1].update_field('ref_obj', ss[0])
    ensure(isinstance(outcome(utils.deref, ss[0]).exc, errs.CycleDetectionError), 'a cycle error')


class Refs(object):
    """resolves names to objects"""
    def __init__(self, objs):
        self.objs = objs

    def resolve(self, path, parser=None):
        return self.objs[path]


def query_parameter(**f):
    return parameter('query', **f)


WAY = OneOf('ref', 'properties', 'items', 'allOf', 'discriminator', 'additionalProperties', 'deep', 'none')


def referring(way, to):
    r = schema(**{'$ref': to})
    if way == 'ref':
        return r
    if way == 'properties':
        return schema(properties={'p': r, 'q': schema(type='string')})
    if way == 'items':
        return schema(type='array', items=r)
    if way == 'allOf':
        return schema(allOf=[schema(type='string'), r])
    if way == 'discriminator':
        return schema(type='object', discriminator='d', required=['d'], properties={'d': schema(type='string')}, allOf=[r])
    if way == 'additionalProperties':
        return schema(additionalProperties=r)
    if way == 'deep':
        return schema(properties={'p': schema(type='array', items=schema(allOf=[schema(additionalProperties=r)]))})
    return schema(type='string')


@harness('every_reference', 'C19', inputs={'n': Tup(NAMES19, NAMES19), 'w': Tup(WAY, WAY), 't': Tup(OneOf(0, 1), OneOf(0, 1))}, sizes='two schemas, a reference of each in every position', covers=['cycle', 'none'])
def every_reference(n, w, t):
    assume(n[0] != n[1])
    objs = {n[i]: referring(w[i], n[t[i]]) for i in range(2)}
    edges = {n[i]: [n[t[i]]] if w[i] != 'none' else [] for i in range(2)}
    d = CycleDetector()
    for x in n:
        visit(d, objs[x], x, Refs(objs))
    want = closed_walks(edges, n[0])
    want += [c for c in closed_walks(edges, n[1]) if c not in want]
    cover('cycle' if want else 'none')
    ensure(same_set(d.cycles['schema'], want), 'the cycles over references of schemas, wherever they stand')
    ensure(len(d.cycles['parameter']) + len(d.cycles['response']) + len(d.cycles['path_item']) == 0, 'none of other kinds')


@harness('all_references', 'C19', inputs={'w': Tup(Bool(), Bool(), Bool(), Bool(), Bool()), 'deep': Bool()})
def all_references(w, deep):
    """a schema that refers to others in several ways at once"""
    ways = ['ref', 'properties', 'items', 'allOf', 'additionalProperties']
    f = {}
    for x, b in zip(ways, w):
        r = schema(**{'$ref': x})
        if b:
            f.update({'ref': {'$ref': x}, 'properties': {'properties': {'p': schema(type='string'), 'q': r}}, 'items': {'items': r},
                      'allOf': {'allOf': [schema(type='string'), r]}, 'additionalProperties': {'additionalProperties': r}}[x])
    top = schema(**f)
    objs = {'top': schema(properties={'x': schema(items=top), 'y': schema(type='string')}) if deep else top}
    for x in ways:
        objs[x] = schema(items=schema(**{'$ref': 'top'}))
    d = CycleDetector()
    visit(d, objs['top'], 'top', Refs(objs))
    edges = dict((x, ['top']) for x in ways)
    edges['top'] = [x for x, b in zip(ways, w) if b]
    ensure(same_set(d.cycles['schema'], closed_walks(edges, 'top')), 'the cycles through each of them')


@harness('other_kinds', 'C19', inputs={'kind': OneOf('parameter', 'response', 'path_item'), 'n': Tup(NAMES19, NAMES19), 'w': Tup(Bool(), Bool()), 't': Tup(OneOf(0, 1), OneOf(0, 1))}, sizes='two objects')
def other_kinds(kind, n, w, t):
    assume(n[0] != n[1])
    make = {'parameter': query_parameter, 'response': response, 'path_item': path_item}[kind]
    objs = {n[i]: make(**({'$ref': n[t[i]]} if w[i] else {})) for i in range(2)}
    edges = {n[i]: [n[t[i]]] if w[i] else [] for i in range(2)}
    d = CycleDetector()
    for x in n:
        visit(d, objs[x], x, Refs(objs))
    want = closed_walks(edges, n[0])
    want += [c for c in closed_walks(edges, n[1]) if c not in want]
    ensure(same_set(d.cycles[kind], want), 'the cycles over references')
    for k in ['schema', 'parameter', 'response', 'path_item']:
        ensure(k == kind or len(d.cycles[k]) == 0, 'none of other kinds')


@harness('composition', 'C19', inputs={'n': OneOf(1, 2, 3, 4), 'back': OneOf(None, 0, 1, 2, 3), 'top': OneOf(None, 'object', 'part'), 'kind': OneOf(None, 'object'), 'by_ref': Bool(), 'v': Union(Int(), DictOf(Scalar('int', 'str')))}, covers=['end', 'cycle'], sizes='compositions up to four deep')
def composition(n, back, top, kind, by_ref, v):
    """values of circular compositions"""
    assume(back is None or back < n)
    assume(kind_of(v) != 'int' or not (top == 'object' or kind == 'object'))
    ss = [schema(type=kind) for _ in range(n)]
    for i in range(n):
        to = ss[i + 1] if i + 1 < n else None if back is None else ss[back]
        if to is not None:
            ss[i].update_field('allOf', [schema(ref_obj=to) if by_ref else to])
    o = ss[0] if top == 'part' else schema(type=top, allOf=[ss[0]])
    r = outcome(Primitive().produce, o, v)
    if back is None:
        cover('end')
        ensure(r.ok, 'compositions that end have values')
        ensure(same(r.val, v) if kind_of(v) == 'int' else same(dict(r.val), v), 'the one given')
    else:
        cover('cycle')
        ensure(isinstance(r.exc, errs.CycleDetectionError), 'a circular composition fails with a cycle error')
