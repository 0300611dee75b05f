from vc import *
from common import *
from pyswagger.scanner.v2_0.merge import Merge
from pyswagger.spec.v2_0.parser import ParameterContext, SchemaContext, ResponseContext, PathItemContext

V = Opt(Str(ex=['string', 'integer']))
SCALARS = ['type', 'format', 'pattern', 'description', 'title', 'discriminator', 'name', '$ref']
NUMBERS = ['maximum', 'minimum', 'maxLength', 'minLength', 'maxItems', 'minItems', 'multipleOf', 'maxProperties', 'minProperties']


@harness('plain_field', 'C12', inputs={'f': OneOf(*SCALARS), 'mine': V, 'theirs': V}, covers=['mine', 'theirs', 'none'])
def plain_field(f, mine, theirs):
    a, b = schema(**{f: mine}), schema(**{f: theirs})
    r = a.merge(b, SchemaContext)
    ensure(r is a, 'the merge goes into the local object')
    got = getattr(a, f)
    if mine is not None:
        cover('mine')
        ensure(got == mine, 'a value that is set locally stays')
    elif theirs is not None:
        cover('theirs')
        ensure(got == theirs, 'a value that is not set locally is taken')
    else:
        cover('none')
        ensure(got is None, 'no value is made up')
    ensure_same(getattr(b, f), theirs, 'the target is not changed')


@harness('number_field', 'C12', inputs={'f': OneOf(*NUMBERS), 'mine': Opt(Int()), 'theirs': Opt(Int())})
def number_field(f, mine, theirs):
    a, b = schema(**{f: mine}), schema(**{f: theirs})
    a.merge(b, SchemaContext)
    ensure_same(getattr(a, f), theirs if mine is None else mine, 'zero is a value like any other')
    ensure_same(getattr(b, f), theirs, 'the target is not changed')


@harness('flag_field', 'C12', inputs={'f': OneOf('required', 'uniqueItems', 'exclusiveMaximum', 'exclusiveMinimum'), 'mine': Opt(Bool()), 'theirs': Opt(Bool())})
def flag_field(f, mine, theirs):
    a, b = parameter(**{f: mine}), parameter(**{f: theirs})
    a.merge(b, ParameterContext)
    ensure_same(getattr(a, f), theirs if mine is None else mine, 'false is a value like any other')
    ensure_same(getattr(b, f), theirs, 'the target is not changed')


@harness('other_fields', 'C12', inputs={'mine': V, 'theirs': V, 'd': V})
def other_fields(mine, theirs, d):
    a, b = parameter('query', name=mine, description=d), parameter('header', name=theirs)
    a.merge(b, ParameterContext)
    ensure(getattr(a, 'in') == 'query', 'the place stays')
    ensure_same(a.description, d, 'fields the target does not set stay')
    ensure_same(a.name, theirs if mine is None else mine, 'each field for itself')
    ensure(a.type is None and a.format is None and a.items is None and a.schema is None and a.enum is None, 'nothing else appears')


S = Str(ex=['a', 'b', 'c'])
LIST = ListOf(S)


@harness('list_field', 'C12', inputs={'mine': Opt(LIST), 'theirs': Opt(LIST), 'q': S})
def list_field(mine, theirs, q):
    mine, theirs = mine and list(mine), theirs and list(theirs)
    a, b = schema(enum=mine), schema(enum=theirs)
    ma, tb = list(mine or []), list(theirs or [])
    a.merge(b, SchemaContext)
    got = a.enum or []
    ensure(iff(q in got, either(q in ma, q in tb)), 'plain lists are united')
    ensure_same(list(b.enum or []), tb, 'the target is not changed')
    ensure_same(list(mine or []), ma, 'nor the list that was given')


@harness('list_taken', 'C12', inputs={'mine': OneOf(None, []), 'theirs': LIST, 'f': OneOf('enum', 'required'), 'q': S})
def list_taken(mine, theirs, f, q):
    theirs = list(theirs)
    a, b = schema(**{f: mine or []}), schema(**{f: theirs})
    w = list(theirs)
    a.merge(b, SchemaContext)
    ensure(iff(q in (getattr(a, f) or []), q in w), 'the items of the target')
    ensure_same(list(getattr(b, f)), w, 'the target is not changed')


@harness('list_repeats', 'C12', inputs={'v': OneOf('a', 'b')})
def list_repeats(v):
    a, b = schema(), schema(default=[v, v])
    a.merge(b, SchemaContext)
    ensure(a.default == [v, v], 'repeated items stay')


@harness('map_field', 'C12', inputs={'mine': DictOf(Str()), 'theirs': DictOf(Str()), 'q': Str()})
def map_field(mine, theirs, q):
    a, b = response(examples=mine), response(examples=theirs)
    m, t = dict(mine), dict(theirs)
    a.merge(b, ResponseContext)
    ensure(iff(q in a.examples, either(q in m, q in t)), 'plain maps are united')
    if q in m:
        ensure(a.examples[q] == m[q], 'local entries win')
    elif q in t:
        ensure(a.examples[q] == t[q], 'others are taken')
    ensure_same(b.examples, t, 'the target is not changed')
    ensure_same(mine, m, 'nor the map that was given')


ANY = Union(Scalar('bool', 'int', 'str'), LIST, DictOf(Str()))


@harness('one_value', 'C12', inputs={'f': OneOf('default', 'example'), 'mine': Opt(ANY), 'theirs': Opt(ANY)}, covers=['taken', 'stays'])
def one_value(f, mine, theirs):
    assume(not isinstance(theirs, list))
    assume(either(mine is None, not isinstance(theirs, dict)))
    a, b = schema(**{f: mine}), schema(**{f: theirs})
    a.merge(b, SchemaContext)
    cover('taken' if mine is None else 'stays')
    ensure_same(getattr(a, f), theirs if mine is None else mine, 'a default is one value, not a collection to add to')
    ensure_same(getattr(b, f), theirs, 'the target is not changed')


@harness('one_list', 'C12', inputs={'f': OneOf('default', 'example'), 'v': OneOf('a', 'b')})
def one_list(f, v):
    a, b = schema(**{f: [v]}), schema(**{f: ['z']})
    a.merge(b, SchemaContext)
    ensure(getattr(a, f) == [v], 'a default is one value, not a list to add to')


@harness('one_map', 'C12', inputs={'f': OneOf('default', 'example'), 'v': OneOf('a', 'b')})
def one_map(f, v):
    a, b = schema(**{f: {'x': v}}), schema(**{f: {'y': v}})
    a.merge(b, SchemaContext)
    ensure(getattr(a, f) == {'x': v}, 'a default is one value, not a map to add to')


def sub(t, d):
    return schema(type=t, description=d)


@harness('child_copied', 'C12', inputs={'t': V, 'props': Rec({}, {'p': Build(sub, V, V), 'q': Build(sub, V, V)}), 'it': V, 'k': OneOf('p', 'q', 'z')}, sizes='at most two properties')
def child_copied(t, props, it, k):
    inner = schema(type=t, properties=props, items=schema(format=it))
    b = parameter('body', schema=inner)
    AssignAll(b)
    a = parameter('body')
    a.merge(b, ParameterContext)
    c = a.schema
    ensure(c is not inner and c.items is not inner.items, 'children are copied')
    ensure(b.schema is inner and inner._parent_ is b and inner.items._parent_ is inner, 'the target keeps its own children')
    ensure(c._parent_ is a, 'the copy belongs to the local object')
    ensure(c.items._parent_ is c, 'and so on, deeply')
    ensure_same(c.type, t, 'with the same content')
    ensure_same(c.items.format, it, 'with the same content')
    ensure(iff(k in c.properties, k in props), 'the same names')
    if k in props:
        p = c.properties[k]
        ensure(p is not props[k], 'copied too')
        ensure(p._parent_ is c, 'and belonging to the copy')
        ensure(props[k]._parent_ is inner, 'while the original stays where it is')
        ensure_same(p.type, props[k].type, 'with the same content')
        ensure_same(p.description, props[k].description, 'with the same content')


def AssignAll(p):
    """parents as they are after parsing"""
    p._assign_parent(ParameterContext)
    p.schema._assign_parent(SchemaContext)


@harness('child_stays', 'C12', inputs={'t': V, 'u': V, 'd': V})
def child_stays(t, u, d):
    mine, theirs = schema(type=t), schema(type=u, description=d)
    a, b = parameter('body', schema=mine), parameter('body', schema=theirs)
    a.merge(b, ParameterContext)
    ensure(a.schema is mine, 'a child that is set locally stays as a whole')
    ensure_same(mine.type, t, 'unchanged')
    ensure(mine.description is None, 'nothing is added to it')
    ensure(b.schema is theirs, 'the target is not changed')
    ensure_same(theirs.type, u, 'nor its child')


@harness('children_list', 'C12', inputs={'three': Tup(Build(sub, V, V), Build(sub, V, V), Build(sub, V, V)), 'n': OneOf(0, 1, 2, 3), 'mine': Bool()}, covers=['some'], sizes='at most three children')
def children_list(three, n, mine):
    parts = list(three[:n])
    b = schema(allOf=parts)
    own = [schema(type='object')]
    a = schema(allOf=own if mine else [])
    ts = [x.type for x in parts]
    a.merge(b, SchemaContext)
    if mine:
        ensure(a.allOf is own and len(own) == 1, 'a list of children that is set locally stays as a whole')
    else:
        if len(parts) > 0:
            cover('some')
        ensure_same([x.type for x in a.allOf], ts, 'every child in order')
        ensure(all(x._parent_ is a for x in a.allOf), 'belonging to the local object')
    ensure_same([x.type for x in b.allOf], ts, 'the target is not changed')


@harness('excluded', 'C12', inputs={'f': OneOf('type', '$ref', 'enum', 'items'), 'd': V})
def excluded(f, d):
    b = schema(type='array', enum=['a'], items=schema(), description=d, **{'$ref': 'x'})
    a = schema()
    a.merge(b, SchemaContext, exclude=[f])
    ensure(getattr(a, f) is None, 'an excluded field is not taken')
    ensure_same(a.description, d, 'others are')


@harness('additional', 'C12', inputs={'x': OneOf(True, False), 't': V, 'o': Bool()})
def additional(x, t, o):
    inner = schema(type=t)
    b = schema(additionalProperties=inner if o else x)
    a = schema()
    a.merge(b, SchemaContext)
    if o:
        ensure(a.additionalProperties is not inner, 'a schema for other properties is copied')
        ensure_same(a.additionalProperties.type, t, 'with its content')
        ensure(a.additionalProperties._parent_ is a, 'and belongs to the local object')
    else:
        ensure(a.additionalProperties is x, 'allowing or forbidding other properties is taken')


# ---------------------------------------------------------------------------
# chains of references

class Docs(object):
    def __init__(self, objs):
        self.objs = objs

    def resolve(self, ref, parser=None):
        return self.objs[ref]


def first(*vs):
    for v in vs:
        if v is not None:
            return v
    return None


def link(d, t, r, n, loop):
    ps = [parameter(None, description=d[i], type=t[i], required=r[i], **{'$ref': 'r%d' % (i + 1) if i < n else None}) for i in range(3)]
    if loop is not None:
        ps[n].update_field('$ref', 'r%d' % loop)
    return ps


def check_chain(d, t, r, n, loop, field):
    ps = link(d, t, r, n, loop)
    refs = [getattr(p, '$ref') for p in ps]
    visit(Merge(), ps[0], app=Docs({'r%d' % i: ps[i] for i in range(3)}))
    f = ps[0].final
    ensure(f is not ps[0], 'the result is kept apart')
    want = {'description': d, 'type': t, 'required': r}[field]
    ensure_same(getattr(f, field), first(*want[:n + 1]), 'the nearest value of each field')
    for i in range(3):
        ensure_same([getattr(ps[i], field), getattr(ps[i], '$ref')], [want[i], refs[i]], 'no object of the chain is changed')


LENGTH = 'chains of up to three objects'


@harness('chain', 'C12', inputs={'d': Tup(V, V, V), 'n': OneOf(0, 1, 2)}, sizes=LENGTH)
def chain(d, n):
    check_chain(d, ['integer', None, 'string'], [None, False, True], n, None, 'description')


@harness('chain_flag', 'C12', inputs={'r': Tup(Opt(Bool()), Opt(Bool()), Opt(Bool())), 'n': OneOf(0, 1, 2)}, sizes=LENGTH)
def chain_flag(r, n):
    check_chain([None, 'b', 'c'], ['integer', None, 'string'], r, n, None, 'required')


@harness('chain_loop', 'C12', inputs={'t': Tup(V, V, V), 'n': OneOf((0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2))}, sizes=LENGTH)
def chain_loop(t, n):
    check_chain([None, 'b', 'c'], t, [None, False, True], n[0], n[1], 'type')


@harness('response_chain', 'C12', inputs={'d': Tup(V, V), 'h': Rec({}, {'X': Build(lambda t: header(type=t), V), 'Y': Build(lambda t: header(type=t), V)}), 's': V, 'q': OneOf('X', 'Y', 'Z')}, sizes='at most two headers')
def response_chain(d, h, s, q):
    ps = [response(description=d[0], **{'$ref': 'r1'}), response(description=d[1], headers=h, schema=schema(type=s))]
    visit(Merge(), ps[0], app=Docs({'r1': ps[1]}))
    f = ps[0].final
    ensure_same(f.description, first(*d), 'the nearest description')
    ensure_same(f.schema.type, s, 'the schema of the target')
    ensure(f.schema is not ps[1].schema and f.schema._parent_ is f, 'as a copy of its own')
    ensure(iff(q in f.headers, q in h), 'the headers of the target')
    if q in h:
        ensure_same(f.headers[q].type, h[q].type, 'with their content')
        ensure(f.headers[q] is not h[q] and f.headers[q]._parent_ is f, 'as copies of its own')


@harness('path_chain', 'C12', inputs={'a': Opt(V), 'b': Opt(V), 'c': V})
def path_chain(a, b, c):
    verbs = {}
    mine = operation(operationId='mine')
    theirs = operation(operationId='theirs', parameters=[parameter('query', name=c)])
    far = path_item(get=operation(operationId='far'), put=theirs)
    mid = path_item(get=theirs, **{'$ref': 'far'})
    p = path_item(post=mine, **{'$ref': 'mid'})
    visit(Merge(), p, app=Docs({'mid': mid, 'far': far}))
    ensure(p.post is not None and p.post.operationId == 'mine', 'own operations stay')
    ensure(p.get.operationId == 'theirs', 'the nearest one is taken')
    ensure(p.put.operationId == 'theirs', 'from further away where nothing is nearer')
    ensure(p.get is not theirs and p.get._parent_ is p, 'as copies of its own')
    ensure(p.get.parameters[0]._parent_ is p.get, 'with their parameters')
    ensure_same(p.get.parameters[0].name, c, 'with their parameters')
    ensure(p.delete is None and p.patch is None and p.head is None and p.options is None, 'no operation appears')
    ensure(mid.get is theirs and mid.put is None and far.put is theirs and mid.post is None, 'the targets are not changed')


@harness('mismatch', 'C12', inputs={'d': V})
def mismatch(d):
    p = parameter(None, **{'$ref': 'x'})
    r = outcome(visit, Merge(), p, '#', Docs({'x': response(description=d)}))
    ensure(not r.ok, 'a reference to an object of another kind is refused')
    ensure(isinstance(r.exc, TypeError), 'by a type error')


@harness('any_children', 'C12', inputs={'ts': ListOf(Tup(V, V)), 'mine': Bool()})
def any_children(ts, mine):
    parts = [schema(type=t, items=schema(format=f)) for t, f in ts]
    b = schema(allOf=parts)
    b._assign_parent(SchemaContext)
    for x in parts:
        x._assign_parent(SchemaContext)
    a = schema(allOf=[schema(type='object')] if mine else [])
    a.merge(b, SchemaContext)
    if mine:
        ensure(len(a.allOf) == 1 and a.allOf[0].type == 'object', 'a list of children that is set locally stays as a whole')
    else:
        ensure(len(a.allOf) == len(ts), 'every child')
        for x, y, v in zip(a.allOf, parts, ts):
            ensure(x is not y and x.items is not y.items, 'children are copied')
            ensure(x._parent_ is a and x.items._parent_ is x, 'belonging to the local object')
            ensure(y._parent_ is b and y.items._parent_ is y, 'while the originals stay where they are')
            ensure_same(x.type, v[0], 'with the same content')
            ensure_same(x.items.format, v[1], 'deeply')
    ensure(b.allOf is parts and len(parts) == len(ts), 'the target is not changed')


@harness('any_properties', 'C12', inputs={'d': DictOf(Tup(V, V), key=Str()), 'k': Str()})
def any_properties(d, k):
    props = {}
    for n in d:
        props[n] = schema(type=d[n][0], items=schema(format=d[n][1]))
    inner = schema(properties=props)
    b = parameter('body', schema=inner)
    AssignAll(b)
    for x in props.values():
        x._assign_parent(SchemaContext)
    a = parameter('body')
    a.merge(b, ParameterContext)
    c = a.schema
    ensure(c is not inner and c._parent_ is a and inner._parent_ is b, 'copied, belonging to the local object')
    ensure(iff(k in c.properties, k in d), 'the same names')
    if k in d:
        p, o = c.properties[k], inner.properties[k]
        ensure(p is not o and p.items is not o.items, 'copied too')
        ensure(p._parent_ is c and p.items._parent_ is p, 'and belonging to the copy')
        ensure(o._parent_ is inner and o.items._parent_ is o, 'while the originals stay where they are')
        ensure_same(p.type, d[k][0], 'with the same content')
        ensure_same(p.items.format, d[k][1], 'deeply')
