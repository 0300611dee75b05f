from vc import *
from common import *
from pyswagger.scanner.v2_0.aggt import Aggregate

TYPE = Str()


def prop(t):
    return schema(type=t)


PROPS = Rec({}, {'a': Build(prop, TYPE), 'b': Build(prop, TYPE)})
REQ = OneOf((), ('a',), ('a', 'b'))


def part(props, req, kids=()):
    return schema(properties=props, required=list(req), allOf=list(kids))


def ref(s, name):
    return schema(**{'$ref': name, 'ref_obj': s})


def state(s):
    """the declared content of a schema"""
    return (s.type, [(k, id(s.properties[k]), s.properties[k].type, s.properties[k]._parent_ is s) for k in sorted(s.properties)], list(s.required), [id(x) for x in s.allOf],
            s.minItems, getattr(s, '$ref'), s.title)


def parented(s):
    for k in s.properties:
        s.properties[k]._parent__ = s
    return s


def check(root, parts):
    """parts: all schemas root is composed of, itself first"""
    for s in parts:
        parented(s)
    before = [state(s) for s in parts]
    visit(Aggregate(), root)
    f = root.final
    ensure(f is not None and f is not root, 'a schema of its own')
    ensure(same(sorted(f.properties), sorted(set(n for s in parts for n in s.properties))), 'every property of all parts')
    ensure(same(sorted(set(f.required)), sorted(set(n for s in parts for n in s.required))), 'every required name of all parts')
    ensure(len(f.allOf) == len(root.allOf) and getattr(f, '$ref') is None, 'it is composed of what the schema is composed of')
    for n in f.properties:
        if n in root.properties:
            ensure(same(f.properties[n].type, root.properties[n].type), 'its own declarations win')
        else:
            ensure(any(n in s.properties and s.properties[n].type == f.properties[n].type for s in parts), 'as declared in a part')
    for s, b in zip(parts, before):
        ensure(same(state(s), b), 'the parts stay as they are')
    return f


ONE = Rec({}, {'a': Build(prop, TYPE)})
TWO = Rec({}, {'b': Build(prop, TYPE)})


@harness('union', 'C23', inputs={'own': PROPS, 'p0': PROPS, 'p1': PROPS, 'n': OneOf(0, 1, 2), 'by_ref': Bool()}, sizes='up to two parts, two property names')
def union(own, p0, p1, n, by_ref):
    ps = [part(p0, ()), part(p1, ())][:n]
    root = part(own, (), [ref(p, str(i)) for i, p in enumerate(ps)] if by_ref else ps)
    check(root, [root] + ps)


@harness('required', 'C23', inputs={'r': Tup(REQ, REQ, REQ, REQ), 'nested': Bool(), 'by_ref': Bool()})
def required(r, nested, by_ref):
    ps = [part({}, r[1]), part({}, r[2]), part({}, r[3])]
    if nested:
        ps[1].update_field('allOf', [ref(ps[2], 'r')])
    root = part({}, r[0], [ref(p, str(i)) for i, p in enumerate(ps)] if by_ref else ps[:2] if nested else ps)
    check(root, [root] + ps)


@harness('deep', 'C23', inputs={'own': ONE, 'p0': TWO, 'p1': ONE, 'p2': ONE, 'shape': OneOf('chain', 'fork', 'diamond', 'both'), 'by_ref': Bool()}, sizes='three levels, two property names')
def deep(own, p0, p1, p2, shape, by_ref):
    via = ref if by_ref else (lambda s, n: s)
    low = part(p2, ('c',))
    if shape == 'chain':
        mid = [part(p1, ('b',), [part(p0, (), [via(low, 'low')])])]
        parts = [mid[0], mid[0].allOf[0], low]
    elif shape == 'fork':
        mid = [part(p1, ('b',), [via(low, 'low')]), part(p0, ('a',))]
        parts = mid + [low]
    elif shape == 'diamond':
        mid = [part(p1, ('b',), [via(low, 'low')]), part(p0, ('a',), [via(low, 'low')])]
        parts = mid + [low]
    else:
        mid = [part(p1, ('b',), [via(low, 'low')]), low, part(p0, ('a',))]
        parts = [mid[0], mid[2], low]
    root = part(own, (), mid)
    check(root, [root] + parts)


FIELDS = ['type', 'format', 'minItems', 'maxItems', 'maximum', 'minLength', 'title', 'description', 'readOnly', 'discriminator']


@harness('fields', 'C23', inputs={'f': OneOf(*FIELDS), 'own': Opt(Str(nonempty=True)), 'a': Opt(Str(nonempty=True)), 'b': Opt(Str(nonempty=True))})
def fields(f, own, a, b):
    root = schema(allOf=[schema(**{f: a}), schema(allOf=[schema(**{f: b})])], **{f: own})
    visit(Aggregate(), root)
    v = getattr(root.final, f)
    if own is not None:
        ensure(same(v, own), 'its own declaration wins')
    else:
        ensure(either(both(a is not None, same(v, a)), both(b is not None, same(v, b)), both(a is None, b is None, v is None)), 'else that of a part')
    ensure(same(getattr(root, f), own), 'the schema stays as it is')


@harness('array', 'C23', inputs={'t': TYPE, 'n': Opt(Int(1)), 'where': OneOf('own', 'part', 'nested')})
def array(t, n, where):
    it = schema(type=t, allOf=[schema(maxLength=n)])
    if where == 'own':
        root = schema(type='array', items=it)
    elif where == 'part':
        root = schema(allOf=[schema(type='array', items=it)])
    else:
        root = schema(allOf=[schema(allOf=[schema(type='array', items=it)])])
    visit(Aggregate(), root)
    f = root.final
    ensure(f.type == 'array', 'the type of a part')
    ensure(same(f.items.type, t), 'with its items')
    ensure(same(f.items.final.maxLength, n), 'which are composed, too')
    ensure(same(it.maxLength, None), 'the parts stay as they are')


@harness('inside', 'C23', inputs={'t': TYPE, 'n': Opt(Int(1)), 'where': OneOf('property', 'part', 'item')})
def inside(t, n, where):
    inner = schema(type=t, allOf=[schema(maxLength=n)])
    if where == 'property':
        root = schema(properties={'a': inner})
    elif where == 'part':
        root = schema(allOf=[schema(properties={'a': inner})])
    else:
        root = schema(items=schema(properties={'a': inner}))
    visit(Aggregate(), root)
    f = root.final if where != 'item' else root.items.final
    ensure(both(same(f.properties['a'].type, t), same(f.properties['a'].final.type, t)), 'the property')
    ensure(same(f.properties['a'].final.maxLength, n), 'composed, too')


@harness('plain', 'C23', inputs={'props': PROPS, 'r': REQ, 't': Opt(Str()), 'm': Opt(Int()), 'd': Opt(Str()), 'ad': Bool()})
def plain(props, r, t, m, d, ad):
    s = parented(schema(properties=props, required=list(r), type=t, maxItems=m, description=d, additionalProperties=ad))
    other = schema(type=t, properties={'z': schema(type=t)})
    b, c = state(s), state(other)
    visit(Aggregate(), s)
    f = s.final
    ensure(both(same(f.type, t), same(f.maxItems, m), same(f.description, d), same(f.additionalProperties, ad)), 'a schema without parts is what it declares')
    ensure(same([(k, f.properties[k].type) for k in sorted(f.properties)], [(k, props[k].type) for k in sorted(props)]), 'a schema without parts is what it declares')
    ensure(same(sorted(f.required), sorted(r)), 'a schema without parts is what it declares')
    ensure(same(state(s), b), 'and stays as it is')
    ensure(other.final is None and same(state(other), c), 'other schemas stay as they are')
    visit(Aggregate(), s)
    ensure(s.final is f, 'once')


@harness('shared_part', 'C23', inputs={'p': PROPS, 'a': PROPS, 'b': PROPS})
def shared_part(p, a, b):
    base = part(p, ('a',))
    x, y = part(a, (), [ref(base, 'base')]), part(b, ('b',), [ref(base, 'base')])
    check(x, [x, base])
    check(y, [y, base])


@harness('references', 'C23', inputs={'p': PROPS, 'q': PROPS, 'n': OneOf(1, 2)}, sizes='references of up to two steps')
def references(p, q, n):
    base = part(p, ('a',), [part(q, ('b',))])
    r = ref(base, 'base')
    if n == 2:
        r = ref(r, 'r')
    user = schema(properties={'u': r})
    visit(Aggregate(), user)
    f = base.final
    ensure(same(sorted(f.properties), sorted(set(list(p) + list(q)))), 'the target of a reference is composed')
    visit(Aggregate(), r)
    ensure(base.final is f, 'once')


@harness('circular', 'C23', inputs={'p': PROPS, 'q': PROPS, 'how': OneOf('self', 'mutual', 'property')})
def circular(p, q, how):
    s = part(p, ('a',))
    if how == 'self':
        s.update_field('allOf', [ref(s, 's')])
        parts = [s]
    elif how == 'mutual':
        t = part(q, ('b',))
        s.update_field('allOf', [ref(t, 't')])
        t.update_field('allOf', [ref(s, 's')])
        parts = [s, t]
    else:
        s.properties['self'] = ref(s, 's')
        parts = [s]
    check(s, parts)


@harness('circular_parts', 'C23', inputs={'p': PROPS, 'q': ONE, 'x': TWO, 't': TYPE, 'n': OneOf(2, 3), 'extra': OneOf('first', 'last')}, sizes='circles of two and three schemas')
def circular_parts(p, q, x, t, n, extra):
    """every schema of a circle is composed of all of them, whichever is composed first"""
    ss = [part(p, ('a',)), part(q, ('b',)), part({'c': schema(type=t)}, ())][:n]
    e = part(dict(x, d=schema(type=t)), ('d',))
    for i in range(n):
        to = ref(ss[(i + 1) % n], str(i))
        ss[i].update_field('allOf', [to] if i else [e, to] if extra == 'first' else [to, e])
    check(ss[0], ss + [e])
    for s in ss:
        visit(Aggregate(), s)
        ensure(same(sorted(s.final.properties), sorted(set(k for o in ss + [e] for k in o.properties))), 'every property of all parts')
        ensure(same(sorted(set(s.final.required)), sorted(set(k for o in ss + [e] for k in o.required))), 'every required name of all parts')


RICH = ['type', 'title', 'description', 'format', 'readOnly', 'default', 'minimum', 'maxLength', 'pattern', 'multipleOf']


@harness('declarations', 'C23', inputs={'f': OneOf(*[f for f in RICH if f != 'type']), 't': Tup(Str(), Str(), Str()), 'v': Tup(Opt(Int()), Opt(Int()), Int()), 'own': Bool(), 'req': OneOf((), ('a',))})
def declarations(f, t, v, own, req):
    """properties with any of the fields"""
    ps = [schema(type=t[i], properties={'z': schema(title=t[i])}, required=list(req), **{f: v[i]}) for i in range(3)]
    low = part({'a': ps[1]}, ('a',), [part({'a': ps[2], 'b': ps[2]}, ())])
    root = part({'a': ps[0]} if own else {}, req, [ref(low, 'low')])
    visit(Aggregate(), root)
    same_as = lambda p, q: both(same(p.type, q.type), same(getattr(p, f), getattr(q, f)), same(p.properties['z'].title, q.properties['z'].title), same(sorted(p.required), sorted(q.required)))
    p = root.final.properties
    ensure(same(sorted(p), ['a', 'b']), 'every property')
    ensure(same_as(p['a'], ps[0]) if own else either(same_as(p['a'], ps[1]), same_as(p['a'], ps[2])), 'its own declaration wins, with all it says')
    ensure(same_as(p['b'], ps[2]), 'others as declared in a part')
    for i in range(3):
        ensure(both(same(ps[i].type, t[i]), same(getattr(ps[i], f), v[i])), 'the parts stay as they are')
