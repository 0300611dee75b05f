from vc import *
from common import *
from pyswagger.primitives import Primitive, Model

VAL = Scalar('bool', 'int', 'real', 'str')


def factory():
    """string values of format x / y are built by arbitrary functions"""
    p = Primitive()
    x, y = ufn('make_x'), ufn('make_y')
    p.register('string', 'x', lambda obj, v, ctx: x(v))
    p.register('string', 'y', lambda obj, v, ctx: y(v))
    return p, x, y


X = Build(schema, type='string', format='x')
Y = Build(schema, type='string', format='y')


@harness('declared', 'C05', inputs={'props': DictOf(X), 'v': DictOf(VAL)})
def declared(props, v):
    p, x, y = factory()
    r = p.produce(schema(type='object', properties=props, additionalProperties=False), v)
    ensure(isinstance(r, Model), 'an object value')
    ensure(same(dict(r), {k: x(v[k]) for k in v if k in props}), 'exactly the given declared properties, each built by its schema')


@harness('extra_kept', 'C05', inputs={'props': DictOf(X), 'v': DictOf(VAL), 'typed': Bool()})
def extra_kept(props, v, typed):
    p, x, y = factory()
    o = schema(properties=props, additionalProperties=True)
    if typed:
        o.update_field('type', 'object')
    r = p.produce(o, v)
    ensure(same(dict(r), {k: x(v[k]) if k in props else v[k] for k in v}), 'undeclared properties are kept as given')


@harness('extra_schema', 'C05', inputs={'props': DictOf(X), 'v': DictOf(VAL)})
def extra_schema(props, v):
    p, x, y = factory()
    r = p.produce(schema(type='object', properties=props, additionalProperties=schema(type='string', format='y')), v)
    ensure(same(dict(r), {k: x(v[k]) if k in props else y(v[k]) for k in v}), 'undeclared properties are built by the additional-property schema')


@harness('defaults', 'C05', inputs={'v': DictOf(VAL, keys=['a', 'b']), 'd': VAL, 'e': VAL})
def defaults(v, d, e):
    p, x, y = factory()
    r = p.produce(schema(type='object', additionalProperties=False, properties={
        'a': schema(type='string', format='x', default=d), 'b': schema(type='string', format='y', default=e), 'c': schema(type='string', format='y')}), v)
    ensure(same(r['a'], x(v['a']) if 'a' in v else x(d)), 'a missing property has its default')
    ensure(same(r['b'], y(v['b']) if 'b' in v else y(e)), 'a missing property has its default')
    ensure(iff('c' in r, 'c' in v), 'no default, no property')


@harness('default_object', 'C05', inputs={'kind': OneOf('object', 'untyped', 'array', 'reference', 'composed'), 'da': VAL, 'db': Opt(VAL), 'e': VAL, 'k': Opt(VAL)})
def default_object(kind, da, db, e, k):
    p, x, y = factory()
    d = {'a': da} if db is None else {'a': da, 'b': db}
    v = {} if k is None else {'k': k}
    inner = {'a': schema(type='string', format='x'), 'b': schema(type='string', format='y', default=e)}
    want = {'a': x(da), 'b': y(e) if db is None else y(db)}
    if kind == 'object':
        o = schema(type='object', properties=inner, default=d)
    elif kind == 'untyped':
        o = schema(properties=inner, default=d)
    elif kind == 'array':
        o, want = schema(type='array', items=schema(type='object', properties=inner), default=[d, d]), [want, want]
    elif kind == 'reference':
        o = schema(default=d)
        o.update_field('ref_obj', schema(type='object', properties=inner))
    else:
        o = schema(allOf=[schema(type='object', properties=inner)], default=d)
    r = p.produce(schema(type='object', properties={'n': o, 'k': schema(type='string', format='x')}), v)
    ensure(same([dict(i) for i in r['n']] if kind == 'array' else dict(r['n']), want), 'a default is built by its schema')
    ensure(iff('k' in r, 'k' in v), 'the rest as given')


@harness('required', 'C05', inputs={'names': ListOf(Str()), 'v': DictOf(VAL), 'read': OneOf(None, True, False)}, covers=['ok', 'missing'])
def required(names, v, read):
    p, x, y = factory()
    r = outcome(p.produce, schema(type='object', required=names), v, None if read is None else {'read': read})
    if all(n in v for n in names):
        cover('ok')
        ensure(r.ok, 'accepted when every required property is given')
        ensure(same(dict(r.val), v), 'nothing lost')
    else:
        cover('missing')
        ensure(not r.ok, 'rejected when a required property is missing')
        ensure(isinstance(r.exc, ValueError), 'by a value error')


@harness('required_declared', 'C05', inputs={'flag': OneOf(None, True, False), 'read': OneOf(None, True, False), 'extra': OneOf(None, False, True), 'v': DictOf(VAL, keys=['a', 'b', 'c'])}, covers=['ok', 'missing'])
def required_declared(flag, read, extra, v):
    """names that are required, declared or both"""
    p, x, y = factory()
    assume(flag is not True or read is not False or 'a' not in v)
    o = schema(type='object', required=['a', 'b'], additionalProperties=extra, properties={'a': schema(type='string', format='x', readOnly=flag), 'c': schema(type='string', format='y')})
    r = outcome(p.produce, o, v, None if read is None else {'read': read})
    if both('a' in v, 'b' in v):
        cover('ok')
        ensure(r.ok, 'accepted when every required property is given')
        ensure(same(r.val['a'], x(v['a'])), 'built by its schema')
    else:
        cover('missing')
        ensure(not r.ok, 'rejected when a required property is missing')


@harness('required_default', 'C05', inputs={'d': VAL, 'v': DictOf(VAL, keys=['a'])})
def required_default(d, v):
    p, x, y = factory()
    r = p.produce(schema(type='object', required=['a'], properties={'a': schema(type='string', format='x', default=d)}), v)
    ensure(same(r['a'], x(v['a']) if 'a' in v else x(d)), 'the default satisfies the requirement')


@harness('read_only', 'C05', inputs={'flag': OneOf(None, True, False), 'read': OneOf(None, True, False), 'need': OneOf(None, 'a', 'b'), 'v': DictOf(VAL, keys=['a', 'b'])}, covers=['refused', 'ok'])
def read_only(flag, read, need, v):
    p, x, y = factory()
    assume(need is None or need in v)
    o = schema(type='object', required=[] if need is None else [need], properties={'a': schema(type='string', format='x', readOnly=flag), 'b': schema(type='string', format='y')})
    ctx = None if read is None else {'read': read}
    r = outcome(p.produce, o, v, ctx)
    if flag is True and read is False and 'a' in v:
        cover('refused')
        ensure(not r.ok, 'a read-only property is refused when writing')
    else:
        cover('ok')
        ensure(r.ok, 'anything else is accepted')
        ensure(iff('a' in v, 'a' in r.val), 'property kept')
        ensure(same(dict(r.val), {k: x(v[k]) if k == 'a' else (y(v[k]) if k == 'b' else v[k]) for k in v}), 'all properties kept')


@harness('discriminator', 'C05', inputs={'n': Str(), 'd': Str(nonempty=True), 'v': DictOf(VAL)})
def discriminator(n, d, v):
    p, x, y = factory()
    r = p.produce(schema(type='object', discriminator=d, properties={d: schema(type='string')}, name=n), v)
    ensure(same(r[d], n), 'the discriminator names the schema')
    ensure(all(same(r[k], v[k]) for k in v if k != d), 'other properties are kept')


OWN = OneOf({}, {'type': 'object'}, {'additionalProperties': False})


@harness('composed', 'C05', inputs={'own': OWN, 'pa': DictOf(X), 'pb': DictOf(Y), 'v': DictOf(VAL)})
def composed(own, pa, pb, v):
    p, x, y = factory()
    assume(all(k not in pb for k in pa))
    r = p.produce(schema(allOf=[schema(type='object', properties=pa), schema(type='object', properties=pb)], **own), v)
    ensure(same(dict(r), {k: x(v[k]) if k in pa else (y(v[k]) if k in pb else v[k]) for k in v}), 'each property built by the part that declares it')


@harness('composed_own', 'C05', inputs={'po': DictOf(X), 'pa': DictOf(Y), 'v': DictOf(VAL), 'deep': OneOf(None, 'one', 'first', 'last')})
def composed_own(po, pa, v, deep):
    p, x, y = factory()
    assume(all(k not in pa for k in po))
    part = schema(type='object', properties=pa)
    if deep == 'one':
        part = schema(type='object', allOf=[part])
    elif deep == 'last':
        part = schema(type='object', allOf=[schema(type='object'), part])
    elif deep == 'first':
        part = schema(allOf=[part, schema(type='object')])
    r = p.produce(schema(type='object', properties=po, allOf=[part]), v)
    ensure(same(dict(r), {k: x(v[k]) if k in po else (y(v[k]) if k in pa else v[k]) for k in v}), 'own properties and those of the part')


@harness('composed_required', 'C05', inputs={'v': DictOf(VAL, keys=['a', 'b'])}, covers=['ok'])
def composed_required(v):
    p, x, y = factory()
    o = schema(type='object', required=['a'], allOf=[schema(type='object', properties={'a': schema(type='string', format='x')}),
                                                     schema(type='object', required=['b'], properties={'b': schema(type='string', format='y')})])
    r = outcome(p.produce, o, v)
    ensure(iff(r.ok, both('a' in v, 'b' in v)), 'every required name of every part')
    if r.ok:
        cover('ok')
        ensure(same(r.val['a'], x(v['a'])), 'first part')
        ensure(same(r.val['b'], y(v['b'])), 'second part')


@harness('composed_scalar', 'C05', inputs={'addp': OneOf(None, False), 'how': OneOf('parts', 'own', 'own_late', 'late', 'deep', 'deep_last', 'reference'), 'm': Int(), 'n': Int(), 'v': Int(ex=[0])})
def composed_scalar(addp, how, m, n, v):
    own = {} if addp is None else {'additionalProperties': addp}
    lo = schema(type='integer', minimum=n)
    if how == 'parts':
        o = schema(allOf=[schema(type='integer', maximum=m), lo], **own)
    elif how == 'own':
        o = schema(maximum=m, allOf=[lo], **own)
    elif how == 'own_late':
        o = schema(maximum=m, allOf=[schema(**own), lo], **own)
    elif how == 'late':
        o = schema(allOf=[schema(maximum=m, **own), lo], **own)
    elif how == 'deep':
        o = schema(allOf=[schema(allOf=[lo], **own), schema(allOf=[schema(maximum=m)])], **own)
    elif how == 'deep_last':
        o = schema(allOf=[schema(type='integer'), schema(allOf=[schema(), lo, schema(allOf=[schema(), schema(maximum=m)])])], **own)
    else:
        ref = schema()
        ref.update_field('ref_obj', schema(type='integer', maximum=m))
        o = schema(allOf=[lo, schema(allOf=[ref])], **own)
    r = outcome(Primitive().produce, o, v)
    ensure(iff(r.ok, both(v <= m, v >= n)), 'every part constrains the value')
    if r.ok:
        ensure(same(r.val, v), 'value kept')


KINDS = {'integer': schema(type='integer'), 'number': schema(type='number'), 'boolean': schema(type='boolean'), 'string': schema(type='string')}


@harness('composed_kinds', 'C05', inputs={'kind': OneOf(*sorted(KINDS)), 'how': OneOf('one', 'two', 'late', 'deep'), 'v': Scalar('bool', 'int', 'real', 'str')})
def composed_kinds(kind, how, v):
    k = KINDS[kind]
    parts = {'one': [k], 'two': [k, k], 'late': [schema(), k], 'deep': [schema(allOf=[k]), k]}[how]
    p = Primitive()
    a, b = outcome(p.produce, k, v), outcome(p.produce, schema(allOf=parts), v)
    ensure(a.ok == b.ok, 'a composition of one schema accepts what that schema does')
    if a.ok:
        ensure(same(a.val, b.val), 'with the same value')


@harness('composed_array', 'C05', inputs={'how': OneOf('one', 'two', 'split', 'reverse', 'own', 'typed', 'deep'), 'lo': Opt(Int(0)), 'hi': Opt(Int(0)), 'v': ListOf(VAL)}, covers=['ok', 'refused'])
def composed_array(how, lo, hi, v):
    p, x, y = factory()
    lim = {'minItems': lo, 'maxItems': hi}
    one, all_ = schema(type='array', items=schema(type='string', format='x')), schema(type='array', items=schema(type='string', format='x'), **lim)
    o = {'one': lambda: schema(allOf=[all_]),
         'two': lambda: schema(allOf=[all_, all_]),
         'split': lambda: schema(allOf=[schema(type='array', **lim), one]),
         'reverse': lambda: schema(allOf=[one, schema(type='array', **lim)]),
         'own': lambda: schema(allOf=[one], **lim),
         'typed': lambda: schema(type='array', allOf=[one], **lim),
         'deep': lambda: schema(allOf=[schema(allOf=[one]), schema(allOf=[schema(**lim)])])}[how]()
    r = outcome(p.produce, o, v)
    if both(lo is None or len(v) >= lo, hi is None or len(v) <= hi):
        cover('ok')
        ensure(r.ok, 'lists within the item limits of all parts are accepted')
        ensure(same(list(r.val), [x(e) for e in v]), 'every item once, in order, built by the part that has the item schema')
    else:
        cover('refused')
        ensure(not r.ok, 'lists outside the limits of any part are rejected')


@harness('untyped', 'C05', inputs={'o': OneOf({}, {'additionalProperties': False}, {'allOf': [schema()]}, {'allOf': [schema(), schema(additionalProperties=False)]}), 'v': Union(VAL, ListOf(VAL)), 'place': OneOf('value', 'property', 'item', 'additional')})
def untyped(o, v, place):
    p = Primitive()
    o = schema(**o)
    if place == 'value':
        r = p.produce(o, v)
    elif place == 'property':
        r = p.produce(schema(type='object', properties={'a': o}), {'a': v})['a']
    elif place == 'item':
        r = p.produce(schema(type='array', items=o), [v])[0]
    else:
        r = p.produce(schema(type='object', additionalProperties=o), {'a': v})['a']
    ensure(same(r, v), 'a schema that tells no type keeps any value')


@harness('nested', 'C05', inputs={'props': DictOf(X), 'v': DictOf(DictOf(VAL))})
def nested(props, v):
    p, x, y = factory()
    inner = schema(type='object', properties=props, additionalProperties=False)
    r = p.produce(schema(type='object', properties={'a': inner, 'b': schema(type='array', items=inner)}), {'a': v.get('a', {}), 'b': [v[k] for k in v]})
    f = lambda d: {k: x(d[k]) for k in d if k in props}
    ensure(same(dict(r['a']), f(v.get('a', {}))), 'nested objects are built by their schema')
    ensure(same([dict(z) for z in r['b']], [f(v[k]) for k in v]), 'arrays of objects too')


@harness('pure', 'C05', inputs={'v': DictOf(VAL)})
def pure(v):
    p, x, y = factory()
    w = dict(v)
    p.produce(schema(type='object', properties={'a': schema(type='string', format='x')}, discriminator='k'), v)
    ensure(same(v, w), 'the given map is not modified')


@harness('access', 'C05', inputs={'v': DictOf(VAL, keys=['a', 'b']), 'z': VAL})
def access(v, z):
    r = Primitive().produce(schema(type='object'), v)
    if 'a' in v:
        ensure(same(r.a, v['a']), 'readable as attribute')
    r.b = z
    ensure(same(r['b'], z), 'writable as attribute')


@harness('equality', 'C05', inputs={'u': DictOf(Scalar()), 'v': DictOf(Scalar())}, covers=['eq', 'ne'])
def equality(u, v):
    p = Primitive()
    a, b = p.produce(schema(type='object'), u), p.produce(schema(type='object'), v)
    e = both(all(u[k] == v.get(k, None) for k in u), all(v[k] is None for k in v if k not in u))
    cover('eq' if e else 'ne')
    ensure(iff(a == b, e), 'equal when they agree on everything set')
    ensure(iff(a != b, not e), 'and unequal otherwise')
    ensure(iff(a == v, e), 'compared with a plain map alike')
    ensure(a != None, 'never equal to nothing')


@harness('read_only_nested', 'C05', inputs={'flag': OneOf(None, True, False), 'read': OneOf(None, True, False), 'how': OneOf('property', 'items', 'additional', 'deep'), 'v': DictOf(VAL, keys=['a', 'b'])}, covers=['refused', 'ok'])
def read_only_nested(flag, read, how, v):
    p, x, y = factory()
    inner = schema(type='object', properties={'a': schema(type='string', format='x', readOnly=flag), 'b': schema(type='string', format='y')})
    if how == 'property':
        o, w = schema(type='object', properties={'n': inner}), {'n': v}
    elif how == 'items':
        o, w = schema(type='array', items=inner), [v]
    elif how == 'additional':
        o, w = schema(type='object', additionalProperties=inner), {'n': v}
    else:
        o, w = schema(type='object', properties={'m': schema(type='array', items=inner)}), {'m': [v]}
    r = outcome(p.produce, o, w, None if read is None else {'read': read})
    if flag is True and read is False and 'a' in v:
        cover('refused')
        ensure(not r.ok, 'a read-only property is refused when writing, however deep it is')
    else:
        cover('ok')
        ensure(r.ok, 'anything else is accepted')


@harness('default_unused', 'C05', inputs={'props': DictOf(X), 'd': DictOf(VAL), 'v': DictOf(VAL)})
def default_unused(props, d, v):
    p, x, y = factory()
    r = p.produce(schema(type='object', properties=props, additionalProperties=True, default=d), v)
    ensure(same(dict(r), {k: x(v[k]) if k in props else v[k] for k in v}), 'a given object is not replaced by the default, even when it is empty')
