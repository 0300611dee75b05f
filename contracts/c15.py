from vc import *
from common import *
from pyswagger.errs import SchemaError
from pyswagger.primitives import Primitive
from pyswagger.scanner.v1_2 import upgrade as up
from pyswagger.scanner.v1_2 import Upgrade
from pyswagger.spec.v1_2 import parser as p1
from pyswagger.spec.v1_2 import objects as o1
from pyswagger.spec.v2_0 import objects as o2

PRIM = Primitive()
APP = World(PRIM)
TYPES = ('integer', 'number', 'string', 'boolean', 'array', 'file')
NAME = Str(nonempty=True)
V = Any()


def load(ctx, doc):
    tmp = {'t': {}}
    with ctx(tmp, 't') as c:
        c.parse(doc)
    return tmp['t']


def escaped(s):
    return s.replace('~', '~0').replace('/', '~1')


def target(scope, name, sep):
    return '#/definitions/' + escaped(scope + sep + name)


def limit(v, t):
    """what a limit of an old document means"""
    if v is None or v == '':
        return None
    if t == 'number':
        return float(v)
    r = outcome(int, v)
    return r.val if r.ok else int(float(v))


# --- types

@harness('kinds', 'C15', inputs={'t': Union(OneOf(None, *TYPES), NAME), 'r': Opt(NAME), 'scope': NAME, 'sep': NAME})
def kinds(t, r, scope, sep):
    """types stay, names of models become references into the converted models"""
    d, s = o2.Schema(NullContext()), old('Items', **{'type': t, '$ref': r})
    assume(t is None or t == t.lower())
    up.update_type_and_ref(d, s, scope, sep, APP)
    known = t is not None and PRIM.is_primitive(t)
    ensure(d.type == (t if known else None), 'a type of the specification stays')
    want = target(scope, t, sep) if t is not None and not known else target(scope, r, sep) if r is not None else None
    ensure(getattr(d, '$ref') == want, 'a model becomes a reference to the converted one')
    ensure(s.type == t and getattr(s, '$ref') == r, 'the old object stays')


LIMIT = Union(OneOf(None, '', 0, 1.5), Int(), Real(), OneOf('0', '1', '-7', '1.0', '9223372036854775807', '2.5', '1e3', '0.123456789'))


@harness('limits', 'C15', inputs={'t': OneOf(None, *TYPES), 'f': OneOf(None, 'int32', 'int64', 'float', 'double', 'byte'), 'lo': LIMIT, 'hi': LIMIT})
def limits(t, f, lo, hi):
    d, s = o2.Schema(NullContext()), old('Property', type=t, format=f, minimum=lo, maximum=hi)
    r = outcome(up.convert_min_max, d, s)
    given = [v for v in (lo, hi) if not (v is None or v == '')]
    if given and t not in ('integer', 'number'):
        ensure(isinstance(r.exc, SchemaError), 'limits belong to numbers')
        return
    ensure(r.ok, 'accepted')
    ensure(same(d.minimum, limit(lo, t)), 'the same minimum')
    ensure(same(d.maximum, limit(hi, t)), 'the same maximum')


def datatype(kind, t, f, dv, enum, unique, it, given):
    d = {'type': t, 'format': f, 'enum': enum, 'uniqueItems': unique}
    if given:
        d['defaultValue'] = dv
    if it is not None:
        d['items'] = it
    return load(getattr(p1, kind + 'Context'), d)


ITEMS = Rec({}, {'type': OneOf('integer', 'm'), '$ref': NAME, 'format': V})


def check_kind(s, d, scope, sep):
    """s: the converted one, d: the old document"""
    t = d.get('type')
    known = t is not None and PRIM.is_primitive(t)
    ensure(s.type == (t if known else None), 'type')
    r = d.get('$ref')
    ensure(getattr(s, '$ref') == (target(scope, t, sep) if t is not None and not known else target(scope, r, sep) if r is not None else None), 'reference')


@harness('datatypes', 'C15', inputs={'kind': OneOf('Property', 'Parameter', 'Operation'), 't': OneOf(None, 'string', 'array', 'm'), 'f': V, 'dv': V, 'enum': V, 'u': V, 'it': Opt(ITEMS), 'given': Bool(), 'scope': NAME, 'sep': NAME})
def datatypes(kind, t, f, dv, enum, u, it, given, scope, sep):
    assume(it is None or len(it) > 0)
    o = datatype(kind, t, f, dv, enum, u, dict(it) if it is not None else None, given)
    s = up.convert_schema_from_datatype(o, scope, sep, APP)
    ensure(isinstance(s, o2.Schema), 'a schema')
    check_kind(s, {'type': t}, scope, sep)
    ensure(s.format is f and same(s.enum, enum) and s.uniqueItems is u, 'format, enumeration and uniqueness stay')
    ensure(s.is_set('default') == given and (s.default is dv if given else s.default is None), 'the default stays')
    if it is None:
        ensure(s.items is None, 'no items')
    else:
        check_kind(s.items, it, scope, sep)
        ensure(same(s.items.format, it['format'] if 'format' in it else None), 'format of items')


@harness('array_items', 'C15', inputs={'t': Union(OneOf(None, *TYPES), NAME), 'r': Opt(NAME), 'f': V})
def array_items(t, r, f):
    """what is not in bodies has no references"""
    assume(t is None or t == t.lower())
    o = old('Items', **{'type': t, '$ref': r, 'format': f})
    res = outcome(up.convert_items, o, APP)
    if r is not None or t is None or not PRIM.is_primitive(t):
        ensure(isinstance(res.exc, SchemaError), 'references are refused')
    else:
        ensure(res.val.type == t and res.val.format is f, 'type and format stay')


# --- whole documents

RES = OneOf('pet', 'a/b', '~1')


def old_document(resources, **f):
    """a loaded document of version 1.2, as load_obj gives it"""
    o = load(p1.ResourceContext, {'apis': []})
    top = {'t': {}}
    ctx = p1.ResourceListContext(top, 't')
    ctx._obj = dict(f, apis=dict((k, load(p1.ResourceContext, resources[k])) for k in resources))
    if 'authorizations' in f:
        ctx._obj['authorizations'] = dict((k, load(p1.AuthorizationContext, f['authorizations'][k])) for k in f['authorizations'])
    if 'info' in f:
        ctx._obj['info'] = load(p1.InfoContext, f['info'])
    return ctx.produce()


def convert(resources, sep='!##!', **f):
    conv = Upgrade(sep)
    Scanner(APP).scan(root=old_document(resources, **f), route=[conv])
    return conv.swagger


def op(nickname='n', method='GET', **f):
    return dict(f, nickname=nickname, method=method, type=f.get('type', 'void'), parameters=f.get('parameters', []))


def api(path, *ops):
    return {'path': path, 'operations': list(ops)}


def resource(base, *apis, **f):
    return dict(f, basePath=base, apis=list(apis))


VERB = OneOf('GET', 'PUT', 'POST', 'DELETE', 'OPTIONS', 'HEAD', 'PATCH', 'get')
VERBS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')


@harness('operation', 'C15', inputs={'name': RES, 'verb': VERB, 'path': OneOf('/{a}'), 'f': Rec({}, {'summary': V, 'notes': V}), 'dep': OneOf(None, 'true', 'false'), 'nick': OneOf('a/b')})
def operation_(name, verb, path, f, dep, nick):
    """every old operation becomes one under its path and method"""
    d = op(nick, verb, **f)
    if dep is not None:
        d['deprecated'] = dep
    s = convert({name: resource('http://h/x', api(path, d))})
    ensure(same(list(s.paths), ['/x' + path]), 'under its path')
    item = s.paths['/x' + path]
    for v in VERBS:
        ensure((getattr(item, v) is not None) == (v == verb.lower()), 'and only its method')
    o = getattr(item, verb.lower())
    ensure(o.operationId == nick and o.tags == [name], 'with its name, tagged by its resource')
    ensure(same(o.summary, f['summary'] if 'summary' in f else None) and same(o.description, f['notes'] if 'notes' in f else None), 'and its texts')
    ensure(o.deprecated == (dep == 'true'), 'deprecated as the old one')
    ensure(same([t.name for t in s.tags], [name]), 'each resource has its tag')
    ensure(same(list(o.responses), ['default']) and o.responses['default'].schema is None, 'nothing to return')
    ensure(same(o.parameters, []) and same(o.security, []), 'no parameters, no security')


def single(d, name='pet', **f):
    """the operation a document with just this one is converted to"""
    return convert({name: resource('http://h', api('/p', d), **f)}).paths['/p'].get


MIME = Opt(ListOf(V, max=2))


@harness('content_types', 'C15', inputs={'own': Opt(ListOf(V)), 'res': Opt(ListOf(V)), 'f': OneOf('consumes', 'produces')})
def content_types(own, res, f):
    """content types: those of the operation, or else of its resource"""
    d, r = op(), {}
    if own is not None:
        d[f] = own
    if res is not None:
        r[f] = res
    o = single(d, **r)
    ensure(same(getattr(o, f), own if own else res if res else []), 'its own, or those of the resource')
    ensure(same(list(getattr(o, 'produces' if f == 'consumes' else 'consumes')), []), 'of that kind')


AUTH = Rec({}, {'key': OneOf(()), 'oauth': Union(Tup(V), Tup(V, V))})


@harness('security', 'C15', inputs={'own': Opt(AUTH), 'res': Opt(AUTH)}, sizes='two authorizations of up to two scopes')
def security(own, res):
    """authorizations: those of the operation, or else of its resource"""
    def doc(a):
        return dict((k, [{'scope': x} for x in a[k]]) for k in a)
    d, r = op(), {}
    if own is not None:
        d['authorizations'] = doc(own)
    if res is not None:
        r['authorizations'] = doc(res)
    o = single(d, **r)
    use = own if own else res if res else {}
    ensure(same(o.security, [{k: list(use[k])} for k in use]), 'each with its scopes')


@harness('returned', 'C15', inputs={'name': RES, 't': OneOf('void', 'string', 'Model', 'array'), 'f': V, 'it': Rec({}, {'$ref': OneOf('M/N', 'Model'), 'type': OneOf('integer')})})
def returned(name, t, f, it):
    """what an operation returns"""
    d = dict(op(), type=t, format=f)
    if t == 'array':
        assume(len(it) == 1)
        d['items'] = dict(it)
    o = single(d, name)
    ensure(same(list(o.responses), ['default']), 'one response')
    s = o.responses['default'].schema
    if t == 'void':
        ensure(s is None, 'without content')
        return
    check_kind(s, {'type': t}, name, '!##!')
    ensure(s.format is f, 'format')
    if t == 'array':
        check_kind(s.items, it, name, '!##!')
    else:
        ensure(s.items is None, 'no items')


WHERE = OneOf('path', 'query', 'header', 'form', 'body')
OUT = {'form': 'formData'}


@harness('parameter', 'C15', inputs={'name': RES, 'where': WHERE, 't': OneOf('string', 'integer', 'number', 'boolean'), 'n': V, 'r': V, 'f': V, 'text': V, 'dv': V, 'given': Bool(), 'enum': V, 'multi': OneOf(None, True, False), 'u': V})
def parameter_(name, where, t, n, r, f, text, dv, given, enum, multi, u):
    """one parameter of a simple type"""
    d = {'paramType': where, 'name': n, 'type': t, 'required': r, 'format': f, 'description': text, 'enum': enum, 'uniqueItems': u}
    if given:
        d['defaultValue'] = dv
    if multi is not None:
        d['allowMultiple'] = multi
    ps = single(op(parameters=[d]), name).parameters
    ensure(len(ps) == 1, 'one parameter')
    p = ps[0]
    ensure(p.name is n and p.required is r and p.description is text, 'its name, necessity and text')
    ensure(getattr(p, 'in') == OUT.get(where, where), 'its location')
    if where == 'body':
        s = p.schema
        ensure(s.type == t and s.format is f and s.enum is enum and s.uniqueItems is u and s.items is None, 'its schema')
        ensure(s.is_set('default') == given and (not given or s.default is dv), 'the default stays')
        ensure(p.type is None and p.items is None, 'described by the schema only')
    elif multi:
        ensure(p.type == 'array' and p.collectionFormat == 'csv' and p.uniqueItems is u, 'a comma separated list')
        ensure(p.items.type == t and p.items.format is f and p.items.enum is enum, 'of the type')
        ensure(p.is_set('default') == given and (not given or same(p.default, [dv])), 'the default stays')
        ensure(p.schema is None, 'no schema')
    else:
        ensure(p.type == t and p.format is f and p.enum is enum and p.items is None and p.schema is None, 'the type')
        ensure(p.is_set('default') == given and (not given or p.default is dv), 'the default stays')


@harness('parameter_limits', 'C15', inputs={'where': OneOf('query', 'body'), 't': OneOf('integer', 'number'), 'lo': LIMIT, 'hi': LIMIT, 'multi': Bool()}, weight=3)
def parameter_limits(where, t, lo, hi, multi):
    d = {'paramType': where, 'name': 'a', 'type': t, 'minimum': lo, 'maximum': hi, 'allowMultiple': multi}
    p = single(op(parameters=[d])).parameters[0]
    s = p.schema if where == 'body' else p.items if multi else p
    ensure(same(s.minimum, limit(lo, t)), 'the same minimum')
    ensure(same(s.maximum, limit(hi, t)), 'the same maximum')


@harness('parameter_array', 'C15', inputs={'name': RES, 'where': WHERE, 'it': Rec({}, {'type': OneOf('integer', 'M'), '$ref': OneOf('N/O'), 'format': V}), 'u': V, 'multi': Bool(), 'dv': V, 'given': Bool()})
def parameter_array(name, where, it, u, multi, dv, given):
    assume('type' in it or '$ref' in it)
    d = {'paramType': where, 'name': 'a', 'type': 'array', 'items': dict(it), 'uniqueItems': u, 'allowMultiple': multi}
    if given:
        d['defaultValue'] = dv
    r = outcome(single, op(parameters=[d]), name)
    if where == 'body':
        s = r.val.parameters[0].schema
        ensure(s.type == 'array' and s.uniqueItems is u, 'an array')
        check_kind(s.items, it, name, '!##!')
        ensure(same(s.items.format, it['format'] if 'format' in it else None), 'format of items')
        ensure(s.is_set('default') == given and (not given or s.default is dv), 'the default stays')
    elif it.get('type') != 'integer' or '$ref' in it:
        ensure(isinstance(r.exc, SchemaError), 'models belong to bodies')
    else:
        p = r.val.parameters[0]
        ensure(p.type == 'array' and p.collectionFormat == 'csv' and p.uniqueItems is u, 'a comma separated list')
        ensure(p.items.type == 'integer' and same(p.items.format, it['format'] if 'format' in it else None), 'of the type')
        ensure(p.is_set('default') == given and (not given or p.default is dv), 'the default stays')


@harness('parameter_kinds', 'C15', inputs={'where': WHERE, 't': OneOf('M', 'File', 'string'), 'r': Opt(OneOf('M/N')), 'name': RES})
def parameter_kinds(where, t, r, name):
    d = {'paramType': where, 'name': 'a', 'type': t}
    if r is not None:
        d['$ref'] = r
    res = outcome(single, op(parameters=[d]), name)
    if where == 'body':
        check_kind(res.val.parameters[0].schema, {'type': t, '$ref': r}, name, '!##!')
    elif r is not None:
        ensure(isinstance(res.exc, SchemaError), 'references belong to bodies')
    elif t == 'File':
        ensure(res.val.parameters[0].type == 'file', 'files')


@harness('parameters', 'C15', inputs={'texts': Tup(V, V, V), 'where': Tup(OneOf('query', 'body'), OneOf('form', 'header'), OneOf('path', 'query')), 'n': OneOf(0, 1, 2, 3), 'twice': Bool()}, sizes='up to three parameters, two operations')
def parameters(texts, where, n, twice):
    """every operation has its own parameters"""
    ds = [{'paramType': w, 'name': 'abc'[i], 'description': x, 'type': 'string'} for i, (w, x) in enumerate(zip(where, texts))]
    a, b = op('x', parameters=ds[:n]), op('y', 'POST', parameters=ds[n:])
    s = convert({'pet': resource('http://h', api('/p', a, b) if twice else api('/p', a), api('/q') if twice else api('/q', b))})
    o, q = s.paths['/p'].get, s.paths['/p' if twice else '/q'].post
    ensure(same(sorted(s.paths), ['/p'] if twice else ['/p', '/q']), 'paths that have operations')
    for x, i, j in ((o, 0, n), (q, n, 3)):
        ensure(same(sorted(p.name for p in x.parameters), ['a', 'b', 'c'][i:j]), 'each those of the old one')
        for p in x.parameters:
            k = 'abc'.index(p.name)
            ensure(p.description is texts[k] and getattr(p, 'in') == OUT.get(where[k], where[k]), 'with their content')


# --- of any number: visiting what is of interest instead of the whole document

def converted(d, parts, name='pet', sep='!##!', **f):
    """what an operation is converted to, when it, and the parts of it (a function) are visited in this order"""
    top = old_document({name: resource('http://h', api('/p', d), **f)})
    res = top.apis[name]
    o = res.apis['n']
    conv = Upgrade(sep)
    place = '#/apis/' + escaped(name)
    here = place + '/apis/n/parameters/'
    seq = [('#', top), (place, res), (place + '/apis/n', o)] + [(here + '0', p) for p in parts(o)]
    Scanner(APP).scan(root=top, route=[conv], nexter=lambda root, leaves: seq)
    return conv.swagger.paths['/p'].get


@harness('any_security', 'C15', inputs={'own': Opt(DictOf(ListOf(V), key=Str(nonempty=True))), 'res': Opt(DictOf(ListOf(V), key=Str(nonempty=True)))})
def any_security(own, res):
    def doc(a):
        return dict((k, [{'scope': x} for x in a[k]]) for k in a)
    d, r = op(), {}
    if own is not None:
        d['authorizations'] = doc(own)
    if res is not None:
        r['authorizations'] = doc(res)
    o = converted(d, lambda o: [], **r)
    use = own if own else res if res else {}
    ensure(same(o.security, [{k: use[k]} for k in use]), 'each with its scopes')


@harness('any_parameters', 'C15', inputs={'ts': ListOf(Tup(OneOf('query', 'body', 'form', 'path', 'header'), Str(), V))})
def any_parameters(ts):
    d = op(parameters=[{'paramType': w, 'name': n, 'description': x, 'type': 'string'} for w, n, x in ts])
    o = converted(d, lambda o: o.parameters)
    ensure(len(o.parameters) == len(ts), 'every parameter')
    for p, (w, n, x) in zip(o.parameters, ts):
        ensure(getattr(p, 'in') == OUT.get(w, w) and p.name == n and p.description is x, 'with its content')


# --- models

PROP = Rec({'type': OneOf('string', 'M')}, {'description': V})


@harness('model', 'C15', inputs={'name': OneOf('pet', 'a/b'), 'id': OneOf('a/b'), 'ps': Rec({}, {'x': PROP, 'y': PROP}), 'req': Opt(ListOf(V)), 'f': Rec({}, {'description': V, 'discriminator': V}), 'lo': OneOf(None, '1')}, sizes='at most two properties')
def model(name, id, ps, req, f, lo):
    m = dict(f, id=id, properties=dict((k, dict(ps[k])) for k in ps))
    if req is not None:
        m['required'] = req
    if lo is not None:
        m['properties']['z'] = {'type': 'integer', 'minimum': lo, 'description': 'd'}
    s = convert({name: resource('http://h', models={id: m})})
    ensure(same(list(s.definitions), [name + '!##!' + id]), 'one schema, named by resource and model')
    d = s.definitions[name + '!##!' + id]
    ensure(same(sorted(d.properties), sorted(m['properties'])), 'the same properties')
    for k in ps:
        check_kind(d.properties[k], {'type': ps[k]['type']}, name, '!##!')
        ensure(same(d.properties[k].description, ps[k]['description'] if 'description' in ps[k] else None), 'text')
    if lo is not None:
        ensure(same(d.properties['z'].minimum, int(lo)) and d.properties['z'].description == 'd', 'limits')
    ensure(same(d.required, req if req is not None else []), 'the same required properties')
    ensure(same(d.description, f['description'] if 'description' in f else None) and same(d.discriminator, f['discriminator'] if 'discriminator' in f else None), 'text and discriminator')
    ensure(same(d.allOf, []), 'no parts')


@harness('any_model', 'C15', inputs={'ps': DictOf(V, key=Str(nonempty=True)), 't': OneOf('string', 'M'), 'd': V})
def any_model(ps, t, d):
    """a model with any number of properties"""
    doc = dict((k, {'type': t, 'description': ps[k]}) for k in ps)
    top = old_document({'pet': resource('http://h', models={'M': {'id': 'M', 'properties': doc, 'description': d}})})
    res = top.apis['pet']
    conv = Upgrade('!##!')
    Scanner(APP).scan(root=top, route=[conv], nexter=lambda root, leaves: [('#', top), ('#/apis/pet', res), ('#/apis/pet/models/M', res.models['M'])])
    s = conv.swagger.definitions['pet!##!M']
    ensure(len(s.properties) == len(ps), 'no others')
    for k in ps:
        p = s.properties[k]
        ensure(p.type == (t if t != 'M' else None), 'its type')
        ensure(getattr(p, '$ref') == ('#/definitions/pet!##!M' if t == 'M' else None), 'or a reference')
        ensure(same(p.description, ps[k]), 'text')
    ensure(s.description is d, 'text')


@harness('inheritance', 'C15', inputs={'name': OneOf('pet'), 'subs': Tup(Bool(), Bool(), Bool(), Bool(), Bool(), Bool()), 'order': OneOf(*range(6)), 'ids': OneOf(('a/b', '~', 'C'))}, sizes='three models, every inheritance among them')
def inheritance(name, subs, order, ids):
    """a model that lists sub types is a part of each of them, wherever it stands"""
    pairs = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]
    has = [p for p, b in zip(pairs, subs) if b]
    seq = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][order]
    ms = {}
    for i in seq:
        ms[ids[i]] = {'id': ids[i], 'properties': {'p%d' % i: {'type': 'string'}}, 'subTypes': [ids[b] for a, b in has if a == i]}
    s = convert({name: resource('http://h', models=ms)})
    ensure(same(sorted(s.definitions), sorted(name + '!##!' + x for x in ids)), 'one schema each')
    for i in range(3):
        d = s.definitions[name + '!##!' + ids[i]]
        ensure(same(list(d.properties), ['p%d' % i]), 'with its own properties')
        ensure(same(sorted(getattr(x, '$ref') for x in d.allOf), sorted(target(name, ids[a], '!##!') for a, b in has if b == i)), 'and the models it extends as parts')


@harness('apart', 'C15', inputs={'names': OneOf(('a', 'b'), ('a', 'a/b'), ('~1', '/')), 'v': V, 'w': V, 'sep': OneOf('!##!', '.'), 'same_op': Bool()}, sizes='two resources')
def apart(names, v, w, sep, same_op):
    """what has the same name in different resources stays apart"""
    docs = [resource('http://h', api(p, op('n' if same_op else 'n' + p[1:], type='M', parameters=[{'paramType': 'body', 'name': 'b', 'type': 'M'}])),
                     models={'M': {'id': 'M', 'properties': {'p': {'type': 'M', 'format': x}}, 'subTypes': ['N']}, 'N': {'id': 'N', 'properties': {}}}) for p, x in (('/p', v), ('/q', w))]
    s = convert(dict(zip(names, docs)), sep)
    ensure(same(sorted(s.definitions), sorted(n + sep + m for n in names for m in ('M', 'N'))), 'each has its own models')
    ensure(same(sorted(t.name for t in s.tags), sorted(names)), 'and its tag')
    for n, p, x in zip(names, ('/p', '/q'), (v, w)):
        d = s.definitions[n + sep + 'M']
        ensure(d.properties['p'].format is x and getattr(d.properties['p'], '$ref') == target(n, 'M', sep), 'with its content')
        ensure(same([getattr(y, '$ref') for y in s.definitions[n + sep + 'N'].allOf], [target(n, 'M', sep)]), 'and inheritance')
        o = s.paths[p].get
        ensure(o.tags == [n] and getattr(o.responses['default'].schema, '$ref') == target(n, 'M', sep), 'operations return its own model')
        ensure(getattr(o.parameters[0].schema, '$ref') == target(n, 'M', sep), 'and take it')


# --- the document

@harness('authorization', 'C15', inputs={'name': RES, 't': OneOf('basicAuth', 'apiKey', 'oauth2'), 'kn': V, 'where': V, 'sc': Opt(Union(Tup(), Tup(V), Tup(V, V))), 'g': Rec({}, {'implicit': Opt(NAME), 'code': NAME})}, sizes='at most two scopes')
def authorization(name, t, kn, where, sc, g):
    d = {'type': t}
    if t == 'apiKey':
        d['keyname'], d['passAs'] = kn, where
    if sc is not None:
        d['scopes'] = [{'scope': 's%d' % i, 'description': x} for i, x in enumerate(sc)]
    if t == 'oauth2':
        d['grantTypes'] = {}
        if 'implicit' in g:
            d['grantTypes']['implicit'] = {'loginEndpoint': {'url': g['implicit']}}
        if 'code' in g:
            d['grantTypes']['authorization_code'] = {'tokenEndpoint': {'url': g['code']}}
    s = convert({}, authorizations={name: d}).securityDefinitions
    ensure(same(list(s), [name]), 'under its name')
    o = s[name]
    ensure(o.type == ('basic' if t == 'basicAuth' else t), 'of its kind')
    ensure(same(o.scopes, dict(('s%d' % i, x) for i, x in enumerate(sc or ()))), 'with its scopes')
    if t == 'apiKey':
        ensure(o.name is kn and getattr(o, 'in') is where, 'name and location of the key')
    if t == 'oauth2':
        a, b = g.get('implicit'), g.get('code')
        ensure(same(o.authorizationUrl, a) and same(o.tokenUrl, b), 'addresses')
        ensure(o.flow == ('implicit' if a else 'access_code' if b else None), 'flow')


@harness('any_scopes', 'C15', inputs={'t': OneOf('basicAuth', 'apiKey', 'oauth2'), 'sc': ListOf(Tup(Str(), V))})
def any_scopes(t, sc):
    top = old_document({}, authorizations={'pet': {'type': t, 'scopes': [{'scope': n, 'description': x} for n, x in sc]}})
    conv = Upgrade('!##!')
    Scanner(APP).scan(root=top, route=[conv], nexter=lambda root, leaves: [('#', top), ('#/authorizations/pet', top.authorizations['pet'])])
    want = {}
    for n, x in sc:
        want[n] = x
    ensure(same(conv.swagger.securityDefinitions['pet'].scopes, want), 'with its scopes')


@harness('information', 'C15', inputs={'v': Scalar('str', 'none'), 'i': Opt(Rec({}, {'title': NAME, 'description': NAME, 'termsOfServiceUrl': NAME, 'contact': NAME, 'license': NAME, 'licenseUrl': NAME}))}, weight=2)
def information(v, i):
    f = {'apiVersion': v}
    if i is not None:
        f['info'] = i
    s = convert({}, **f)
    i = i or {}
    ensure(same(s.info.version, v), 'version')
    ensure(same([s.info.title, s.info.description, s.info.termsOfService], [i.get('title'), i.get('description'), i.get('termsOfServiceUrl')]), 'texts')
    ensure((s.info.contact is not None) == ('contact' in i) and (not s.info.contact or s.info.contact.email == i['contact']), 'contact')
    ensure((s.info.license is not None) == ('license' in i or 'licenseUrl' in i), 'license, if any')
    if s.info.license:
        ensure(same([s.info.license.name, s.info.license.url], [i.get('license'), i.get('licenseUrl')]), 'license')
    ensure(s.swagger == '2.0' and same(s.paths, {}) and same(s.definitions, {}) and same(s.securityDefinitions, {}), 'a document of version 2.0, empty')


BASE = OneOf('http://h', 'http://h/', 'https://host.org:8080/api', 'http://h/a/b/', '/api', '')


@harness('addresses', 'C15', inputs={'base': BASE, 'ps': Tup(Bool(), Bool(), Bool(), Bool(), Bool()), 'two': Bool()}, sizes='every set of five paths')
def addresses(base, ps, two):
    """the host is taken from the base addresses, the paths keep the rest"""
    all_ = ['/api/user', '/api/util', '/a', '/{id}', '/a/']
    paths = [p for p, b in zip(all_, ps) if b]
    apis = [api(p, op('n%d' % i)) for i, p in enumerate(paths)]
    docs = {'x': resource(base, *apis[:1]), 'y': resource(base, *apis[1:])} if two else {'x': resource(base, *apis)}
    s = convert(docs)
    host = base[base.index('//') + 2:].split('/')[0] if '//' in base else ''
    rest = base[base.index('//') + 2 + len(host):] if '//' in base else base
    ensure(s.host == (host if paths else ''), 'the host')
    ensure(same(sorted(s.paths), sorted(rest + p for p in paths)), 'the paths')
    ensure(s.basePath == '' and same(list(s.schemes), ['http', 'https']), 'nothing before them')
    for i, p in enumerate(paths):
        ensure(s.paths[rest + p].get.operationId == 'n%d' % i, 'with their operations')
