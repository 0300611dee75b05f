from vc import *
from common import *
from pyswagger.spec.v2_0 import parser as p2
from pyswagger.spec.v1_2 import parser as p1


def load(ctx, doc):
    tmp = {'t': {}}
    with ctx(tmp, 't') as c:
        c.parse(doc)
    return tmp['t']


def plain_fields(ctx):
    kind = ctx.__swagger_ref_object__
    return [n for n in kind.__swagger_fields__ if n not in ctx.__swagger_child__]


def child_fields(ctx):
    return [n for n in ctx.__swagger_ref_object__.__swagger_fields__ if n in ctx.__swagger_child__]


NAMES2 = ['ExternalDocumentation', 'XMLObject', 'Items', 'Schema', 'Parameter', 'Header', 'Response', 'Operation', 'PathItem', 'SecurityScheme', 'Tag', 'Contact', 'License', 'Info', 'Swagger']
NAMES1 = ['Scope', 'Authorizations', 'LoginEndpoint', 'Implicit', 'TokenRequestEndpoint', 'TokenEndpoint', 'AuthorizationCode', 'GrantType', 'Authorization', 'ResponseMessage', 'Info', 'Operation', 'Api', 'Model']
KINDS = [getattr(p2, n + 'Context') for n in NAMES2]
ALL = [(k, f) for k in KINDS for f in plain_fields(k)]
OLD = [(getattr(p1, n + 'Context'), f) for n in NAMES1 for f in plain_fields(getattr(p1, n + 'Context')) if f != 'items']
SCALARS = [(k, f) for k, f in ALL if not isinstance(k.__swagger_ref_object__.__swagger_fields__[f], (list, dict))]


def attr(kind, f):
    return kind.__swagger_rename__.get(f, f)


def empty(ctx, g):
    """what stands for an absent field"""
    d = ctx.__swagger_ref_object__.__swagger_fields__[g]
    if g in ctx.__swagger_child__ and ctx.__swagger_child__[g][0]:
        return [] if ctx.__swagger_child__[g][0] == 1 else {}
    return d


def check_field(ctx, f, v, u):
    kind = ctx.__swagger_ref_object__
    o = load(ctx, {f: v, 'x-more': u})
    ensure(isinstance(o, kind), 'an object of the kind')
    ensure(getattr(o, attr(kind, f)) is v, 'the field has the value of the document')
    ensure(o.is_set(f), 'and counts as set')
    for g in kind.__swagger_fields__:
        if g != f:
            ensure(same(getattr(o, attr(kind, g)), empty(ctx, g)), 'others have their default')
            if g not in ctx.__swagger_child__:
                ensure(not o.is_set(g), 'and do not count as set')
    ensure(not hasattr(o, 'x-more'), 'undeclared fields are not kept')


@harness('field', 'C13', inputs={'i': OneOf(*range(len(ALL))), 'v': Any(), 'u': Any()}, weight=2)
def field(i, v, u):
    """every field of every kind of version 2.0, with any value"""
    check_field(ALL[i][0], ALL[i][1], v, u)


@harness('old_field', 'C13', inputs={'i': OneOf(*range(len(OLD))), 'v': Any(), 'u': Any()}, weight=2)
def old_field(i, v, u):
    """every field of the kinds of version 1.2, with any value"""
    check_field(OLD[i][0], OLD[i][1], v, u)


@harness('fields', 'C13', inputs={'d': Rec({}, {'type': Any(), 'default': Any(), 'maximum': Any(), 'enum': ListOf(Any()), 'x': Any()})})
def fields(d):
    s = load(p2.SchemaContext, d)
    for f in ['type', 'default', 'maximum', 'enum']:
        ensure(same(getattr(s, f), d[f] if f in d else None), 'the value of the document, or the default')
        ensure(s.is_set(f) == (f in d), 'set when given')


@harness('own_default', 'C13', inputs={'i': OneOf(*range(len(KINDS))), 'v': Scalar()})
def own_default(i, v):
    """absent lists and maps belong to one object only"""
    ctx = KINDS[i]
    a, b = load(ctx, {}), load(ctx, {})
    kind = ctx.__swagger_ref_object__
    for g in kind.__swagger_fields__:
        x, y = getattr(a, attr(kind, g)), getattr(b, attr(kind, g))
        if isinstance(x, (list, dict)):
            ensure(x is not y, 'objects share nothing')
            ensure(x is not kind.__swagger_fields__[g], 'nor use the default itself')


DOC = Rec({}, {'type': Any(), 'format': Any(), 'x': Any()})
MAPS = [(k, f) for k in KINDS for f in child_fields(k) if k.__swagger_child__[f][0] == 2]
LISTS = [(k, f) for k in KINDS for f in child_fields(k) if k.__swagger_child__[f][0] == 1]
ONES = [(k, f) for k in KINDS for f in child_fields(k) if k.__swagger_child__[f][0] is None and f != 'additionalProperties']
KEY = Str(nonempty=True)


def has_child(ctx, f, parent, o, d):
    c = ctx.__swagger_child__[f][1]
    kind = c.__swagger_ref_object__
    ensure(isinstance(o, kind), 'an object of the kind')
    ensure(o._parent_ is parent, 'which knows its parent')
    for g in plain_fields(c):
        if g in d:
            ensure(getattr(o, attr(kind, g)) is d[g], 'with its content')
        else:
            ensure(same(getattr(o, attr(kind, g)), kind.__swagger_fields__[g]), 'or the default')


def first_field(ctx, f, v):
    """a document of the child with its first field set"""
    return {plain_fields(ctx.__swagger_child__[f][1])[0]: v}


def last_field(ctx, f, v):
    return {plain_fields(ctx.__swagger_child__[f][1])[-1]: v, 'x-y': v}


@harness('one', 'C13', inputs={'i': OneOf(*range(len(ONES))), 'v': Any(), 'last': Bool()})
def one(i, v, last):
    ctx, f = ONES[i]
    d = last_field(ctx, f, v) if last else first_field(ctx, f, v)
    o = load(ctx, {f: d})
    has_child(ctx, f, o, getattr(o, f), d)
    ensure(o.is_set(f), 'and counts as set')


@harness('map', 'C13', inputs={'i': OneOf(*range(len(MAPS))), 'k': KEY, 'j': KEY, 'v': Any(), 'w': Any(), 'n': OneOf(0, 1, 2)}, sizes='maps of at most two entries')
def map_(i, k, j, v, w, n):
    assume(k != j)
    ctx, f = MAPS[i]
    d = {}
    if n > 0:
        d[k] = first_field(ctx, f, v)
    if n > 1:
        d[j] = last_field(ctx, f, w)
    o = load(ctx, {f: d})
    got = getattr(o, f)
    ensure(same(list(got), list(d)), 'the keys, in order')
    for q in d:
        has_child(ctx, f, o, got[q], d[q])


@harness('list', 'C13', inputs={'i': OneOf(*range(len(LISTS))), 'v': Any(), 'w': Any(), 'n': OneOf(0, 1, 2)}, sizes='lists of at most two items')
def list_(i, v, w, n):
    ctx, f = LISTS[i]
    d = [first_field(ctx, f, v), last_field(ctx, f, w)][:n]
    o = load(ctx, {f: d})
    got = getattr(o, f)
    ensure(len(got) == n, 'every item')
    for x, y in zip(got, d):
        has_child(ctx, f, o, x, y)


@harness('additional', 'C13', inputs={'a': Union(OneOf('absent', True, False), DOC)})
def additional(a):
    s = load(p2.SchemaContext, {} if a == 'absent' else {'additionalProperties': a})
    if isinstance(a, dict):
        has_child(p2.SchemaContext, 'items', s, s.additionalProperties, a)
    else:
        ensure(s.additionalProperties is (a is not False), 'true unless the document says false')


@harness('deep', 'C13', inputs={'k': KEY, 'v': Any(), 'w': Any(), 'way': Tup(*[OneOf('items', 'properties', 'allOf', 'additionalProperties')] * 3)}, sizes='nested three deep')
def deep(k, v, w, way):
    """nesting of schemas, any of the ways at each level"""
    d = {'type': v}
    for x in way:
        d = {x: {k: d} if x == 'properties' else [d] if x == 'allOf' else d, 'format': w}
    o = load(p2.SchemaContext, d)
    for x in reversed(way):
        ensure(o.format is w and o.type is None, 'each level has its content')
        n = getattr(o, x)
        n = n[k] if x == 'properties' else n[0] if x == 'allOf' else n
        ensure(n._parent_ is o, 'each level knows its parent')
        o = n
    ensure(o.type is v, 'the innermost too')


@harness('authorizations', 'C13', inputs={'k': KEY, 'j': KEY, 's': Any(), 't': Any(), 'n': OneOf(0, 1, 2), 'm': OneOf(0, 1)}, sizes='at most two authorizations with at most two scopes')
def authorizations(k, j, s, t, n, m):
    """maps of lists, in documents of version 1.2"""
    assume(k != j)
    d = {k: [{'scope': s}, {'scope': t}][:n], j: [{'scope': t}][:m]}
    o = load(p1.OperationContext, {'authorizations': d, 'type': 'void'})
    ensure(same(list(o.authorizations), [k, j]), 'the keys, in order')
    for q in d:
        ensure(same([x.scope for x in o.authorizations[q]], [x['scope'] for x in d[q]]), 'the items, in order')


@harness('resource', 'C13', inputs={'n': Tup(KEY, KEY, KEY), 'p': Tup(Str(), Str()), 'v': Any(), 'w': Any(), 'f': Any()}, sizes='two paths with up to two operations')
def resource(n, p, v, w, f):
    """operations of version 1.2 are kept by their nickname"""
    d = {'basePath': f, 'apis': [{'path': p[0], 'operations': [{'nickname': n[0], 'summary': v}, {'nickname': n[1], 'summary': w}]},
                                 {'path': p[1], 'operations': [{'nickname': n[2], 'notes': v}]}, {'path': p[1], 'operations': []}]}
    r = outcome(load, p1.ResourceContext, d)
    if n[0] == n[1] or n[0] == n[2] or n[1] == n[2]:
        ensure(isinstance(r.exc, ValueError), 'names used twice are refused')
        return
    o = r.val
    ensure(o.basePath is f and o.resourcePath is None, 'fields as in the document')
    ensure(same(list(o.apis), list(n)), 'every operation, in order')
    ensure(same([x.path for x in o.apis.values()], [p[0], p[0], p[1]]), 'with its path')
    ensure(o.apis[n[0]].summary is v and o.apis[n[1]].summary is w and o.apis[n[2]].notes is v, 'and its content')
    ensure(all(x._parent_ is o for x in o.apis.values()), 'in its resource')


@harness('refused', 'C13', inputs={'i': OneOf(*range(len(KINDS))), 'v': Scalar('str', 'int', 'real', 'bool')})
def refused(i, v):
    """what is not an object is refused"""
    e = outcome(load, KINDS[i], v).exc
    ensure(isinstance(e, ValueError), 'refused')


VAL = Scalar('str', 'int', 'real', 'bool')


@harness('dump_field', 'C13', inputs={'i': OneOf(*range(len(SCALARS))), 'v': VAL, 'u': Any()}, weight=2)
def dump_field(i, v, u):
    """every field: dumped when it differs from the default"""
    ctx, f = SCALARS[i]
    assume(f != 'additionalProperties')
    default = ctx.__swagger_ref_object__.__swagger_fields__[f]
    d = load(ctx, {f: v, 'x-more': u}).dump()
    if v == default:
        ensure(d is None, 'nothing but defaults')
    else:
        ensure(same(d, {f: v}), 'the document, without what is not declared')


INNER = Union(VAL, Tup(VAL), Tup(VAL, VAL), Rec({'a': VAL}, {'b': VAL}), Rec({'a': ListOf(VAL, min=1, max=1)}, {}))
FREE = [(k, f) for k, f in ALL if f in ('enum', 'default', 'example', 'examples', 'security', 'scopes', 'tags', 'schemes', 'consumes', 'required')]


@harness('dump_free', 'C13', inputs={'i': OneOf(*range(len(FREE))), 'v': INNER}, sizes='values with up to two parts, two deep')
def dump_free(i, v):
    """lists and maps without a kind of their own come back as they are"""
    ctx, f = FREE[i]
    v = list(v) if isinstance(v, tuple) else v
    default = ctx.__swagger_ref_object__.__swagger_fields__[f]
    assume(not (default is False and v == 0))
    ensure(same(load(ctx, {f: v}).dump(), {f: v}), 'the document')


@harness('dump_nested', 'C13', inputs={'k': KEY, 'v': VAL, 'w': VAL, 'way': Tup(*[OneOf('items', 'properties', 'allOf', 'additionalProperties')] * 3)}, sizes='nested three deep')
def dump_nested(k, v, w, way):
    d = {'type': v}
    for x in way:
        d = {x: {k: d} if x == 'properties' else [d] if x == 'allOf' else d, 'format': w}
    ensure(same(load(p2.SchemaContext, d).dump(), d), 'the document')


PAR = Rec({'name': Str(), 'in': Str(), 'default': Bool()}, {})
RSP = Rec({'description': Str()}, {'headers': Rec({'X': Rec({'type': Str()}, {})}, {})})


@harness('dump_document', 'C13', inputs={'p': KEY, 'st': KEY, 'm': OneOf('get', 'put', 'post', 'delete', 'options', 'head', 'patch'), 'par': PAR, 'rsp': RSP, 'd': KEY, 'top': Rec({'host': Str(), 'basePath': VAL}, {})}, sizes='documents with one path, operation, parameter, response and definition')
def dump_document(p, st, m, par, rsp, d, top):
    doc = dict(top, swagger='2.0', info={'title': p, 'version': d, 'contact': {'email': st}},
               paths={p: {m: {'operationId': p, 'parameters': [par], 'responses': {st: rsp}}, 'parameters': [par]}},
               definitions={d: {'type': 'object'}}, tags=[{'name': d}, {'name': p}],
               parameters={d: par}, responses={d: rsp}, securityDefinitions={d: {'type': p, 'scopes': {p: d}}})
    o = load(p2.SwaggerContext, doc)
    r = o.dump()
    ensure(same(r, doc), 'the document')
    ensure(same(o.compare(load(p2.SwaggerContext, r)), (True, '')), 'loading it again gives an equal object')


@harness('dump_changed', 'C13', inputs={'v': VAL, 'w': VAL, 'k': KEY})
def dump_changed(v, w, k):
    """dumping says what the object has now, and changes nothing"""
    s = load(p2.SchemaContext, {'type': v, 'properties': {k: {'type': v}}})
    s.update_field('type', w)
    s.update_field('format', v)
    s.properties[k].update_field('title', w)
    want = {'type': w, 'format': v, 'properties': {k: {'type': v, 'title': w}}}
    ensure(same(s.dump(), want), 'what the object has')
    ensure(same(s.dump(), want), 'again')


# --- comparison

@harness('compare_field', 'C13', inputs={'i': OneOf(*range(len(ALL))), 'v': VAL, 'w': VAL})
def compare_field(i, v, w):
    ctx, f = ALL[i]
    a, b = load(ctx, {f: v}), load(ctx, {f: w})
    r = a.compare(b)
    equal = kind_of(v) == kind_of(w) and v == w
    ensure(r[0] is equal or r[0] == equal, 'equal exactly when the values are')
    ensure(r[1] == ('' if r[0] else attr(ctx.__swagger_ref_object__, f).replace('~', '~0').replace('/', '~1')), 'the field that differs is named')


@harness('compare_kind', 'C13', inputs={'i': OneOf(*range(len(KINDS))), 'j': OneOf(*range(len(KINDS)))})
def compare_kind(i, j):
    r = load(KINDS[i], {}).compare(load(KINDS[j], {}))
    ensure(r[0] == (i == j), 'objects of different kinds differ')


SUB = Rec({}, {'a': Rec({}, {'type': VAL}), 'b': Rec({}, {'type': VAL})})


def eq(x, y):
    return kind_of(x) == kind_of(y) and x == y


def type_in(d, k):
    return d[k]['type'] if 'type' in d[k] else None


@harness('compare_map', 'C13', inputs={'x': SUB, 'y': SUB}, sizes='maps of at most two entries')
def compare_map(x, y):
    r = load(p2.SchemaContext, {'properties': x}).compare(load(p2.SchemaContext, {'properties': y}))
    bad = [k for k in ['a', 'b'] if (k in x) != (k in y)] + [k for k in ['a', 'b'] if k in x and k in y and not eq(type_in(x, k), type_in(y, k))]
    ensure(r[0] == (not bad), 'equal exactly when keys and values are')
    ensure(r[0] or any(r[1] in ('properties/' + k, 'properties/' + k + '/type') for k in bad), 'what differs is named')


@harness('compare_list', 'C13', inputs={'x': Tup(VAL, VAL), 'y': Tup(VAL, VAL), 'n': OneOf(0, 1, 2), 'f': OneOf('allOf', 'enum')}, sizes='lists of at most two items')
def compare_list(x, y, n, f):
    """lists of the same length"""
    wrap = (lambda v: {'type': v}) if f == 'allOf' else (lambda v: v)
    a = load(p2.SchemaContext, {f: [wrap(v) for v in x[:n]]})
    b = load(p2.SchemaContext, {f: [wrap(v) for v in y[:n]]})
    bad = [i for i in range(n) if not eq(x[i], y[i])]
    r = a.compare(b)
    ensure(r[0] == (not bad), 'equal exactly when the items are')
    ensure(r[0] or r[1] == f + '/' + str(bad[0]) + ('/type' if f == 'allOf' else ''), 'the first that differs is named')


@harness('compare_nested', 'C13', inputs={'v': VAL, 'w': VAL, 'way': Tup(*[OneOf('items', 'properties', 'allOf', 'additionalProperties')] * 2)}, sizes='nested two deep')
def compare_nested(v, w, way):
    def nest(d):
        for x in way:
            d = {x: {'k': d} if x == 'properties' else [d] if x == 'allOf' else d}
        return d
    r = load(p2.SchemaContext, nest({'type': v})).compare(load(p2.SchemaContext, nest({'type': w})))
    ensure(r[0] == eq(v, w), 'equal exactly when the innermost are')


# --- what is known to fail (in the library's own words: pyswagger/spec/base.py)

@harness('compare_lengths', 'C13', inputs={'n': OneOf(0, 1, 2), 'm': OneOf(0, 1, 2), 'v': VAL})
def compare_lengths(n, m, v):
    assume(n != m)
    a, b = load(p2.SchemaContext, {'enum': [v] * n}), load(p2.SchemaContext, {'enum': [v] * m})
    r = outcome(a.compare, b)
    ensure(r.ok and r.val[0] is False, 'lists of different lengths differ')


@harness('dump_empty', 'C13', inputs={'way': OneOf('properties', 'items', 'allOf', 'security')})
def dump_empty(way):
    d = {'properties': {'properties': {'a': {}}}, 'items': {'items': {}}, 'allOf': {'allOf': [{}]}, 'security': {'security': [{'key': []}]}}[way]
    ensure(same(load(p2.OperationContext if way == 'security' else p2.SchemaContext, d).dump(), d), 'empty objects and lists are kept')


@harness('dump_null', 'C13', inputs={'way': OneOf('enum', 'default')})
def dump_null(way):
    d = {'enum': {'enum': [None]}, 'default': {'default': {'a': None}}}[way]
    r = outcome(load(p2.SchemaContext, d).dump)
    ensure(r.ok and same(r.val, d), 'null inside values is kept')


BASE = 'default enum exclusiveMaximum exclusiveMinimum format items maxItems maxLength maximum minItems minLength minimum multipleOf pattern type uniqueItems '
DECLARED = {
    'Contact': 'email name url', 'ExternalDocumentation': 'description url', 'License': 'name url', 'Info': 'contact description license termsOfService title version',
    'Header': BASE + 'collectionFormat description', 'Items': BASE + 'collectionFormat',
    'Operation': 'consumes deprecated description externalDocs operationId parameters produces responses schemes security summary tags',
    'Parameter': BASE + '$ref allowEmptyValue collectionFormat description in name required schema', 'PathItem': '$ref delete get head options parameters patch post put',
    'Response': '$ref description examples headers schema',
    'Schema': BASE + '$ref additionalProperties allOf description discriminator example externalDocs maxProperties minProperties properties readOnly required title xml',
    'SecurityScheme': 'authorizationUrl description flow in name scopes tokenUrl type',
    'Swagger': 'basePath consumes definitions externalDocs host info parameters paths produces responses schemes security securityDefinitions swagger tags',
    'Tag': 'description externalDocs name', 'XMLObject': 'attribute name namespace prefix wrapped'}
SPEC = [(n, f) for n in NAMES2 for f in DECLARED[n].split()]


@harness('declared_fields', 'C13', inputs={'i': OneOf(*range(len(SPEC))), 'v': VAL})
def declared_fields(i, v):
    """the fields the specification of version 2.0 has, listed here apart from the code"""
    n, f = SPEC[i]
    ctx = getattr(p2, n + 'Context')
    ensure(f in ctx.__swagger_ref_object__.__swagger_fields__, 'the field is known')
    if f in plain_fields(ctx) and f != 'additionalProperties':
        ensure(same(getattr(load(ctx, {f: v}), attr(ctx.__swagger_ref_object__, f)), v), 'and read from the document')


@harness('any_map', 'C13', inputs={'i': OneOf(*range(len(MAPS))), 'd': DictOf(Any(), key=KEY)})
def any_map(i, d):
    ctx, f = MAPS[i]
    doc = dict((k, first_field(ctx, f, d[k])) for k in d)
    o = load(ctx, {f: doc})
    got = getattr(o, f)
    for q in d:
        has_child(ctx, f, o, got[q], doc[q])
    for q in got:
        ensure(q in d, 'nothing else')


@harness('any_list', 'C13', inputs={'i': OneOf(*range(len(LISTS))), 'd': ListOf(Any())})
def any_list(i, d):
    ctx, f = LISTS[i]
    doc = [first_field(ctx, f, v) for v in d]
    o = load(ctx, {f: doc})
    got = getattr(o, f)
    ensure(len(got) == len(d), 'every item')
    for x, y in zip(got, doc):
        has_child(ctx, f, o, x, y)


@harness('any_deep', 'C13', inputs={'d': DictOf(ListOf(Any()), key=KEY)})
def any_deep(d):
    """maps of objects with lists of objects"""
    doc = dict((k, {'allOf': [{'type': v} for v in d[k]]}) for k in d)
    o = load(p2.SchemaContext, {'properties': doc})
    for k in d:
        p = o.properties[k]
        ensure(p._parent_ is o, 'each level knows its parent')
        ensure(len(p.allOf) == len(d[k]), 'every item')
        for s, v in zip(p.allOf, d[k]):
            ensure(s._parent_ is p, 'each level knows its parent')
            ensure(s.type is v and s.format is None, 'with its content')


@harness('any_scopes', 'C13', inputs={'d': DictOf(ListOf(Any()), key=KEY)})
def any_scopes(d):
    """maps of lists, in documents of version 1.2"""
    doc = dict((k, [{'scope': v} for v in d[k]]) for k in d)
    o = load(p1.OperationContext, {'authorizations': doc, 'type': 'void'})
    for k in d:
        ensure(same([x.scope for x in o.authorizations[k]], list(d[k])), 'the items, in order')
    for k in o.authorizations:
        ensure(k in d, 'nothing else')


@harness('dump_any_map', 'C13', inputs={'i': OneOf(*range(len(MAPS))), 'd': DictOf(Str(), key=KEY)})
def dump_any_map(i, d):
    ctx, f = MAPS[i]
    doc = dict((k, first_field(ctx, f, 'x' + d[k])) for k in d)
    r = load(ctx, {f: doc}).dump()
    for k in d:
        ensure(same(r[f][k], doc[k]), 'the document')
    for k in r[f] if r else ():
        ensure(k in d, 'nothing else')


@harness('dump_any_list', 'C13', inputs={'i': OneOf(*range(len(LISTS))), 'd': ListOf(Str(nonempty=True), min=1)})
def dump_any_list(i, d):
    ctx, f = LISTS[i]
    doc = [first_field(ctx, f, v) for v in d]
    ensure(same(load(ctx, {f: doc}).dump(), {f: doc}), 'the document')
