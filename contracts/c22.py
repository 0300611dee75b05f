from vc import *
from common import *
from pyswagger import App, errs
from pyswagger.resolve import Resolver
from pyswagger.scanner.v1_2.validate import Validate as Validate12
from pyswagger.scanner.v2_0.validate import Validate as Validate20
from pyswagger.spec.v1_2.parser import OperationContext


whole = old


def old(kind, **f):
    """what is none is not given at all"""
    return whole(kind, **{k: f[k] for k in f if f[k] is not None})


class Raw(object):
    pass


def reports(v, obj, path='#/a/b', app=None):
    visit(v, obj, path, app)
    return v.errs


def expect(errors, n, kind, path='#/a/b'):
    ensure(len(errors) == n, 'one report for every broken rule')
    for e in errors:
        ensure(both(e[0][0] == path, e[0][1] == kind), 'with the place and kind of object')


def count(*conds):
    n = 0
    for c in conds:
        if c:
            n += 1
    return n


PROP = Build(schema, readOnly=OneOf(None, True, False), default=OneOf(None, 'd'), type=OneOf(None, 'string'))


@harness('read_only', 'C22', inputs={'props': DictOf(PROP), 'required': ListOf(Str(ex=['a', 'b']))}, covers=['broken', 'fine'])
def read_only(props, required):
    v = Validate20()
    es = reports(v, schema(properties=props, required=required))
    bad = [('#/a/b', 'Schema') for n in required if n in props and props[n].readOnly]
    cover('broken' if len(bad) > 0 else 'fine')
    ensure_same([e[0] for e in es], bad, 'one report, with the place, for every required property that is read-only')


@harness('other_objects', 'C22', inputs={'t': Opt(Str()), 'w': OneOf('query', 'body')})
def other_objects(t, w):
    v = Validate20()
    for o in (parameter(w, type=t), operation(operationId=t), response(description=t), path_item(), swagger(host=t), header(type=t)):
        reports(v, o)
    ensure(len(v.errs) == 0, 'no rule, no report')


TYPE = Union(OneOf(None, 'array', 'File', 'void', 'string'), Str())
SOME = Opt(Str(ex=['x', 'body', '']))


@harness('data_type', 'C22', inputs={'t': TYPE, 'ref': SOME, 'items': Bool(), 'unique': OneOf(None, True, False), 'kind': OneOf('Property', 'Operation')})
def data_type(t, ref, items, unique, kind):
    f = {'$ref': ref}
    o = old(kind, type=t, uniqueItems=unique, items=old('Items', type='string') if items else None, **f)
    if kind == 'Operation':
        fill(o, {'method': 'GET', 'nickname': 'n', 'parameters': []})
    n = count(t is None and ref is None, (t == 'array') != items, unique is not None and t != 'array', t == 'void' and kind == 'Property')
    expect(reports(Validate12(), o), n, kind)


@harness('param', 'C22', inputs={'t': Union(OneOf('array', 'File', 'void'), Str()), 'where': Union(OneOf('path', 'query', 'header', 'body', 'form'), Str()), 'multi': OneOf(None, True, False), 'name': Str(ex=['', 'body', 'x']),
                                 'consumes': Opt(ListOf(Str(ex=['multipart/form-data', 'a/b']))), 'fits': Bool()})
def param(t, where, multi, name, consumes, fits):
    p = old('Parameter', type=t, paramType=where, name=name, allowMultiple=multi, items=old('Items', type='string') if (t == 'array') == fits else None)
    op = old('Operation', consumes=consumes, parameters=[p])
    op._assign_parent(OperationContext)
    n = count(multi and where not in ('path', 'query', 'header'), multi and t == 'array', where == 'body' and name not in ('', 'body'),
              t == 'File' and where != 'form', t == 'File' and 'multipart/form-data' not in (consumes or []), t == 'void', not fits)
    expect(reports(Validate12(), p), n, 'Parameter')


@harness('items_type', 'C22', inputs={'t': TYPE})
def items_type(t):
    expect(reports(Validate12(), old('Items', type=t)), count(t == 'void'), 'Items')


@harness('auth', 'C22', inputs={'t': Union(OneOf('apiKey', 'oauth2', 'basicAuth', None), Str()), 'how': SOME, 'key': SOME, 'grant': Bool()})
def auth(t, how, key, grant):
    o = old('Authorization', type=t, passAs=how, keyname=key, grantTypes=old('GrantType', implicit=old('Implicit', loginEndpoint=1)) if grant else None)
    n = count(t == 'apiKey' and not how, t == 'apiKey' and not key, t == 'oauth2' and not grant, t is None)
    expect(reports(Validate12(), o), n, 'Authorization')


@harness('grant', 'C22', inputs={'a': Bool(), 'b': Bool()})
def grant(a, b):
    o = old('GrantType', implicit=old('Implicit') if a else None, authorization_code=old('AuthorizationCode') if b else None)
    expect(reports(Validate12(), o), count(not a and not b), 'GrantType')


@harness('op_auths', 'C22', inputs={'known': DictOf(Build(lambda t: old('Authorization', type=t), OneOf('basicAuth', 'apiKey', 'oauth2'))), 'n': Str(), 'used': ListOf(Any()), 'both_': Bool()}, covers=['unknown', 'known'])
def op_auths(known, n, used, both_):
    app = Raw()
    app.raw = Raw()
    app.raw.authorizations = known
    o = old('Operation', type='string', method='GET', nickname='n', parameters=[], authorizations={n: list(used)} if both_ else None)
    e = reports(Validate12(), o, app=app)
    if not both_:
        expect(e, 0, 'Operation')
    elif n in known:
        cover('known')
        expect(e, count(known[n].type != 'oauth2' and len(used) > 0), 'Operation')
    else:
        cover('unknown')
        expect(e, 1, 'Operation')


REQUIRED = [('Scope', ['scope']), ('Authorizations', ['scope']), ('LoginEndpoint', ['url']), ('Implicit', ['loginEndpoint']), ('TokenRequestEndpoint', ['url']),
            ('TokenEndpoint', ['url']), ('AuthorizationCode', ['tokenRequestEndpoint', 'tokenEndpoint']), ('ResponseMessage', ['code', 'message']),
            ('Api', ['path', 'operations']), ('Model', ['id', 'properties']), ('ResourceList', ['swaggerVersion', 'apis']), ('Info', ['title', 'description'])]


@harness('required', 'C22', inputs={'i': OneOf(*range(len(REQUIRED))), 'a': Scalar('none', 'str', 'int', 'bool'), 'b': Scalar('none', 'str', 'int')})
def required(i, a, b):
    kind, names = REQUIRED[i]
    given = [a, b][:len(names)]
    o = old(kind, **dict(zip(names, given)))
    expect(reports(Validate12(), o), count(*[x is None for x in given]), kind)


@harness('required_more', 'C22', inputs={'m': SOME, 'n': SOME, 'w': SOME, 'p': Bool()})
def required_more(m, n, w, p):
    o = old('Operation', type='string', method=m, nickname=n, parameters=[] if p else None)
    expect(reports(Validate12(), o), count(m is None, n is None, not p), 'Operation')
    q = old('Parameter', type='string', paramType=w, name=n)
    expect(reports(Validate12(), q), count(w is None, n is None, w == 'body' and n not in ('', 'body')), 'Parameter')


@harness('collected', 'C22', inputs={'a': OneOf(None, True), 'b': OneOf(None, True), 'c': OneOf(None, True)})
def collected(a, b, c):
    """the reports of all objects together, none lost or repeated"""
    v = Validate20()
    want = []
    for i, x in enumerate([a, b, c]):
        visit(v, schema(properties={'k': schema(readOnly=x)}, required=['k']), '#/%d' % i)
        if x:
            want.append(('#/%d' % i, 'Schema'))
    ensure_same([e[0] for e in v.errs], want, 'every report, with its place')


class Fixed(App):
    """an application whose rules report a given list"""
    def __init__(self, found):
        self.found = found

    def _validate(self):
        return self.found


@harness('strictness', 'C22', inputs={'found': ListOf(Tup(Tup(Str(), Str()), Str())), 'strict': Bool()}, covers=['refused', 'returned'])
def strictness(found, strict):
    r = outcome(lambda: Fixed(found).validate(strict=strict))
    if strict and len(found) > 0:
        cover('refused')
        ensure(r.exc is not None and isinstance(r.exc, errs.ValidationError), 'in strict mode any report refuses the document')
    else:
        cover('returned')
        ensure(r.ok, 'otherwise it is not refused')
        ensure_same(r.val, found, 'and the reports are returned')


@harness('loading', 'C22', inputs={'broken': Bool(), 'n': Str(nonempty=True, no='\t\r\n'), 'strict': OneOf(None, True, False)}, covers=['refused', 'accepted'])
def loading(broken, n, strict):
    """the rules apply when an application is prepared, strictly unless asked otherwise"""
    web = Web({'http://h/a': {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {'A': {'properties': {n: {'type': 'string', 'readOnly': broken}}, 'required': [n]}}}})
    app = App.load('http://h/a', resolver=Resolver(default_getter=web.getter()))
    k = {} if strict is None else {'strict': strict}
    r = outcome(lambda: app.prepare(**k))
    if broken and strict is not False:
        cover('refused')
        ensure(isinstance(r.exc, errs.ValidationError), 'a document that breaks a rule is refused')
    else:
        cover('accepted')
        ensure(r.ok, 'others are accepted')
        ensure(len(app.validate(strict=False)) == (1 if broken else 0), 'with their reports')
