from vc import *
from common import *
from pyswagger.scanner.v2_0.patch_obj import PatchObject
from pyswagger.spec.v2_0.parser import PathItemContext
from pyswagger.utils import jp_compose

VERBS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']
TYPES = ListOf(Str(ex=['a/b', 'text/plain']))
SCHEMES = ListOf(Str(ex=['http', 'https', 'ws']))
SEC = ListOf(DictOf(ListOf(Str())))


class Here(World):
    def __init__(self, root, schemes=None, url='http://host/doc', version='2.0'):
        World.__init__(self, object(), object(), schemes)
        self.root = root
        self.url = url
        self.version = version


def under(op, ps, verb='get'):
    """an operation inside its path item"""
    p = path_item(**{verb: op})
    p._assign_parent(PathItemContext)
    p.update_field('parameters', ps)
    return p


def patched(op, app):
    visit(PatchObject(), op, '#/paths/~1a/get', app)
    return op


@harness('content_types', 'C14', inputs={'own': Opt(TYPES), 'doc': TYPES, 'f': OneOf('produces', 'consumes'), 'other': TYPES}, covers=['own', 'doc'])
def content_types(own, doc, f, other):
    g = 'consumes' if f == 'produces' else 'produces'
    root = swagger(**{f: doc, g: other})
    op = operation() if own is None else operation(**{f: own})
    w = None if own is None else list(own)
    d, other = list(doc), list(other)
    under(op, [])
    app = Here(root)
    patched(op, app)
    if own is None:
        cover('doc')
        ensure_same(list(getattr(op, f)), d, 'the content types of the document where the operation sets none')
    else:
        cover('own')
        ensure_same(list(getattr(op, f)), w, 'those of the operation where it sets them')
    ensure_same(list(getattr(op, g)), other, 'each list for itself')
    ensure_same(list(getattr(root, f)), d, 'the document is not modified')
    ensure_same(list(getattr(root, g)), other, 'the document is not modified')
    late = operation()
    under(late, [])
    patched(late, app)
    ensure_same([list(getattr(late, f)), list(getattr(late, g))], [d, other], 'so the next operation gets them, too')


@harness('schemes', 'C14', inputs={'own': SCHEMES, 'doc': SCHEMES})
def schemes(own, doc):
    op = operation(schemes=list(own))
    under(op, [])
    d = list(doc) if len(doc) > 0 else ['http']
    app = Here(swagger(), list(d))
    patched(op, app)
    ensure_same(list(op.cached_schemes), own if len(own) > 0 else d, 'own schemes, or those of the document')
    ensure_same(list(op.schemes), own, 'what the operation says is not modified')
    ensure_same(list(app.schemes), d, 'the document is not modified')
    late = operation()
    under(late, [])
    patched(late, app)
    ensure_same([list(late.schemes), list(late.cached_schemes)], [[], d], 'so the next operation gets them, too')
    ensure_same(list(op.cached_schemes), own if len(own) > 0 else d, 'and the first one keeps its own')


@harness('security', 'C14', inputs={'own': Opt(SEC), 'doc': Opt(SEC)}, covers=['own', 'doc'])
def security(own, doc):
    op = operation(security=None if own is None else [dict(x) for x in own])
    root = swagger(security=None if doc is None else [dict(x) for x in doc])
    under(op, [])
    app = Here(root)
    patched(op, app)
    cover('doc' if own is None else 'own')
    ensure_same(op.security, doc if own is None else own, 'own requirements, even none, or those of the document')
    ensure_same(root.security, doc, 'the document is not modified')
    late = operation()
    under(late, [])
    patched(late, app)
    ensure_same(late.security, doc, 'so the next operation gets them, too')


@harness('services', 'C14', inputs={'a': Str()})
def services(a):
    op = operation(operationId=a)
    under(op, [])
    app = Here(swagger())
    patched(op, app)
    ensure(op._prim_factory is app.prim_factory and op._mime_codec is app.mime_codec, 'the factory and codecs of the application')
    ensure_same(op.operationId, a, 'the rest stays')
    ensure(op.tags is None and op.responses is None and op.deprecated is False, 'the rest stays')


def par(name, where, t):
    return parameter(where, name=name, type=t)


NAME = Str(ex=['a', 'b', 'c'])
PAR = Build(par, NAME, OneOf('query', 'header', 'path'), Str())


@harness('path_parameters', 'C14', inputs={'own': OneOf(None, []), 'theirs': ListOf(PAR)})
def path_parameters(own, theirs):
    op = operation(parameters=own)
    given = list(theirs)
    p = under(op, given)
    patched(op, Here(swagger()))
    ensure(len(op.parameters) == len(theirs), 'every parameter of the path')
    ensure_same([x.name for x in op.parameters], [x.name for x in theirs], 'in order')
    ensure(p.parameters is given, 'the path is not modified')
    ensure_same([x.type for x in p.parameters], [x.type for x in theirs], 'the path is not modified')
    ensure(op.parameters is not p.parameters, 'the lists are not shared')


@harness('own_parameters', 'C14', inputs={'own': ListOf(PAR, min=1), 't': PAR}, covers=['wins', 'added'])
def own_parameters(own, t):
    op = operation(parameters=list(own))
    p = under(op, [t])
    patched(op, Here(swagger()))
    if any(x.name == t.name for x in own):
        cover('wins')
        ensure_same([(x.name, x.type) for x in op.parameters], [(x.name, x.type) for x in own], 'the own parameter of that name wins')
    else:
        cover('added')
        ensure_same([(x.name, x.type) for x in op.parameters], [(x.name, x.type) for x in own] + [(t.name, t.type)], 'the parameter of the path in addition to the own ones')
    ensure(len(p.parameters) == 1 and p.parameters[0] is t, 'the path is not modified')


def lists(n, a, b):
    return [a, b][:n]


@harness('both_parameters', 'C14', inputs={'a': NAME, 'b': NAME, 'c': NAME, 'd': NAME, 'n': OneOf(1, 2), 'm': OneOf(0, 1, 2), 'r': Bool()}, sizes='at most two parameters on each side')
def both_parameters(a, b, c, d, n, m, r):
    assume(both(a != b, c != d))
    own = [par(a, 'query', 'o0'), par(b, 'header', 'o1')][:n]
    theirs = [par(c, 'query', 't0'), par(d, 'path', 't1')][:m]
    if r:
        own[0] = parameter(None, final=own[0], **{'$ref': 'x'})
        if m > 0:
            theirs[0] = parameter(None, final=theirs[0], **{'$ref': 'y'})
    names = [a, b][:n]
    want = own + [theirs[i] for i in range(m) if [c, d][i] not in names]
    op = operation(parameters=list(own))
    p = under(op, list(theirs))
    patched(op, Here(swagger()))
    got = op.parameters
    ensure(len(got) == len(want), 'own parameters and those of the path with other names')
    for i in range(len(want)):
        ensure(got[i] is want[i], 'own parameters first, in order')
    ensure(len(p.parameters) == m, 'the path is not modified')
    patched(op, Here(swagger()))
    ensure(len(op.parameters) == len(want), 'patching again adds nothing')


@harness('alone', 'C14', inputs={'own': ListOf(PAR, min=1)})
def alone(own):
    op = operation(parameters=list(own))
    patched(op, Here(None))
    ensure_same([(x.name, x.type) for x in op.parameters], [(x.name, x.type) for x in own], 'an operation outside of a path keeps its parameters')


HOST = Opt(Str(no='/?#', ex=['h.io', 'h.io:80', '']))
T = Str(ex=['p', 'pets/{id}', 'a~b', '{x}'])


def at(*toks):
    return jp_compose(list(toks), '#')


@harness('address', 'C14', inputs={'host': HOST, 'base': Opt(Str(ex=['/v1', '', '/a/b'])), 'k': T, 'v': OneOf(*VERBS)}, covers=['host', 'no host'])
def address(host, base, k, v):
    assume(either(base is None, either(base == '', (base or '').startswith('/'))))
    w = VERBS[(VERBS.index(v) + 3) % 7]
    op, op2 = operation(), operation()
    p = path_item(**{v: op, w: op2})
    t = '/' + k
    visit(PatchObject(), p, at('paths', t), Here(swagger(host=host, basePath=base), None, 'http://doc.io:8080/x/swagger.json'))
    for o, m in [(op, v), (op2, w)]:
        ensure(o.method == m, 'the verb it is declared under')
        ensure(o.path == t, 'the path template')
        ensure_same(o.base_path, base, 'the base path')
        if host:
            cover('host')
            ensure(o.url == '//' + host + (base or '') + t, 'host, base path and path template')
        else:
            cover('no host')
            ensure(o.url == '//doc.io:8080' + (base or '') + t, 'the host of the document when it names none')


@harness('local_file', 'C14', inputs={'k': T})
def local_file(k):
    op = operation()
    visit(PatchObject(), path_item(put=op), at('paths', '/' + k), Here(swagger(), None, 'file:///tmp/swagger.json'))
    ensure(op.url == '//localhost/' + k, 'a document without any host is local')
    ensure(op.method == 'put', 'the verb')


@harness('not_root', 'C14', inputs={'k': T, 't': Str()})
def not_root(k, t):
    op = operation(produces=[t], schemes=[t])
    p = path_item(get=op)
    visit(PatchObject(), p, at('paths', '/' + k), Here(path_item()))
    visit(PatchObject(), op, at('paths', '/' + k, 'get'), Here(path_item()))
    ensure(op.path == '/' + k and op.method == 'get', 'parts of a document have path and verb')
    ensure(op.url is None and op.base_path is None, 'but no address')
    ensure_same(list(op.produces), [t], 'and keep their own lists')


@harness('names', 'C14', inputs={'n': Str(), 'where': OneOf('definitions', 'parameters', 'properties')})
def names(n, where):
    o = schema(type='object')
    visit(PatchObject(), o, at('definitions', 'A', where, n) if where == 'properties' else at(where, n), Here(swagger()))
    if where == 'parameters':
        ensure(o.name is None, 'others have none')
    else:
        ensure_same(o.name, n, 'schemas of the document know their name')


@harness('old_names', 'C14', inputs={'a': Str(no='!#~/'), 'n': Str(no='!#~/')})
def old_names(a, n):
    o = schema(type='object')
    visit(PatchObject(), o, at('definitions', a + '!##!' + n), Here(swagger(), None, 'http://x/', '1.2'))
    ensure_same(o.name, n, 'without the scope of older versions')
