from vc import *
from common import *
from pyswagger import utils
from pyswagger.core import App
from pyswagger.resolve import Resolver
from pyswagger.getter import Getter, SimpleGetter, DictGetter

URLS = ['http://h/a', 'http://h/b', 'https://h/a']


def docs_of(vs):
    return {u: {'v': v, 'w': {'x': [v, u]}} for u, v in zip(URLS, vs)}


TURN = OneOf(*URLS)


@harness('once', 'C21', inputs={'vs': Tup(Scalar(), Scalar(), Scalar()), 'seq': Tup(TURN, TURN, TURN, TURN)}, sizes='four resolutions of three addresses')
def once(vs, seq):
    web = Web(docs_of(vs))
    r = Resolver(default_getter=web.getter())
    for u in seq:
        got = r.resolve(u)
        ensure(got is web.docs[u], 'the document of that address')
    for u in URLS:
        ensure(web.log.count(u) == (1 if u in seq else 0), 'fetched once')


@harness('given_getter', 'C21', inputs={'vs': Tup(Scalar(), Scalar(), Scalar()), 'a': TURN, 'b': TURN, 'as_class': Bool()})
def given_getter(vs, a, b, as_class):
    web, other = Web(docs_of(vs)), Web({})
    r = Resolver(default_getter=other.getter())
    for u in [a, b]:
        g = web.getter()
        got = r.resolve(u, g if as_class else g(u))
        ensure(got is web.docs[u], 'fetched by the getter given')
    ensure(len(other.log) == 0, 'not by the default one')
    ensure(len(web.log) == (1 if a == b else 2), 'once')


@harness('hook', 'C21', inputs={'vs': Tup(Scalar(), Scalar(), Scalar()), 'a': TURN, 'b': TURN, 'to': Tup(TURN, TURN, TURN)})
def hook(vs, a, b, to):
    web = Web(docs_of(vs))
    other = dict(zip(URLS, to))
    asked = []

    def redirect(u):
        asked.append(u)
        return other[u]
    r = Resolver(redirect, web.getter())
    for u in [a, b]:
        ensure(r.resolve(u) is web.docs[other[u]], 'fetched from where the hook says')
    ensure(web.log == ([other[a]] if a == b else [other[a], other[b]]), 'once for each address')
    ensure(same(asked, [u for u in asked if u in (a, b)]), 'the hook is asked for these addresses only')


@harness('pointer', 'C21', inputs={'k': Str(nonempty=True, no='\t\r\n'), 'l': Str(nonempty=True, no='\t\r\n'), 'm': Str(nonempty=True, no='\t\r\n'), 'v': Any(), 'i': Int(0, 2), 'xs': Tup(Any(), Any(), Any())}, covers=['map', 'list'])
def pointer(k, l, m, v, i, xs):
    assume(k != m)
    doc = {k: {l: v}, m: list(xs)}
    web = Web({URLS[0]: doc})
    r = Resolver(default_getter=web.getter())
    cover('map')
    ensure(r.resolve(URLS[0] + utils.jp_compose([k, l], '#')) is v, 'the value under these names')
    ensure(r.resolve(URLS[0] + utils.jp_compose(k, '#')) is doc[k], 'the value under this name')
    cover('list')
    ensure(r.resolve(URLS[0] + utils.jp_compose([m, str(i)], '#')) is xs[i], 'the item at this place')


@harness('nothing', 'C21', inputs={'k': Str(nonempty=True, no='\t\r\n'), 'l': Str(nonempty=True, no='\t\r\n'), 'v': Scalar()})
def nothing(k, l, v):
    assume(k != l)
    r = Resolver(default_getter=Web({URLS[0]: {k: v}, URLS[1]: None}).getter())
    ensure(not outcome(r.resolve, URLS[0] + utils.jp_compose(l, '#')).ok, 'a pointer to nothing is refused')
    ensure(not outcome(r.resolve, URLS[0] + utils.jp_compose([k, l], '#')).ok, 'a pointer below a value is refused')
    ensure(not outcome(r.resolve, URLS[1]).ok, 'no document is refused')


@harness('version', 'C21', inputs={'d': Rec({}, {'swaggerVersion': Scalar(), 'swagger': Scalar(), 'x': Scalar()})})
def version(d):
    v = utils.get_swagger_version(d)
    if 'swaggerVersion' in d:
        ensure(v is d['swaggerVersion'], 'the version of an old document')
    elif 'swagger' in d:
        ensure(v is d['swagger'], 'the version of a document')
    else:
        ensure(v is None, 'no version')


@harness('refused', 'C21', inputs={'d': Rec({}, {'swaggerVersion': Scalar(), 'swagger': Scalar(), 'x': Scalar()}), 'given': Bool()}, covers=['old', 'new'])
def refused(d, given):
    for k in ['swaggerVersion', 'swagger']:
        if k in d:
            cover('old' if k == 'swaggerVersion' else 'new')
            assume(both(d[k] != '1.2', d[k] != '2.0'))
    v = utils.get_swagger_version(d)
    assume(not given or v is not None)
    from pyswagger.spec.v2_0.parser import SchemaContext
    r = outcome(App.load, URLS[0], getter=Web({URLS[0]: d}).getter(), parser=SchemaContext if given else None)
    ensure(not r.ok, 'other versions are refused')
    if d:
        ensure(isinstance(r.exc, NotImplementedError), 'by a not-implemented error')


@harness('by_version', 'C21', inputs={'t': Str(), 'b': Str(), 'h': Opt(Str()), 'sch': OneOf('http', 'https')})
def by_version(t, b, h, sch):
    d = {'swagger': '2.0', 'info': {'title': t, 'version': t}, 'basePath': b, 'paths': {}}
    if h is not None:
        d['host'] = h
    web = Web({sch + '://h/a': d})
    app = App.load(sch + '://h/a', getter=web.getter())
    ensure(app.version == '2.0', 'the version of the document')
    ensure(kind_of(app.raw) == 'Swagger', 'the kind of object of that version')
    ensure(both(app.raw.info.title == t, app.raw.basePath == b), 'with the content of the document')
    ensure(same(app.raw.host, h), 'with the content of the document')
    ensure(same(list(app.schemes), [sch]), 'the scheme of the address')
    ensure(app.url == sch + '://h/a', 'the address')
    ensure(same(web.log, [sch + '://h/a']), 'fetched once')


FILE = Str(only='abcdefghijklmnopqrstuvwxyz', nonempty=True)


@harness('resources', 'C21', inputs={'d': FILE, 'f': OneOf('resource_list.json', 'x.yaml', 'api.yml'), 'n': Tup(FILE, FILE), 't': Tup(Str(), Str()), 'k': OneOf(0, 1, 2)},
         sizes='up to two resources')
def resources(d, f, n, t, k):
    assume(n[0] != n[1])
    base = 'http://h/' + d
    for x in n:
        assume(x != f)
    docs = {base + '/' + f: {'swaggerVersion': '1.2', 'apis': [{'path': '/' + x} for x in n[:k]]}}
    for x, y in zip(n, t):
        docs[base + '/' + x] = {'swaggerVersion': '1.2', 'apis': [], 'basePath': y, 'models': {}}
    web = Web(docs)
    app = App.load(base + '/' + f, resolver=Resolver(default_getter=web.getter()))
    ensure(app.version == '1.2', 'the version of the document')
    ensure(kind_of(app.raw) == 'ResourceList', 'the kind of object of that version')
    ensure(same(web.log, [base + '/' + f] + [base + '/' + x for x in n[:k]]), 'its resources are fetched from beside it, once each')
    ensure(len(app.raw.apis) == k, 'one object per resource')
    for x, y in zip(n[:k], t):
        ensure(app.raw.apis[x].basePath == y, 'with the content of its document')


@harness('join', 'C21', inputs={'h': FILE, 'p': ListOf(FILE), 'q': FILE, 'x': FILE, 's': Bool(), 's2': Bool()})
def join(h, p, q, x, s, s2):
    base = '/'.join(['http://' + h] + p + [q])
    r = utils.url_join(base + ('/' if s else ''), ('/' if s2 else '') + x)
    ensure(r == base + '/' + x, 'joined by one slash')


@harness('beside', 'C21', inputs={'h': FILE, 'p': FILE, 'q': FILE, 'n': OneOf(0, 1, 2), 'f': FILE, 'e': OneOf('.json', '.yaml', '.yml'), 'x': FILE}, sizes='folders up to two deep')
def beside(h, p, q, n, f, e, x):
    base = '/'.join(['http://' + h] + [p, q][:n])
    ensure(utils.url_join(utils.url_dirname(base + '/' + f + e), x) == base + '/' + x, 'beside the document')


@harness('below', 'C21', inputs={'h': FILE, 'p': FILE, 'f': FILE, 'x': FILE})
def below(h, p, f, x):
    assume(not f.endswith('json') and not f.endswith('yaml') and not f.endswith('yml'))
    base = 'http://' + h + '/' + p + '/' + f
    ensure(utils.url_join(utils.url_dirname(base), x) == base + '/' + x, 'below the address of a document that is no file')


class Texts(Getter):
    def __init__(self, texts):
        self.base_path = ''
        self.urls = list(range(len(texts)))
        self.texts = texts

    def load(self, i):
        return self.texts[i]


@harness('texts', 'C21', inputs={'s': Str(), 'v': Any(), 'how': OneOf('text', 'bytes', 'map'), 'bad': Bool()}, covers=['json', 'yaml', 'refused'])
def texts(s, v, how, bad):
    import json
    import yaml
    js, ym = [], []

    def loads(x):
        js.append(x)
        if bad:
            raise ValueError('no')
        return v

    def load(x, *a, **k):
        ym.append(x)
        return v
    patch(json, 'loads', loads)
    patch(yaml, 'load', load)
    m = {'x': s}
    g = Texts([m if how == 'map' else s.encode('utf-8') if how == 'bytes' else s])
    r = outcome(next, iter(g))
    if how == 'map':
        ensure(both(r.ok, r.val is m), 'maps are taken as they are')
        ensure(len(js) + len(ym) == 0, 'maps are taken as they are')
    elif s.startswith('{'):
        ensure(both(same(js, [s]), len(ym) == 0), 'texts beginning with a brace are JSON')
        if bad:
            cover('refused')
            ensure(not r.ok, 'unparsable content is refused')
        else:
            cover('json')
            ensure(both(r.ok, r.val is v), 'and give what it says')
    else:
        cover('yaml')
        ensure(both(same(ym, [s]), len(js) == 0), 'others are YAML')
        ensure(both(r.ok, r.val is v), 'and give what it says')
    ensure(not outcome(next, g).ok, 'one address, one document')


@harness('contents', 'C21', inputs={'v': Scalar('int', 'bool', 'none', 'real')})
def contents(v):
    ensure(not outcome(next, Texts([v])).ok, 'content that is neither text nor map is refused')


@harness('from_dicts', 'C21', inputs={'a': Str(), 'b': Str(), 'v': Any()})
def from_dicts(a, b, v):
    assume(a != b)
    m = {'v': v}
    g = DictGetter([a, b], {b: {}, a: m})
    ensure(next(g) is m, 'the document of the address')
    ensure(same(next(g), {}), 'the document of the address')
    ensure(not outcome(next, g).ok, 'no more addresses')


@harness('simple', 'C21', inputs={'a': Str()})
def simple(a):
    asked = []

    class G(SimpleGetter):
        def __simple_getter_callback__(url):
            asked.append(url)
            return {'v': url}
    ensure(same(next(G(a)), {'v': a}), 'what the callback gives for the address')
    ensure(same(asked, [a]), 'asked once')


REFS = ['#/definitions/A', '#/paths', 'http://h/b#/definitions/User', 'http://h/b#/definitions/UserGroup', 'http://h/b#/definitions/User/properties/p', 'http://h/b#/definitions/UserGroup/items']


def described(i, t):
    return '' if i == 1 else t[i]


REF = OneOf(0, 2, 3, 4, 5)


@harness('resolved', 'C21', inputs={'t': Tup(Str(), Str(), Str(), Str(), Str(), Str()), 'seq': Tup(REF, REF, REF)}, sizes='three resolutions of five references')
def resolved(t, seq):
    from pyswagger.spec.v2_0.parser import SchemaContext
    defs = {'User': {'description': t[2], 'properties': {'p': {'description': t[4]}}}, 'UserGroup': {'description': t[3], 'items': {'description': t[5]}}}
    web = Web({'http://h/a': {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {'A': {'description': t[0]}, 'AB': {}}},
               'http://h/b': {'definitions': defs}})
    app = App.load('http://h/a', resolver=Resolver(default_getter=web.getter()))
    app.prepare()
    seen = []
    for i in seq:
        o = app.resolve(REFS[i], parser=SchemaContext)
        ensure(o.description == t[i], 'the object of that document at that place')
        o.update_field('title', 'seen ' + str(i))
        for j, x in seen:
            if i == j:
                ensure(x.title == o.title, 'the same object for the same reference')
            o.update_field('title', 'seen')
            ensure(iff(x.title == o.title, i == j) if x.title != 'seen' else True, 'other objects for other references')
        seen.append((i, o))
    ensure(web.log.count('http://h/b') <= 1, 'fetched once')
    ensure(web.log.count('http://h/a') == 1, 'fetched once')


@harness('refused_references', 'C21', inputs={'r': Opt(Str()), 'n': Str(nonempty=True, no='/~\t\r\n')})
def refused_references(r, n):
    web = Web({'http://h/a': {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {'A': {}}}, 'http://h/b': {'definitions': {}}})
    app = App.load('http://h/a', resolver=Resolver(default_getter=web.getter()))
    app.prepare()
    ensure(not outcome(app.resolve, None).ok, 'no reference is refused')
    ensure(not outcome(app.resolve, '').ok, 'an empty reference is refused')
    assume(n != 'A')
    ensure(not outcome(app.resolve, '#/definitions/' + n).ok, 'a pointer to nothing is refused')
    ensure(not outcome(app.resolve, 'http://h/b#/definitions/' + n).ok, 'a pointer to nothing is refused')
    ensure(not outcome(app.resolve, 'http://h/b').ok, 'a document without version is refused unless a parser is given')


class Disk(object):
    """files by name"""
    def __init__(self, files):
        self.files = files
        self.read = []

    def isfile(self, p):
        return p in self.files

    def open(self, p, *a, **k):
        disk = self

        class F(object):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def read(self):
                disk.read.append(p)
                if p not in disk.files:
                    raise IOError('no file')
                return disk.files[p]
        return F()


def on_disk(files):
    from pyswagger import getter
    import os
    d = Disk(files)
    patch(getter, 'open', d.open)
    patch(os.path, 'isfile', d.isfile)
    return d


NAMES21 = ['resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml']
DIR = Str(only='abcdefghijklmnopqrstuvwxyz_-', nonempty=True)


@harness('local_folder', 'C21', inputs={'d': DIR, 'there': Tup(Bool(), Bool(), Bool(), Bool()), 's': Str()}, covers=['found', 'refused'])
def local_folder(d, there, s):
    from pyswagger.getter import LocalGetter
    path = '/data/' + d
    on_disk({path + '/' + n: '{' + s for n, t in zip(NAMES21, there) if t})
    r = outcome(LocalGetter, path)
    if any(there):
        cover('found')
        ensure(r.ok, 'a folder with a document')
        ensure(same(r.val.urls, [path + '/' + [n for n, t in zip(NAMES21, there) if t][0]]), 'its document')
        ensure(r.val.load(r.val.urls[0]) == '{' + s, 'the text of that file')
    else:
        cover('refused')
        ensure(not r.ok, 'a folder without is refused')


@harness('local_file', 'C21', inputs={'d': DIR, 'n': DIR, 'e': OneOf('.json', '.yaml', '.yml'), 's': Str(), 'full': Bool(), 'scheme': Bool()})
def local_file(d, n, e, s, full, scheme):
    from pyswagger.getter import LocalGetter
    disk = on_disk({'/data/' + d + '/' + n + e: s})
    path = '/data/' + d + '/' + n + (e if full else '')
    g = LocalGetter(('file://' if scheme else '') + path)
    ensure(same(g.urls, ['/data/' + d + '/' + n + e]), 'the file of that name, or of that name with one of the extensions')
    ensure(g.load(g.urls[0]) == s, 'the text of that file')
    ensure(same(disk.read, ['/data/' + d + '/' + n + e]), 'read once')


@harness('local_named', 'C21', inputs={'d': DIR, 'n': OneOf(*NAMES21), 's': Str(), 'scheme': Bool()})
def local_named(d, n, s, scheme):
    from pyswagger.getter import LocalGetter
    disk = on_disk({'/data/' + d + '/' + n: s})
    g = LocalGetter(('file://' if scheme else '') + '/data/' + d + '/' + n)
    ensure(same(g.urls, ['/data/' + d + '/' + n]), 'that file')
    ensure(g.load(g.urls[0]) == s, 'the text of that file')
    ensure(same(disk.read, ['/data/' + d + '/' + n]), 'read once')


@harness('local_none', 'C21', inputs={'d': DIR, 'n': DIR})
def local_none(d, n):
    from pyswagger.getter import LocalGetter
    on_disk({})
    ensure(not outcome(LocalGetter, '/data/' + d + '/' + n).ok, 'no such document is refused')


@harness('file_address', 'C21', inputs={'d': DIR, 'n': DIR, 's': Str(), 'e': OneOf('.json', '.yaml')})
def file_address(d, n, s, e):
    import json
    import yaml
    text = ('{' if e == '.json' else 'a') + s
    disk = on_disk({'/data/' + d + '/' + n + e: text})
    seen = []

    def parse(x, *a, **k):
        seen.append(x)
        return {'swagger': '2.0', 'text': x}
    patch(json, 'loads', parse)
    patch(yaml, 'load', parse)
    r = Resolver()
    u = 'file:///data/' + d + '/' + n + e
    a, b = r.resolve(u), r.resolve(u)
    ensure(a is b, 'the same document again')
    ensure(a['text'] == text, 'the content of the file')
    ensure(same(disk.read, ['/data/' + d + '/' + n + e]), 'read once')


@harness('path_shortcut', 'C21', inputs={'a': Str(no='\t\r\n', ex=['pet', 'pet/{id}', 'a~b', 'a~1b', '']), 't': Str(), 'lead': Bool()})
def path_shortcut(a, t, lead):
    web = Web({'http://h/a': {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {'/' + a: {'get': {'responses': {}, 'summary': t}}, '/_': {}}}})
    app = App.load('http://h/a', resolver=Resolver(default_getter=web.getter()))
    app.prepare()
    assume(a != '_')
    if not lead:
        assume(not a.startswith('/'))
    ensure(app.s('/' + a if lead else a).get.summary == t, 'a path of the document by its name, with or without the leading slash')
    ensure(not outcome(app.s, '-' + a).ok, 'a path the document does not have is refused')


@harness('reference_kind', 'C21', inputs={'n': Str(nonempty=True, no='/~\t\r\n'), 'to': OneOf('definitions', 'parameters', 'responses'), 'place': OneOf('definition', 'property', 'body')}, covers=['ok', 'refused'])
def reference_kind(n, to, place):
    """a reference of a schema to an object of another kind"""
    r = {'$ref': '#/%s/%s' % (to, 'x')}
    d = {'swagger': '2.0', 'info': {'title': n, 'version': '1'}, 'paths': {'/a': {'get': {'parameters': [{'in': 'body', 'name': 'b', 'schema': r if place == 'body' else {}}], 'responses': {}}}},
         'definitions': {'A': r if place == 'definition' else {'properties': {n: r if place == 'property' else {}}}, 'x': {'title': n}},
         'parameters': {'x': {'name': n, 'in': 'query', 'type': 'string'}}, 'responses': {'x': {'description': n}}}
    app = App.load('http://h/a', resolver=Resolver(default_getter=Web({'http://h/a': d}).getter()))
    x = outcome(app.prepare)
    if to == 'definitions':
        cover('ok')
        ensure(x.ok, 'a schema is accepted')
        o = app.resolve('#/definitions/A')
        o = o if place == 'definition' else o.properties[n] if place == 'property' else app.s('a').get.parameters[0].schema
        ensure(o.ref_obj.title == n, 'and what the reference stands for')
    else:
        cover('refused')
        ensure(not x.ok, 'anything else is refused')
