from vc import *
from common import *
from pyswagger import errs
from pyswagger.primitives import Primitive
from six.moves.urllib.parse import quote, unquote, urlencode, urlparse, urlunparse

FORM, MULTI, JSON = 'application/x-www-form-urlencoded', 'multipart/form-data', 'application/json'
TYPE = Str(ex=[JSON, 'text/plain', FORM, MULTI, 'a/b'])
TYPES = ListOf(TYPE)


class Codec(object):
    """an arbitrary codec"""
    def __init__(self):
        self.calls = []
        self.code = ufn('encode')

    def marshal(self, mime, value, **kwargs):
        self.calls.append((mime, value, kwargs))
        return self.code(mime, value)


def par(name, where, **f):
    return parameter(where, name=name, type='string', **f)


def op_of(ps, codec=None, url='//h.io/v1/p', path='/p', schemes=None, **f):
    return ready(operation(parameters=ps, url=url, path=path, **f), Primitive(), codec, schemes)


def encoded(v):
    q = quote(v, safe='')
    if not SYMBOLIC:
        ensure(unquote(q) == v and all(c.isalnum() or c in '%-._~' for c in q), 'percent-encoding')
    return q


@harness('substituted', 'C07', inputs={'a': Str(), 'b': Str(), 't': OneOf('/p/{a}/{b}', '/{b}/p{a}', '/{a}', '/p', '/{a}/{a}/{b}'), 's': OneOf('http', 'https')})
def substituted(a, b, t, s):
    op = op_of([par('a', 'path', required=True), par('b', 'path', required=True)], url='//h.io/v1' + t, path=t)
    r = op(a=a, b=b)[0]
    ensure(r.prepare(scheme=s) is r, 'the prepared request')
    want = t.replace('{a}', encoded(a)).replace('{b}', encoded(b)) if not SYMBOLIC else {
        '/p/{a}/{b}': '/p/' + encoded(a) + '/' + encoded(b), '/{b}/p{a}': '/' + encoded(b) + '/p' + encoded(a), '/{a}': '/' + encoded(a), '/p': '/p',
        '/{a}/{a}/{b}': '/' + encoded(a) + '/' + encoded(a) + '/' + encoded(b)}[t]
    ensure(r.path == want, 'every path parameter, encoded, in its place of the path')
    ensure(r.url == s + '://h.io/v1' + want, 'and of the address')


@harness('headers', 'C07', inputs={'a': Str(), 'b': Str(), 'g': Bool(), 'q': Str()}, covers=['given', 'not'])
def headers(a, b, g, q):
    op = op_of([par('X-A', 'header', required=True), par('x-b', 'header'), par('q', 'query')])
    args = {'X-A': a, 'q': q}
    if g:
        args['x-b'] = b
    r = op(**args)[0].prepare()
    cover('given' if g else 'not')
    ensure_same(dict(r.header), {'X-A': a, 'x-b': b} if g else {'X-A': a}, 'exactly the header arguments')
    ensure_same(list(r.query), [('q', q)], 'the query arguments')
    ensure(r.data is None, 'no payload')


@harness('form', 'C07', inputs={'v': ListOf(Str(), min=1), 'w': Str(), 'cs': TYPES}, covers=['ok', 'not'])
def form(v, w, cs):
    op = op_of([parameter('formData', name='a', type='array', collectionFormat='multi', items=items(type='string')), par('b', 'formData')], consumes=cs)
    r = op(a=v, b=w)[0]
    x = outcome(r.prepare)
    if len(cs) == 0 or FORM in cs:
        cover('ok')
        ensure(x.ok, 'a form is accepted where it is declared or nothing is declared')
        ensure(r.data == urlencode([('a', y) for y in v] + [('b', w)]), 'the fields of the form, encoded')
        ensure_same(dict(r.header), {'Content-Type': FORM}, 'the content type of forms')
    else:
        cover('not')
        ensure(not x.ok, 'a content type that is not declared is refused')
        ensure(isinstance(x.exc, errs.SchemaError), 'by a schema error')


@harness('body', 'C07', inputs={'v': Str(), 'h': Str(), 'cs': TYPES, 'c': Opt(TYPE), 'pos': Bool(), 'n': Opt(Str()), 'opt': Bool()}, covers=['own', 'first', 'json', 'refused'])
def body(v, h, cs, c, pos, n, opt):
    assume(c != '')
    assume('' not in cs)
    codec = Codec()
    ps = [par('h', 'header'), parameter('body', name='b', schema=schema(type='string', format='f', name=n))]
    op = op_of(ps if pos else ps[::-1], codec, consumes=cs)
    r = op(b=v, h=h)[0]
    if c is not None:
        ensure(r.consume(c) is r, 'options can be chained')
    x = outcome(r.prepare)
    if c is not None and len(cs) > 0 and c not in cs:
        cover('refused')
        ensure(not x.ok, 'a content type that is not declared is refused')
        ensure(isinstance(x.exc, errs.SchemaError), 'by a schema error')
        ensure(len(codec.calls) == 0, 'before anything is encoded')
        return
    ensure(x.ok, 'anything else is prepared')
    if c is not None:
        cover('own')
        m = c
    elif len(cs) > 0:
        cover('first')
        m = cs[0]
    else:
        cover('json')
        m = JSON
    ensure(len(codec.calls) == 1, 'the body is encoded')
    ensure_same(codec.calls[0], (m, v, {'_type': 'string', '_format': 'f', 'name': n}), 'by the codec of its content type, for its schema')
    ensure_same(r.data, codec.code(m, v), 'the payload is the encoded body')
    ensure_same(dict(r.header), {'h': h, 'Content-Type': m}, 'its content type is announced')


@harness('body_again', 'C07', inputs={'v': Str(), 'cs': TYPES, 'c': TYPE, 'd': TYPE})
def body_again(v, cs, c, d):
    assume(both(c != '', d != ''))
    codec = Codec()
    op = op_of([parameter('body', name='b', schema=schema(type='string'))], codec, consumes=cs)
    r = op(b=v)[0].consume(c).consume(d)
    x = outcome(r.prepare)
    ensure(iff(x.ok, either(len(cs) == 0, d in cs)), 'the last option counts')
    if x.ok:
        ensure_same(dict(r.header), {'Content-Type': d}, 'the last option counts')


@harness('body_final', 'C07', inputs={'v': Str(), 'cs': ListOf(TYPE, min=1)})
def body_final(v, cs):
    codec = Codec()
    real = parameter('body', name='b', schema=schema(ref_obj=schema(type='string', format='g', name='N'), **{'$ref': 'x'}))
    op = op_of([parameter(None, final=real, **{'$ref': 'y'})], codec, consumes=cs)
    r = op(b=v)[0].prepare()
    ensure_same(codec.calls, [(cs[0], v, {'_type': 'string', '_format': 'g', 'name': 'N'})], 'references to parameters and schemas are followed')


@harness('accept', 'C07', inputs={'ps': TYPES, 'p': Opt(TYPE), 'h': Str()}, covers=['own', 'first', 'none', 'refused'])
def accept(ps, p, h):
    assume(both(p != '', '' not in ps))
    op = op_of([par('h', 'header')], produces=ps)
    r = op(h=h)[0]
    if p is not None:
        ensure(r.produce(p) is r, 'options can be chained')
    x = outcome(r.prepare)
    if p is not None and len(ps) > 0 and p not in ps:
        cover('refused')
        ensure(not x.ok, 'a type that is not declared is refused')
        ensure(isinstance(x.exc, errs.SchemaError), 'by a schema error')
    else:
        ensure(x.ok, 'anything else is prepared')
        if p is not None:
            cover('own')
            ensure_same(dict(r.header), {'h': h, 'Accept': p}, 'the accepted type asked for')
        elif len(ps) > 0:
            cover('first')
            ensure_same(dict(r.header), {'h': h, 'Accept': ps[0]}, 'the first declared type')
        else:
            cover('none')
            ensure_same(dict(r.header), {'h': h}, 'no type is announced')


@harness('file_form', 'C07', inputs={'w': Str(), 'g': Bool(), 'cs': TYPES})
def file_form(w, g, cs):
    op = op_of([parameter('formData', name='f', type='file'), par('b', 'formData')], consumes=cs)
    args = {'f': {'filename': 'x.txt', 'data': 'y'}}
    if g:
        args['b'] = w
    r = op(**args)[0].prepare(handle_files=False)
    ensure_same(list(r.data), [('b', w)] if g else [], 'clients that encode files themselves get the fields')
    ensure(r.files['f'].filename == 'x.txt', 'and the files')
    ensure(len(r.header) == 0, 'and announce the content type themselves')


SCHEME = Str(ex=['http', 'https', 'ws'])


@harness('scheme_list', 'C07', inputs={'ss': ListOf(SCHEME, min=1), 'p': Opt(SCHEME)}, covers=['preferred', 'refused', 'any'])
def scheme_list(ss, p):
    r = op_of([])()[0]
    if p is not None:
        r.scheme = p
    x = outcome(r.prepare, scheme=list(ss))
    if p is None:
        cover('any')
        ensure(x.ok, 'a supported scheme is enough')
        ensure(any(r.url == s + '://h.io/v1/p' for s in ss), 'one of the supported schemes')
    elif p in ss:
        cover('preferred')
        ensure(x.ok, 'a supported scheme is enough')
        ensure(r.url == p + '://h.io/v1/p', 'the preferred scheme')
    else:
        cover('refused')
        ensure(not x.ok, 'a preferred scheme that is not supported is refused')


@harness('scheme_other', 'C07', inputs={'s': Union(Scalar('none', 'int', 'bool'), DictOf(Str()))})
def scheme_other(s):
    ensure(not outcome(op_of([])()[0].prepare, scheme=s).ok, 'a scheme is a text or a list')


URL = Str(ex=['//h.io/v1/p', '//localhost:80/a?b#c', '//h.io'])


@harness('overrides', 'C07', inputs={'u': URL, 's': OneOf(None, 'https', 'ws', ''), 'n': Opt(Str(no='/?#@[]', ex=['x.y', 'x.y:443', 'x:80'])), 'after': Bool()}, covers=['none', 'some'])
def overrides(u, s, n, after):
    assume(both('{' not in u, '}' not in u))
    op = op_of([], url=u)
    r = op()[0]
    if after:
        r.prepare(scheme='http')
    before = r.url
    opt = {'other': 1}
    if s is not None:
        opt['url_scheme'] = s
    if n is not None:
        opt['url_netloc'] = n
    r._patch(opt)
    if not s and not n:
        cover('none')
        ensure(r.url == before, 'without override the address stays')
    else:
        cover('some')
        p = urlparse(before)
        ensure(r.url == urlunparse((s or p[0], n or p[1], p[2], p[3], p[4], p[5])), 'only the overridden parts are replaced')
    ensure_same(opt, {'other': 1}, 'used options are taken out')


@harness('reset', 'C07', inputs={'a': Str(), 'h': Str(), 'c': TYPE, 'cs': TYPES})
def reset(a, h, c, cs):
    assume(c != '')
    assume(either(len(cs) == 0, c in cs))
    codec = Codec()
    op = op_of([par('a', 'path'), par('h', 'header'), parameter('body', name='b', schema=schema(type='string'))], codec, url='//h.io/{a}', path='/{a}', consumes=cs)
    r = op(a=a, h=h, b=h)[0].consume(c)
    r.prepare()
    u, p, d, hs = r.url, r.path, r.data, dict(r.header)
    r.reset()
    ensure(len(r.header) == 0 and r.data is None and r.path == '/{a}' and r.url == '//h.io/{a}', 'starting over')
    r.prepare()
    ensure(r.url == u and r.path == p, 'preparing again gives the same address')
    ensure_same(r.data, d, 'the same payload')
    ensure_same(dict(r.header), hs, 'and the same headers')


@harness('from_operation', 'C07', inputs={'m': Str(), 'b': Str(), 'ss': ListOf(SCHEME), 'ws': ListOf(SCHEME, min=1)})
def from_operation(m, b, ss, ws):
    op = op_of([], schemes=list(ws), method=m, base_path=b)
    op2 = ready(operation(parameters=[], url='u', path='p', schemes=list(ss)), Primitive(), None, list(ws))
    r, r2 = op()[0], op2()[0]
    ensure(r.method == m, 'the verb of the operation')
    ensure(r.base_path == b, 'and its base path')
    ensure_same(list(r.schemes), ws, 'the schemes of the document')
    ensure_same(list(r2.schemes), ss if len(ss) > 0 else ws, 'or of the operation')


@harness('named_headers', 'C07', inputs={'v': Str(), 't': Str(), 'a': Str(), 'kind': OneOf('body', 'form', 'none')})
def named_headers(v, t, a, kind):
    """header arguments with the names of headers that preparing sets"""
    ps = [par('Content-Type', 'header'), par('Accept', 'header')]
    if kind == 'body':
        ps.append(parameter('body', name='b', schema=schema(type='string')))
    elif kind == 'form':
        ps.append(par('b', 'formData'))
    args = {} if kind == 'none' else {'b': v}
    args['Content-Type'], args['Accept'] = t, a
    r = op_of(ps, Codec(), produces=['p/q'])(**args)[0]
    r.prepare()
    want = {'body': JSON, 'form': FORM, 'none': t}[kind]
    ensure_same(dict(r.header), {'Content-Type': want, 'Accept': 'p/q'}, 'the types are the ones of the payload and of the operation')
