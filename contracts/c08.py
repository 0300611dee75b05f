from vc import *
from common import *
from pyswagger.primitives import Primitive
from pyswagger.scanner.v2_0.yaml import YamlFixer

JSON = 'application/json'


class Codec(object):
    """an arbitrary codec"""
    def __init__(self):
        self.code = ufn('decode', 'str')

    def unmarshal(self, mime, data, **kwargs):
        return self.code(mime, data, kwargs)


def factory():
    """values are built by an arbitrary function of the title of their schema, and must be built for reading"""
    p = Primitive()
    make = ufn('make')

    def create(obj, v, ctx):
        ensure(ctx['read'] is True, 'values are built for reading')
        return make(obj.format, v)
    p.register('string', 'x', create)
    p.register('string', 'y', create)
    return p, make


def resp(fmt, name, s):
    return response(schema=schema(type='string', format=fmt, name=name) if s else None)


RESP = Build(resp, OneOf('x', 'y'), Str(), Bool())
KEYS = ['200', '404', 'default', '20']


def answers(rs):
    p, make = factory()
    c = Codec()
    return ready(operation(parameters=[], responses=rs), p, c)()[1], make, c.code


def chosen(rs, st):
    if str(st) in rs:
        return rs[str(st)]
    return rs['default'] if 'default' in rs else None


@harness('yaml_status', 'C08', inputs={'m': Int(ex=[200]), 'n': Int(ex=[404, 20]), 'k': Str(no='-0123456789', ex=['default', 'x-y']), 'second': Bool(), 'raw': Str()}, covers=['first', 'second'])
def yaml_status(m, n, k, second, raw):
    """YAML documents have numbers for statuses"""
    assume(m != n)
    a, b, c = resp('x', 'a', True), resp('y', 'b', True), resp('x', 'c', True)
    op = operation(parameters=[], responses={m: a, n: b, k: c})
    visit(YamlFixer(), op, '#/paths/~1a/get')
    ensure(len(op.responses) == 3, 'nothing is lost or added')
    ensure(both(op.responses[str(m)] is a, op.responses[str(n)] is b, op.responses[k] is c), 'every response under the text of its status')
    p, make = factory()
    c = Codec()
    got = ready(op, p, c)()[1]
    got.apply_with(status=n if second else m, raw=raw)
    cover('second' if second else 'first')
    ensure(same(got.data, make('y' if second else 'x', c.code(JSON, raw, {'_type': 'string', '_format': 'y' if second else 'x', 'name': 'b' if second else 'a'}))), 'decoded by the response of the status')


@harness('own_status', 'C08', inputs={'rs': DictOf(RESP, keys=KEYS), 'st': Int(ex=[200, 404, 20, 0]), 'raw': Str(), 'once': Bool()}, covers=['own', 'default', 'none', 'plain'])
def own_status(rs, st, raw, once):
    r, make, code = answers(rs)
    if once:
        r.apply_with(status=st, raw=raw)
    else:
        r.apply_with(status=st)
        r.apply_with(raw=raw)
    ensure(r.status == st and r.raw == raw, 'status and raw body are kept')
    w = chosen(rs, st)
    if w is None:
        cover('none')
        ensure(r.data is None, 'without declaration there is no data')
    elif w.schema is None:
        cover('plain')
        ensure(r.data is None, 'without schema there is no data')
    else:
        cover('own' if str(st) in rs else 'default')
        s = w.schema
        ensure_same(r.data, make(s.format, code(JSON, raw, {'_type': 'string', '_format': s.format, 'name': s.name})), 'the body is decoded by the schema of its status, or the default one')


@harness('status_changes', 'C08', inputs={'a': Int(ex=[200, 404]), 'b': Int(ex=[200, 404]), 'raw': Str()})
def status_changes(a, b, raw):
    r, make, code = answers({'200': resp('x', 'n', True), 'default': resp('y', 'm', True)})
    r.apply_with(status=a).apply_with(status=b).apply_with(raw=raw)
    f, n = ('x', 'n') if b == 200 else ('y', 'm')
    ensure_same(r.data, make(f, code(JSON, raw, {'_type': 'string', '_format': f, 'name': n})), 'the last status counts')


@harness('raw_only', 'C08', inputs={'raw': Str(), 'on': Bool(), 'off': Bool()})
def raw_only(raw, on, off):
    r, make, code = answers({'default': resp('x', 'n', True)})
    r.raw_body_only = True
    if off:
        r.raw_body_only = False
    r.apply_with(status=200, raw=raw)
    ensure(r.raw == raw, 'the raw body is kept')
    ensure(off or r.data is None, 'in raw mode the body stays as it is')
    if off:
        ensure_same(r.data, make('x', code(JSON, raw, {'_type': 'string', '_format': 'x', 'name': 'n'})), 'and is decoded otherwise')


@harness('no_status', 'C08', inputs={'raw': Str()})
def no_status(raw):
    r, make, code = answers({'default': resp('x', 'n', True)})
    ensure(not outcome(r.apply_with, raw=raw).ok, 'a body without status is refused')


@harness('referenced', 'C08', inputs={'raw': Str(), 'h': Str()})
def referenced(raw, h):
    real = response(schema=schema(ref_obj=schema(type='string', format='y', name='N'), **{'$ref': 'q'}), headers={'H': header(type='string', format='x')})
    r, make, code = answers({'200': response(final=real, **{'$ref': 'z'})})
    r.apply_with(status=200, raw=raw, header={'H': h})
    ensure_same(r.data, make('y', code(JSON, raw, {'_type': 'string', '_format': 'y', 'name': 'N'})), 'references to responses and schemas are followed')
    ensure_same(r.header['H'], [make('x', h)], 'references to responses and schemas are followed')


CT = Str(ex=['application/json', 'Text/Plain; charset=utf-8', 'a/b'])
OTHER = OneOf('X', 'X-Content-Type', 'Content-Type-X', 'Content', 'Type', 'Content-Length', 'Accept')
CTN = OneOf('Content-Type', 'content-type', 'CONTENT-TYPE')


@harness('content_type', 'C08', inputs={'n': CTN, 'm': CTN, 'c': CT, 'd': CT, 'raw': Str(), 'o': Str(), 'x': OTHER, 'as_list': Bool(), 'twice': Bool()})
def content_type(n, m, c, d, raw, o, x, as_list, twice):
    r, make, code = answers({'200': resp('x', 'n', True)})
    hs = [(x, o), (n, c), ('Y', o)]
    if twice and as_list:
        hs = hs + [(m, d)]
    r.apply_with(status=200, header=hs if as_list else dict(hs), raw=raw)
    ensure_same(r.data, make('x', code(c.lower(), raw, {'_type': 'string', '_format': 'x', 'name': 'n'})), 'the decoder of the announced content type, the first one given')


@harness('header_list', 'C08', inputs={'a': Str(), 'b': Str(), 'c': Str(), 'k': Str(ex=['X-A', 'x-a']), 'l': Str(ex=['X-A', 'x-a', 'Y']), 'q': Str(ex=['X-A', 'x-a', 'Y', 'y']), 'parts': Bool()}, covers=['both', 'first', 'second', 'none'])
def header_list(a, b, c, k, l, q, parts):
    r, make, code = answers({})
    if parts:
        r.apply_with(status=200, header=[(k, a), (l, b)]).apply_with(header=[(k, c)])
    else:
        r.apply_with(status=200, header=[(k, a), (l, b), (k, c)])
    want = []
    if q.lower() == k.lower():
        want.append(a)
    if q.lower() == l.lower():
        want.append(b)
    if q.lower() == k.lower():
        want.append(c)
    if not want:
        cover('none')
        ensure(q not in r.header, 'no other header')
    else:
        cover('both' if len(want) == 3 else 'first' if len(want) == 2 else 'second')
        ensure_same(list(r.header[q]), want, 'every value of the header, in order')


@harness('header_map', 'C08', sizes='at most three headers', inputs={'h': Rec({}, {'X-A': Str(), 'x-b': Str(), 'C': Str()}), 'q': OneOf('X-A', 'x-b', 'C')})
def header_map(h, q):
    r, make, code = answers({})
    r.apply_with(header=h)
    for n in [q, q.lower(), q.upper()]:
        ensure(iff(n in r.header, q in h), 'exactly the given headers')
        if q in h:
            ensure_same(list(r.header[n]), [h[q]], 'with their value')


@harness('header_types', 'C08', inputs={'k': Str(ex=['X-A', 'x-a', 'b', 'B', 'C']), 'v': Str(), 'st': OneOf(200, 201)}, covers=['x', 'y', 'other'])
def header_types(k, v, st):
    r, make, code = answers({'200': response(headers={'X-A': header(type='string', format='x'), 'b': header(type='string', format='y')})})
    r.apply_with(status=st, header=[(k, v)])
    if st == 200 and k.lower() == 'x-a':
        cover('x')
        ensure_same(r.header[k], [make('x', v)], 'built by the declared type')
    elif st == 200 and k.lower() == 'b':
        cover('y')
        ensure_same(r.header[k], [make('y', v)], 'built by the declared type')
    else:
        cover('other')
        ensure_same(r.header[k], [v], 'kept as it is when not declared')


HN = OneOf('X-A', 'x-a', 'B', 'C')


@harness('headers_typed', 'C08', sizes='three headers', inputs={'vs': Tup(Tup(HN, Str()), Tup(HN, Str()), Tup(HN, Str())), 'parts': Bool(), 'q': OneOf('X-A', 'x-A', 'B', 'c')}, covers=['some', 'none'])
def headers_typed(vs, parts, q):
    r, make, code = answers({'200': response(headers={'X-A': header(type='string', format='x'), 'b': header(type='string', format='y')})})
    r.apply_with(status=200, header=list(vs))
    if parts:
        r.apply_with(header=list(vs))
    want = [make({'x-a': 'x', 'b': 'y'}[q.lower()], v) if q != 'c' else v for k, v in vs if k.lower() == q.lower()]
    want = want + want if parts else want
    if q in r.header:
        cover('some')
        ensure(same(list(r.header[q]), want), 'every value, in order, built by its declared type')
    else:
        cover('none')
        ensure(same([], want), 'a header without values is not there')


@harness('header_typed', 'C08', inputs={'v': Str(ex=['1,2', '3']), 'w': Int()})
def header_typed(v, w):
    p = Primitive()
    op = ready(operation(parameters=[], responses={'default': response(headers={
        'N': header(type='integer'), 'L': header(type='array', collectionFormat='pipes', items=items(type='string'))})}), p)
    r = op()[1]
    r.apply_with(status=500, header=[('N', str(w)), ('L', v)])
    ensure_same(r.header['n'], [w], 'numbers')
    ensure_same(list(r.header['l'][0]), v.split('|'), 'arrays')


@harness('reset', 'C08', inputs={'raw': Str(), 'h': Str(), 'v': Str()})
def reset(raw, h, v):
    r, make, code = answers({'200': resp('x', 'n', True)})
    r.apply_with(status=200, raw=raw, header={h: v})
    r.reset()
    ensure(r.status is None and r.raw is None and r.data is None and len(r.header) == 0, 'starting over')
    r.apply_with(status=200, header=[(h, raw)])
    ensure_same(r.header[h], [raw], 'nothing is left over')
    ensure(r.data is None, 'nothing is left over')
