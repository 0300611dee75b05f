from vc import *
from common import *
from pyswagger.primitives import MimeCodec


class Codec(object):
    """an arbitrary codec"""
    def __init__(self, name):
        self.e, self.d = ufn('enc_' + name), ufn('dec_' + name)

    def marshal(self, value, **kwargs):
        return self.e(value, kwargs)

    def unmarshal(self, data, **kwargs):
        return self.d(data, kwargs)


MIME = Str(no=';', ex=['application/json', 'text/plain', 'text/json', 'Text/Plain', ' text/plain', 'application/xml', 'a/b', 'A/B'])
VAL = Any()


@harness('registered', 'C17', inputs={'m': MIME, 'n': MIME, 'v': Str(), 'kw': Str()}, covers=['same', 'other'])
def registered(m, n, v, kw):
    assume(m.strip() == m)
    assume(n.strip() == n)
    c = Codec('c')
    mc = MimeCodec()
    old = mc.codec(n)
    mc.register(m, c)
    ensure(mc.codec(m) is c, 'the codec registered for the type')
    ensure(mc.codec(m.lower()) is c, 'whatever the case')
    if m.lower() == n.lower():
        cover('same')
        ensure(mc.codec(n) is c, 'the same type in another case')
        ensure_same(mc.marshal(n, v, a=kw), c.e(v, {'a': kw}), 'encoded by that codec')
        ensure_same(mc.unmarshal(n, v, a=kw), c.d(v, {'a': kw}), 'decoded by that codec')
    else:
        cover('other')
        ensure(mc.codec(n) is old, 'another type keeps its codec')


@harness('parameters', 'C17', inputs={'m': MIME, 'p': Str(ex=['charset=utf-8', ' charset=utf-8; a=b', ';'])})
def parameters(m, p):
    mc = MimeCodec()
    c = Codec('c')
    mc.register('a/b', c)
    ensure(mc.codec(m + ';' + p) is mc.codec(m), 'parameters of the type do not matter')
    ensure(mc.codec('a/b;' + p) is c, 'the codec of the bare type')
    ensure(mc.codec('A/b ; ' + p) is c, 'blanks around the type do not matter')


@harness('replaced', 'C17', inputs={'m': MIME, 'n': MIME})
def replaced(m, n):
    assume(m.strip() == m)
    assume(n.strip() == n)
    c, d = Codec('c'), Codec('d')
    mc = MimeCodec()
    mc.register(m, c)
    mc.register(n, d)
    ensure(mc.codec(n) is d, 'the later registration counts')
    ensure(mc.codec(m) is (d if m.lower() == n.lower() else c), 'the earlier one is kept for another type')


@harness('unregistered', 'C17', inputs={'m': MIME, 'n': MIME, 'v': Str(), 'shared': OneOf('no', 'before', 'after')})
def unregistered(m, n, v, shared):
    assume(m.strip() == m)
    assume(n.strip() == n)
    mc = MimeCodec()
    c = Codec('c')
    if shared == 'before':
        mc.register(n, c)
    mc.register(m, c)
    if shared == 'after':
        mc.register(n, c)
    old = mc.codec(n)
    mc.unregister(m)
    ensure(mc.codec(m) is None, 'no codec any more')
    if m.lower() != n.lower():
        ensure(mc.codec(n) is old, 'other types keep theirs')
    ensure(not outcome(mc.marshal, m, v).ok, 'a type without codec is refused when encoding')
    ensure(not outcome(mc.unmarshal, m, v).ok, 'a type without codec is refused when decoding')


@harness('instances', 'C17', inputs={'m': MIME, 'n': MIME})
def instances(m, n):
    a, b = MimeCodec(), MimeCodec()
    ob = outcome(b.codec, n)
    a.register(m, Codec('c'))
    ensure(b.codec(n) is ob.val, 'another instance is not affected')
    b2 = MimeCodec()
    ensure((b2.codec(n) is None) == (ob.val is None), 'nor one made later')


@harness('unknown', 'C17', inputs={'m': MIME, 'v': Str()}, covers=['known', 'unknown'])
def unknown(m, v):
    mc = MimeCodec()
    k = m.strip().lower()
    if k == 'application/json' or k == 'text/json' or k == 'text/plain':
        cover('known')
        ensure(mc.codec(m) is not None, 'built-in types have a codec')
    else:
        cover('unknown')
        ensure(mc.codec(m) is None, 'no other type has one')
        ensure(not outcome(mc.marshal, m, v).ok, 'refused')


@harness('plain', 'C17', inputs={'v': VAL, 'kw': VAL})
def plain(v, kw):
    mc = MimeCodec()
    ensure_same(mc.marshal('text/plain', v, _type=kw, _format=kw, name=kw), v, 'plain text is sent as it is')
    ensure_same(mc.unmarshal('text/plain; charset=utf-8', v, _type=kw), v, 'plain text is read as it is')


JV = Union(Scalar(), ListOf(Scalar()), DictOf(Scalar()), DictOf(ListOf(Scalar())), ListOf(DictOf(Scalar())))


@harness('json_inverse', 'C17', inputs={'v': JV, 'm': OneOf('application/json', 'text/json', 'application/json; charset=utf-8', 'Application/JSON')})
def json_inverse(v, m):
    mc = MimeCodec()
    t = mc.marshal(m, v)
    ensure_same(mc.unmarshal(m, t), v, 'decoding inverts encoding')
    ensure_same(mc.unmarshal(m, t.encode('utf-8')), v, 'bytes are decoded alike')


class Form(object):
    """a value with a JSON form of its own"""
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return self.v


def typed(f, v):
    from pyswagger.primitives import Primitive
    return Primitive().produce(schema(type='string', format=f), v)


@harness('json_forms', 'C17', inputs={'v': JV, 'w': Str(), 'm': OneOf('application/json', 'text/json'), 'k': Str()})
def json_forms(v, w, m, k):
    """values with a JSON form: that form is sent, wherever they stand"""
    mc = MimeCodec()
    f, g = Form(v), Form(w)
    ensure_same(mc.unmarshal(m, mc.marshal(m, f)), v, 'a value alone')
    ensure_same(mc.unmarshal(m, mc.marshal(m, [g, f, w])), [w, v, w], 'values in lists')
    ensure_same(mc.unmarshal(m, mc.marshal(m, {k: f})), {k: v}, 'values in maps')
    ensure_same(mc.unmarshal(m, mc.marshal(m, {k: [Form({'a': g})]})), {k: [{'a': w}]}, 'values within forms')


class Formless(object):
    pass


@harness('json_refused', 'C17', inputs={'v': JV, 'k': Str()})
def json_refused(v, k):
    mc = MimeCodec()
    ensure(not outcome(mc.marshal, 'application/json', {k: [v, Formless()]}).ok, 'a value without JSON form is refused')


@harness('json_keys_refused', 'C17', inputs={'v': JV, 'k': Str(), 'deep': Bool(), 'q': OneOf((1, 2), b'x', frozenset())})
def json_keys_refused(v, k, deep, q):
    mc = MimeCodec()
    ensure(not outcome(mc.marshal, 'application/json', {k: [{q: v}]} if deep else {q: v}).ok, 'a name without JSON form is refused')


@harness('json_typed', 'C17', inputs={'y': Int(1, 9999), 'mo': Int(1, 12), 'd': Int(1, 28), 'n': Int(0, 2 ** 128 - 1), 's': Str(), 'k': Str()})
def json_typed(y, mo, d, n, s, k):
    import uuid
    mc = MimeCodec()
    day, u = typed('date', '%04d-%02d-%02d' % (y, mo, d)), typed('uuid', uuid.UUID(int=n))
    ensure_same(mc.unmarshal('application/json', mc.marshal('application/json', {k: [day, u, s]})), {k: ['%04d-%02d-%02d' % (y, mo, d), str(uuid.UUID(int=n)), s]}, 'dates and identifiers as their text')
